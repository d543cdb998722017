package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func specFiles(dir string) []string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(fs)
	return fs
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc unit NAME | check PROP... | list | externs")
		os.Exit(2)
	}
	debug.SetGCPercent(600)
	repo := env("GOVC_REPO", "/repo")
	dir := env("GOVC_SPECS", "/verif/contracts")
	if f := os.Getenv("GOVC_PROF"); f != "" && os.Args[1] == "unit" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "externs":
		w := loadWorld(repo, specFiles(dir))
		w.externs()
	case "list":
		w := loadSafe(repo, specFiles(dir))
		for _, c := range w.spec.Contracts {
			fmt.Println(w.describe(c), c.Props, w.unresolved[c])
		}
		for _, d := range w.spec.Decls {
			if d.Kind == "lemma" {
				fmt.Println("lemma "+d.Name, d.Props)
			}
		}
	case "ssa":
		w := loadSafe(repo, specFiles(dir))
		for _, f := range w.functions() {
			if strings.Contains(f.String(), os.Args[2]) {
				f.WriteTo(os.Stdout)
			}
		}
	case "unit":
		// own process: the term tables are global
		res := runUnit(repo, dir, strings.Join(os.Args[2:], " "))
		b, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
	case "try":
		// compact output for every unit whose name contains the argument
		w := loadSafe(repo, specFiles(dir))
		var ns []string
		for _, c := range w.spec.Contracts {
			if !c.Iface && c.Trusted == "" {
				ns = append(ns, w.describe(c))
			}
		}
		for _, d := range w.spec.Decls {
			if d.Kind == "lemma" {
				ns = append(ns, "lemma "+d.Name)
			}
		}
		for _, n := range ns {
			hit := false
			for _, a := range os.Args[2:] {
				hit = hit || strings.Contains(n, a)
			}
			if !hit {
				continue
			}
			r := subUnit(repo, dir, n)
			st := "ok  "
			if !r.OK {
				st = "FAIL"
			}
			fmt.Printf("%s %-45s %4d obl %6d ms %v %s\n", st, n, r.Obls, r.Ms, r.BySolver, r.Error)
			for _, f := range r.Failed {
				d := f.Detail
				if m := 500; len(d) > m && os.Getenv("FULL") == "" {
					d = d[:m]
				}
				fmt.Printf("       %s [%s] %s %s: %s %s\n", f.Kind, f.Label, f.Pos, f.Fn, d, f.Query)
			}
			if !r.OK || os.Getenv("NOTES") != "" {
				for _, x := range r.Notes {
					fmt.Println("       note:", x)
				}
				if len(r.UnusedInv) > 0 {
					fmt.Println("       unused inv:", r.UnusedInv)
				}
			}
		}
	case "hints":
		// records which invariant candidates survive, for the units named
		w := loadSafe(repo, specFiles(dir))
		all := loadHints(dir)
		have := map[string]bool{}
		os.Setenv("GOVC_KEPT", "1")
		os.Setenv("GOVC_HINTS", "0")
		for _, c := range w.spec.Contracts {
			n := w.describe(c)
			if c.Iface || c.Trusted != "" {
				continue
			}
			have[n] = true
			hit := len(os.Args) == 2
			for _, a := range os.Args[2:] {
				hit = hit || strings.Contains(n, a) || a == "new" && all[n] == nil
			}
			if !hit {
				continue
			}
			r := subUnit(repo, dir, n)
			fmt.Println(r.OK, n, r.Ms)
			if r.OK {
				all[n] = r.Kept
				if all[n] == nil {
					all[n] = map[string][]string{}
				}
				all[n]["ms"] = []string{fmt.Sprint(r.Ms / 1000)}
			}
		}
		for n := range all {
			if !have[n] {
				delete(all, n)
			}
		}
		b, _ := json.MarshalIndent(all, "", " ")
		os.WriteFile(hintFile(dir), append(b, '\n'), 0o644)
	case "check":
		os.Exit(check(repo, dir, os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func loadSafe(repo string, fs []string) *World {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, r)
			os.Exit(3)
		}
	}()
	w := loadWorld(repo, fs)
	if len(w.loadErrs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(w.loadErrs, "\n"))
		os.Exit(3)
	}
	return w
}

func hintFile(dir string) string { return filepath.Join(dir, "hints.json") }

func loadHints(dir string) map[string]map[string][]string {
	m := map[string]map[string][]string{}
	if b, err := os.ReadFile(hintFile(dir)); err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// unitTimes are the seconds the units took when their hints were recorded; long ones go first.
func unitTimes(dir string) map[string]int {
	m := map[string]int{}
	for n, h := range loadHints(dir) {
		for _, x := range h["ms"] {
			k := 0
			fmt.Sscan(x, &k)
			m[n] = k
		}
	}
	return m
}

func runUnit(repo, dir, name string) *UnitResult {
	w := loadSafe(repo, specFiles(dir))
	w.hints = map[string]map[string]map[string]bool{}
	if hintsOn {
		for u, m := range loadHints(dir) {
			w.hints[u] = map[string]map[string]bool{}
			for k, l := range m {
				w.hints[u][k] = map[string]bool{}
				for _, x := range l {
					w.hints[u][k][x] = true
				}
			}
		}
	}
	for _, c := range w.spec.Contracts {
		if w.describe(c) == name {
			return w.verifyContract(c)
		}
	}
	for _, d := range w.spec.Decls {
		if d.Kind == "lemma" && "lemma "+d.Name == name {
			return w.verifyLemma(d)
		}
	}
	return &UnitResult{Name: name, Error: "no such unit"}
}

type Report struct {
	Prop    string        `json:"prop"`
	OK      bool          `json:"ok"`
	Units   []*UnitResult `json:"units"`
	Error   string        `json:"error,omitempty"`
	Ms      int64         `json:"ms"`
	Trusted []string      `json:"trusted"`
}

// check verifies all units of the given properties and everything they rely on.
func check(repo, dir string, props []string) int {
	t0 := time.Now()
	rep := &Report{Prop: strings.Join(props, ","), OK: true}
	out := os.Getenv("GOVC_OUT")
	emit := func() {
		rep.Ms = time.Since(t0).Milliseconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if out != "" {
			os.WriteFile(out+".new", b, 0o644)
			os.Rename(out+".new", out)
		} else {
			fmt.Println(string(b))
		}
	}
	var w *World
	func() {
		defer func() {
			if r := recover(); r != nil {
				rep.Error = fmt.Sprint(r)
				if s, ok := r.(specErr); ok {
					rep.Error = s.msg
				}
			}
		}()
		w = loadWorld(repo, specFiles(dir))
		if len(w.loadErrs) > 0 {
			rep.Error = strings.Join(w.loadErrs, "\n")
		}
	}()
	if rep.Error != "" {
		rep.OK = false
		emit()
		return 1
	}
	want := map[string]bool{}
	for _, p := range props {
		want[p] = true
	}
	has := func(ps []string) bool {
		for _, p := range ps {
			if want[p] || want["all"] {
				return true
			}
		}
		return false
	}
	byName := map[string]*Contract{}
	queued := map[string]bool{}
	trusted := map[string]bool{}
	var queue []string
	add := func(n string) {
		if queued[n] {
			return
		}
		queued[n] = true
		if c := byName[n]; c != nil {
			if c.Iface {
				trusted["interface contract "+c.Target] = true
				return
			}
			if c.Trusted != "" {
				trusted["contract of "+c.Target+" assumed: "+c.Trusted] = true
				return
			}
		}
		queue = append(queue, n)
	}
	for _, c := range w.spec.Contracts {
		byName[w.describe(c)] = c
	}
	for _, c := range w.spec.Contracts {
		if has(c.Props) && !c.Iface && c.Trusted == "" {
			add(w.describe(c))
		}
	}
	for _, d := range w.spec.Decls {
		if d.Kind == "lemma" && has(d.Props) {
			add("lemma " + d.Name)
		}
	}
	only := os.Getenv("GOVC_ONLY")
	if only != "" {
		queue = strings.Split(only, "\n")
	}
	if len(queue) == 0 {
		rep.Error = "no contracts for this property"
		rep.OK = false
	}
	if sd, err := os.MkdirTemp("", "govc-slots"); err == nil {
		defer os.RemoveAll(sd)
		os.Setenv("GOVC_SLOTS", sd)
	}
	par := 6
	fmt.Sscan(os.Getenv("GOVC_PAR"), &par)
	// units are verified as they become known; after each the report is written with
	// what is still open, for a reader that stops waiting
	slow := unitTimes(dir)
	results := make(chan *UnitResult)
	running := 0
	for len(queue) > 0 || running > 0 {
		sort.SliceStable(queue, func(i, j int) bool { return slow[queue[i]] > slow[queue[j]] })
		for len(queue) > 0 && running < par {
			n := queue[0]
			queue = queue[1:]
			running++
			go func() { results <- subUnit(repo, dir, n) }()
		}
		r := <-results
		running--
		rep.Units = append(rep.Units, r)
		if !r.OK {
			rep.OK = false
		}
		for _, u := range r.Uses {
			if strings.HasPrefix(u, "iface ") {
				trusted["interface contract "+strings.TrimPrefix(u, "iface ")] = true
				continue
			}
			if only == "" {
				add(u)
			}
		}
		for _, l := range r.Lemmas {
			if only == "" {
				add("lemma " + l)
			}
		}
		for _, a := range r.Axioms {
			trusted["axiom "+a] = true
		}
		for _, a := range r.Assumptions {
			trusted[a] = true
		}
		for _, m := range r.Models {
			trusted["library model of "+m] = true
		}
		if out != "" {
			ok := rep.OK
			rep.OK, rep.Error = false, "verifier ran out of time"
			emit()
			rep.OK, rep.Error = ok, ""
		}
	}
	sort.SliceStable(rep.Units, func(i, j int) bool { return rep.Units[i].Name < rep.Units[j].Name })
	rep.Trusted = sortedKeys(trusted)
	emit()
	if !rep.OK {
		return 1
	}
	return 0
}

func subUnit(repo, dir, name string) *UnitResult {
	cmd := exec.Command(os.Args[0], "unit", name)
	cmd.Env = append(os.Environ(), "GOVC_REPO="+repo, "GOVC_SPECS="+dir)
	var errb strings.Builder
	cmd.Stderr = &errb
	if os.Getenv("GOVC_TRACE") != "" || debugTime || os.Getenv("GOVC_DEBUG") != "" {
		cmd.Stderr = os.Stderr
	}
	done := make(chan struct{})
	timer := time.AfterFunc(600*time.Second, func() { cmd.Process.Kill() })
	b, err := cmd.Output()
	timer.Stop()
	close(done)
	var r UnitResult
	if e := json.Unmarshal(b, &r); e != nil {
		msg := errb.String()
		if len(msg) > 2000 {
			msg = msg[len(msg)-2000:]
		}
		return &UnitResult{Name: name, Error: fmt.Sprintf("verifier failed: %v %s", err, msg)}
	}
	return &r
}

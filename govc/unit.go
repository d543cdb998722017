package main

// Verification of one contract or lemma.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblResult struct {
	Kind   string `json:"kind"`
	Label  string `json:"label"`
	Pos    string `json:"pos"`
	Fn     string `json:"fn,omitempty"`
	OK     bool   `json:"ok"`
	Solver string `json:"solver,omitempty"`
	Ms     int64  `json:"ms"`
	Detail string `json:"detail,omitempty"`
	Query  string `json:"query,omitempty"`
}

type UnitResult struct {
	Name        string            `json:"name"`
	Kind        string            `json:"kind"`
	Target      string            `json:"target"`
	Props       []string          `json:"props"`
	OK          bool              `json:"ok"`
	Error       string            `json:"error,omitempty"`
	Obls        int               `json:"obligations"`
	ByKind      map[string]int    `json:"by_kind"`
	BySolver    map[string]int    `json:"by_solver"`
	Failed      []OblResult       `json:"failed"`
	Notes       []string          `json:"notes"`
	Assumptions []string          `json:"assumptions"`
	Inlined     []string          `json:"inlined"`
	Models      []string          `json:"models"`
	Uses        []string          `json:"uses"`
	Axioms      []string          `json:"axioms"`
	Lemmas      []string          `json:"lemmas"`
	SolverMs    map[string]int64  `json:"solver_ms"`
	Ms          int64             `json:"ms"`
	Exits       int               `json:"exits"`
	UnusedInv   []string          `json:"unused_inv"`
	Modes       map[string]string `json:"modes"`
	Sample      []OblResult       `json:"sample"`

	Kept map[string][]string `json:"kept,omitempty"`
}

var usedAxioms = map[string]string{}

func setModes(m map[string]string) {
	floatMode, floatSort, intSort = "real", SReal, SInt
	mulOpaque = m["mul"] == "opaque"
	switch m["float"] {
	case "", "real":
	case "rnd":
		floatMode = "rnd"
	case "ieee":
		floatMode, floatSort = "ieee", SFlt
	case "fp":
		floatMode, floatSort = "fp", SFP
	}
	if m["int"] == "bv" {
		intSort = SBV
	}
}

// compileAxioms turns the axiom and lemma declarations into quantified facts.
func (w *World) compileAxioms(modes map[string]string, notes map[string]bool) {
	axioms = nil
	for i, d := range w.spec.Decls {
		if d.Kind != "axiom" && d.Kind != "lemma" {
			continue
		}
		if !modesMatch(d.Modes, modes) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok && len(modes) > 0 {
						notes["declaration "+d.Name+" does not apply in this mode: "+s.msg] = true
						return
					}
					if s, ok := r.(toolLimit); ok && len(modes) > 0 {
						notes["declaration "+d.Name+" does not apply in this mode: "+s.msg] = true
						return
					}
					panic(r)
				}
			}()
			a := &Axiom{Name: d.Name, Kind: d.Kind, Order: i, Manual: d.Manual, File: posFile(d.Pos)}
			sc := &Scope{u: w.specUnit()}
			sc.st, sc.old = sc.u.entry, sc.u.entry
			a.Bound, sc.names = w.declParams(d)
			a.Body = sc.Bool(d.Body)
			for _, mp := range d.Trig {
				var ts []*Term
				for _, e := range mp {
					ts = append(ts, sc.Eval(e).L...)
				}
				a.Trigs = append(a.Trigs, ts)
			}
			if len(a.Trigs) == 0 {
				a.Trigs = patterns(quant{bound: a.Bound, body: a.Body})
			}
			if len(a.Bound) == 0 {
				a.Trigs = [][]*Term{{}}
			}
			axioms = append(axioms, a)
		}()
	}
}

func posFile(p string) string {
	if i := strings.IndexByte(p, ':'); i >= 0 {
		return p[:i]
	}
	return p
}

func modesMatch(need, have map[string]string) bool {
	for k, v := range need {
		h := have[k]
		if h == "" {
			h = map[string]string{"float": "real", "int": "math"}[k]
		}
		if h != v {
			return false
		}
	}
	return true
}

func recoverTo(r *UnitResult) {
	if e := recover(); e != nil {
		switch x := e.(type) {
		case specErr:
			r.Error = "contract: " + x.msg
		case toolLimit:
			r.Error = "outside the verifier's reach: " + x.msg
		default:
			r.Error = fmt.Sprintf("internal: %v", e)
			if os.Getenv("GOVC_DEBUG") != "" {
				r.Error += "\n" + string(debug.Stack())
			}
		}
	}
}

func (w *World) verifyContract(c *Contract) (res *UnitResult) {
	t0 := time.Now()
	res = &UnitResult{Name: w.describe(c), Kind: "contract", Target: c.Target, Props: c.Props, ByKind: map[string]int{}, BySolver: map[string]int{}, Modes: c.Modes, SolverMs: map[string]int64{}}
	var u *Unit
	defer func() {
		res.Ms = time.Since(t0).Milliseconds()
		for k, d := range solverTime {
			res.SolverMs[k] = d.Milliseconds()
		}
		if u != nil {
			res.Notes = sortedKeys(u.notes)
			res.Assumptions = sortedKeys(u.assumptions)
			res.Inlined = sortedKeys(u.inlined)
			res.Models = sortedKeys(u.models)
			res.Uses = sortedKeys(u.usedContracts)
		}
		for n, k := range usedAxioms {
			if k == "axiom" {
				res.Axioms = append(res.Axioms, n)
			} else {
				res.Lemmas = append(res.Lemmas, n)
			}
		}
		sort.Strings(res.Axioms)
		sort.Strings(res.Lemmas)
		res.OK = res.Error == "" && len(res.Failed) == 0
	}()
	if e, ok := w.unresolved[c]; ok {
		res.Error = "missing target: " + e
		return
	}
	defer recoverTo(res)
	fn, _ := w.resolveFunc(c.Target)
	setModes(c.Modes)
	symEpoch = 1
	u = newUnit(w, c, fn)
	w.su = nil
	u.deadline = t0.Add(time.Duration(300) * time.Second)
	u.hints = w.hints[res.Name]
	for _, n := range c.UseLemmas {
		if d := w.spec.DeclByName[n]; d == nil || d.Kind != "lemma" {
			panic(specErr{c.Pos + ": no lemma " + n})
		}
		wantLemmas[n] = true
	}
	for _, n := range c.Seal {
		sealed[n] = true
	}
	if c.Timeout > 0 {
		u.deadline = t0.Add(time.Duration(c.Timeout) * time.Second)
	}
	w.compileAxioms(c.Modes, u.notes)
	outs := u.symbolic()
	if len(outs) == 0 {
		u.obls = append(u.obls, &Obligation{Kind: "vacuity", Label: "the function returns on some path", Status: "failed", Detail: "no path reaches a return"})
	}
	res.Exits = len(outs)
	u.discharge(res)
	if os.Getenv("GOVC_KEPT") != "" {
		res.Kept = map[string][]string{}
		for k, m := range u.kept {
			res.Kept[k] = sortedKeys(m)
		}
	}
	for h := range c.Hooks {
		hk := &c.Hooks[h]
		must := false
		for _, a := range hk.Acts {
			if a.Kind == "assert" {
				must = true
			}
		}
		if must && u.hookHits[hk.Pos] == 0 {
			u.notes["hook "+hk.Pos+" (on "+hk.Event+" "+hk.Target+") is never reached"] = true
		}
	}
	for i := range c.Invs {
		if !u.invHit[&c.Invs[i]] {
			res.UnusedInv = append(res.UnusedInv, c.Invs[i].Pos)
		}
	}
	return
}

// symbolic runs the function and collects obligations.
func (u *Unit) symbolic() []callRes {
	c, fn := u.c, u.fn
	st := &State{heap: map[string]*Term{}, aBase: u.a0}
	var args []Val
	if len(c.Params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s: %d parameters named, function has %d", c.Pos, len(c.Params), len(fn.Params))})
	}
	st0 := &State{heap: map[string]*Term{}, aBase: u.a0}
	for i, p := range fn.Params {
		n := c.Params[i]
		t := p.Type()
		var v Val
		if sg, ok := t.Underlying().(*types.Signature); ok {
			v = u.funcVal(&FuncVal{Spec: n, Sig: sg}, t)
			if oc := c.Opaque[n]; oc != nil {
				u.opaque[n] = oc
			}
		} else {
			v = freshVal(u, st0, n, t)
			switch t := t.Underlying().(type) {
			case *types.Basic:
				if t.Kind() == types.Int && intSort == SInt {
					u.entryFacts = append(u.entryFacts, Le(IntBig(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))), v.L[0]), Lt(v.L[0], IntBig(new(big.Int).Lsh(big.NewInt(1), 63))))
				}
			case *types.Pointer, *types.Interface, *types.Chan:
				if !c.MayNil[n] {
					u.entryFacts = append(u.entryFacts, Le(IntL(1), v.L[0]))
				}
			}
		}
		args = append(args, v)
		u.params[n] = v
		u.scopeNames[n] = v
	}
	var applied []Val
	if c.HasApply {
		sg, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
		if !ok || sg.Params().Len() != len(c.Apply) {
			panic(specErr{c.Pos + ": apply needs a function result with as many parameters"})
		}
		for i, n := range c.Apply {
			t := sg.Params().At(i).Type()
			v := freshVal(u, st0, n, t)
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Chan:
				u.entryFacts = append(u.entryFacts, Le(IntL(1), v.L[0]))
			}
			applied = append(applied, v)
			u.params[n] = v
			u.scopeNames[n] = v
		}
	}
	u.entry = st
	for _, g := range c.Given {
		so := u.w.specSort(g.Type)
		if so == "" {
			panic(specErr{c.Pos + ": given type " + g.Type})
		}
		u.scopeNames[g.Name] = u.w.specVal(g.Type, Symb("given."+g.Name, so))
	}
	for _, g := range c.Ghosts {
		u.ghostType[g.Name] = g.Type
	}
	sc := u.scope(st)
	for _, g := range c.Ghosts {
		so := u.w.specSort(g.Type)
		if so == "" {
			panic(specErr{c.Pos + ": ghost type " + g.Type})
		}
		if g.Init != nil {
			v := sc.Eval(g.Init)
			x := v.term()
			if x.Sort != so {
				y, _ := sc.unify(v, Val{L: []*Term{Symb("dummy."+so, so)}})
				x = y.term()
			}
			st.set(u, "GV:"+g.Name, x)
		} else {
			u.initSym("GV:"+g.Name, so)
		}
	}
	if u.lending() {
		st.set(u, "G:lent", ConstArr(ArrSort(SInt, SBool), False))
	}
	u.entry = st.clone()
	for _, l := range c.Lets {
		sc = u.scope(u.entry)
		v := sc.Eval(l.E)
		u.lets[l.Name] = v
		u.scopeNames[l.Name] = v
	}
	if c.Refines != "" {
		u.refineRequires(st)
	}
	sc = u.scope(u.entry)
	for _, r := range c.Requires {
		t := sc.Bool(r.E)
		st.assume(t)
		u.entryFacts = append(u.entryFacts, flatten(t)...)
	}
	st.pc = nil
	st.own = false
	// contradictory preconditions make everything true
	pre := proveLater(u.collectFacts(st, True2), False, 2000, 2000)
	u.late = append(u.late, func() *Obligation {
		if pre() {
			return &Obligation{Kind: "vacuity", Label: "preconditions are satisfiable", Status: "failed"}
		}
		return nil
	})
	u.emit = true
	outs := u.runFunction(fn, nil, args, st, fn.Pos())
	if c.HasApply {
		var after []callRes
		for _, o := range outs {
			fv := u.lookupFunc(u.resolve(o.st, o.vals[0]))
			if fv == nil || fv.Fn == nil {
				panic(limit("the returned function is not known"))
			}
			after = append(after, u.callFn(fv.Fn, fv.Binds, applied, o.st, fn.Pos())...)
		}
		outs = after
	}
	var exits []func() bool
	for k, o := range outs {
		sc := u.scope(o.st)
		sc.its, sc.ent = nil, nil
		for i, n := range c.Results {
			if i < len(o.vals) {
				sc.names[n] = o.vals[i]
			}
		}
		for _, e := range c.Ensures {
			u.obligeAt(o.st, "post", e.Label, e.Pos, sc.Bool(e.E))
		}
		if c.Refines != "" {
			u.refineEnsures(o)
		}
		u.frameCheck(o.st)
		if k == 0 {
			exits = append(exits, proveLater(u.collectFacts(o.st, True2), False, 1000, 1500))
		} else if k < 12 {
			st := o.st
			exits = append(exits, func() bool { return Prove(u.collectFacts(st, True2), False, 1000, 1500).OK })
		}
	}
	u.late = append(u.late, func() *Obligation {
		for _, unreachable := range exits {
			if !unreachable() {
				return nil
			}
		}
		if len(exits) == 0 {
			return nil
		}
		return &Obligation{Kind: "vacuity", Label: "some return is reachable", Status: "failed"}
	})
	return outs
}

var True2 = Eq(Symb("one", SInt), Symb("one", SInt))

func (u *Unit) obligeAt(st *State, kind, label, pos string, goal *Term) {
	s := st.clone()
	u.oblige(s, kind, label, pos, goal)
}

func (u *Unit) ifaceContract() *Contract {
	ic := u.w.ifaces[u.w.ifaceKey(u.c.Refines)]
	if ic == nil {
		panic(specErr{u.c.Pos + ": unknown interface contract " + u.c.Refines})
	}
	return ic
}

// ifaceScope binds the names of the refined interface contract to this unit's parameters.
func (u *Unit) ifaceScope(ic *Contract, st *State) *Scope {
	sc := &Scope{u: u, st: st, old: u.entry, names: map[string]Val{}}
	for i, n := range ic.Params {
		v := u.params[u.c.Params[i]]
		if i == 0 {
			rt := u.fn.Params[0].Type()
			if p := u.w.typesPkg(strings.Split(ic.Target, ".")[0]); p != nil {
				it := p.Scope().Lookup(strings.Split(ic.Target, ".")[1]).Type()
				v = u.box(st, v, rt, it)
			}
		}
		sc.names[n] = v
	}
	for _, g := range ic.Given {
		sc.names[g.Name] = u.w.specVal(g.Type, Symb("given."+g.Name, u.w.specSort(g.Type)))
	}
	for _, l := range ic.Lets {
		e := sc.with(u.entry)
		sc.names[l.Name] = e.Eval(l.E)
	}
	return sc
}

// refineRequires: whatever the interface contract admits, this contract admits.
func (u *Unit) refineRequires(st *State) {
	ic := u.ifaceContract()
	sc := u.ifaceScope(ic, u.entry)
	own := u.scope(u.entry)
	saved := u.entryFacts
	u.entryFacts = append([]*Term{}, saved...)
	for _, r := range ic.Requires {
		u.entryFacts = append(u.entryFacts, flatten(sc.Bool(r.E))...)
	}
	em := u.emit
	u.emit = true
	for _, r := range u.c.Requires {
		u.obligeAt(st, "pre", "refines "+ic.Target+": "+r.Label, r.Pos, own.Bool(r.E))
	}
	u.emit = em
	u.entryFacts = saved
}

func (u *Unit) refineEnsures(o callRes) {
	ic := u.ifaceContract()
	sc := u.ifaceScope(ic, o.st)
	for i, n := range ic.Results {
		if i < len(o.vals) {
			sc.names[n] = o.vals[i]
		}
	}
	for _, e := range ic.Ensures {
		u.obligeAt(o.st, "post", "refines "+ic.Target+": "+e.Label, e.Pos, sc.Bool(e.E))
	}
}

func flatten(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

type allowed struct {
	ref    *Term
	whole  bool
	lo, hi *Term
}

var frameSkip = []string{"GV:", "G:seen", "G:dom0", "G:itcnt", "G:chn", "G:lent", "G:chclosed", "G:sc", "G:rpos", "GS:flag", "G:wdst", "G:wbase", "G:wpend", "G:wbad", "G:fname"}

func (u *Unit) frameCheck(st *State) {
	sc := u.scope(u.entry)
	sc.its, sc.ent = nil, nil
	u.frameCheckFor(st, u.c, sc)
	if u.c.Refines != "" {
		ic := u.ifaceContract()
		u.frameCheckFor(st, ic, u.ifaceScope(ic, u.entry))
	}
}

func (u *Unit) frameCheckFor(st *State, c *Contract, sc *Scope) {
	if c.ModAny {
		return
	}
	al := map[string][]allowed{}
	var heapAny []string
	for _, lv := range c.Modifies {
		switch lv.Op {
		case "all", "allrow":
			v := sc.Eval(lv.Args[0])
			switch t := v.T.Underlying().(type) {
			case *types.Slice:
				for _, l := range layout(t.Elem()) {
					a := allowed{ref: v.L[0], whole: lv.Op == "allrow", lo: v.L[1], hi: Add(v.L[1], v.L[2])}
					k := "E:" + typeKey(t.Elem()) + l.Path
					al[k] = append(al[k], a)
				}
			case *types.Map:
				m, k := mapKeys(v.T)
				for _, key := range []string{"MD:" + k, "ML:" + k} {
					al[key] = append(al[key], allowed{ref: v.term(), whole: true})
				}
				for _, l := range layout(m.Elem()) {
					al["MV:"+k+l.Path] = append(al["MV:"+k+l.Path], allowed{ref: v.term(), whole: true})
				}
			}
		case "call":
			if lv.S == "g" {
				al["G:"+lv.Args[0].S] = append(al["G:"+lv.Args[0].S], allowed{ref: identOf(sc.Eval(lv.Args[2])), whole: true})
			} else if lv.S == "heap" {
				heapAny = append(heapAny, lv.Args[0].S)
			}
		default:
			p := u.lvalPtr(sc, lv)
			for _, l := range layout(p.T) {
				a := allowed{ref: p.Base, whole: true}
				if p.Idx != nil {
					a = allowed{ref: p.Base, lo: p.Idx, hi: Add(p.Idx, IntL(1))}
				}
				al[p.Pre+l.Path] = append(al[p.Pre+l.Path], a)
			}
		}
	}
keys:
	for _, key := range sortedKeys(st.heap) {
		for _, s := range frameSkip {
			if strings.HasPrefix(key, s) {
				continue keys
			}
		}
		for _, s := range heapAny {
			if strings.HasPrefix(key, s) {
				continue keys
			}
		}
		cur := st.heap[key]
		ini := u.entry.get(u, key, cur.Sort)
		if cur == ini {
			continue
		}
		as := al[key]
		var goals []*Term
		if strings.HasPrefix(key, "V:") || !strings.HasPrefix(cur.Sort, "(Array") {
			if len(as) > 0 {
				continue
			}
			goals = append(goals, Eq(cur, ini))
		} else if ks, vs := arrParts(cur.Sort); ks != SInt {
			if len(as) > 0 || strings.HasPrefix(key, "GS:exists") {
				continue
			}
			goals = append(goals, Eq(cur, ini))
		} else {
			r := Symb("fr.r", SInt)
			cs := []*Term{Le(IntL(0), r), Lt(r, u.a0)}
			if strings.HasPrefix(key, "F:") || strings.HasPrefix(key, "E:") || strings.HasPrefix(key, "M") || strings.HasPrefix(key, "C:") {
				cs[0] = Le(IntL(1), r)
			}
			for _, a := range as {
				cs = append(cs, Not(Eq(r, a.ref)))
			}
			goals = append(goals, Forall([]*Term{r}, Imp(And(cs...), Eq(Select(cur, r), Select(ini, r)))))
			// partially writable rows
			for i, a := range as {
				if a.whole {
					continue
				}
				j := Symb("fr.j", SInt)
				var in []*Term
				whole := False
				for k, b := range as {
					same := Eq(a.ref, b.ref)
					if k == i {
						same = True
					}
					if b.whole {
						whole = Or(whole, same)
						continue
					}
					in = append(in, And(same, Le(b.lo, j), Lt(j, b.hi)))
				}
				_ = vs
				goals = append(goals, Or(whole, Forall([]*Term{j}, Imp(And(Lt(a.ref, u.a0), Le(IntL(1), a.ref), Not(Or(in...))), Eq(Select(Select(cur, a.ref), j), Select(Select(ini, a.ref), j))))))
			}
		}
		u.obligeAt(st, "frame", "only "+strings.TrimPrefix(key, "H0:")+" locations named in modifies change", u.c.Pos, And(goals...))
	}
}

// splitGoal breaks a goal into independently provable parts.
func splitGoal(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		rs := splitGoal(g.Args[1])
		if len(rs) > 1 {
			var out []*Term
			for _, r := range rs {
				out = append(out, Imp(g.Args[0], r))
			}
			return out
		}
	case "forall":
		rs := splitGoal(g.Args[0])
		if len(rs) > 1 {
			var out []*Term
			for _, r := range rs {
				out = append(out, Forall(g.Bound, r))
			}
			return out
		}
	case "=":
		if g.Args[0].Sort == SBool && g.HasQ {
			a, b := g.Args[0], g.Args[1]
			return []*Term{Imp(a, b), Imp(b, a)}
		}
	}
	return []*Term{g}
}

func (u *Unit) discharge(res *UnitResult) {
	dischargeAll(u.obls, res, u.c.Timeout, u.late)
}

func dischargeAll(obls []*Obligation, res *UnitResult, timeout int, late []func() *Obligation) {
	qf, q := 6000, 10000
	if v := os.Getenv("GOVC_MS"); v != "" {
		fmt.Sscan(v, &q)
	}
	type task struct {
		o *Obligation
		g *Term
		j *job
		r Result
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 24)
	seen := map[string]*task{}
	var tasks []*task
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		parts := splitGoal(o.goal)
		for _, g := range parts {
			if g == True {
				continue
			}
			triv := false
			for _, f := range o.facts {
				if f == g {
					triv = true
				}
			}
			if triv {
				continue
			}
			var kb strings.Builder
			fmt.Fprintf(&kb, "%d:", g.ID)
			for _, f := range o.facts {
				fmt.Fprintf(&kb, "%d,", f.ID)
			}
			if _, ok := seen[kb.String()]; ok {
				continue
			}
			t := &task{o: o, g: g}
			seen[kb.String()] = t
			tasks = append(tasks, t)
			t.j = prepare(o.facts, g)
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := t.j.solve(qf, q, false)
				if debugTime && r.Dur > 700*time.Millisecond {
					if d := os.Getenv("GOVC_DUMP"); d != "" {
						n := fmt.Sprintf("slow_%s_%s_%d", o.Kind, o.Label, t.g.ID)
						dumpQuery(d, n+"_qf", t.j.qfText)
						dumpQuery(d, n+"_q", t.j.qText)
						dumpQuery(d, n+"_abqf", t.j.abQF)
						dumpQuery(d, n+"_abq", t.j.abQ)
						dumpQuery(d, n+"_raw", t.j.rawText)
					}
					fmt.Fprintf(os.Stderr, "  slow obl %v %d ms %s %s %s %s\n", r.OK, r.Dur.Milliseconds(), r.Solver, o.Kind, o.Label, o.Pos)
				}
				mu.Lock()
				t.r = r
				mu.Unlock()
				<-sem
			}()
		}
	}
	wg.Wait()
	// second chance, one at a time, with longer limits
	tRetry := time.Now()
	for _, t := range tasks {
		if !t.r.OK && !t.r.Sat && time.Since(tRetry) < 50*time.Second {
			r := t.j.solve(qf*2, q*3, true)
			if r.OK {
				t.r = r
			}
		}
	}
	for _, f := range late {
		if o := f(); o != nil {
			obls = append(obls, o)
		}
	}
	bad := map[*Obligation]*task{}
	solv := map[*Obligation]string{}
	ms := map[*Obligation]int64{}
	for _, t := range tasks {
		ms[t.o] += t.r.Dur.Milliseconds()
		if !t.r.OK && bad[t.o] == nil {
			bad[t.o] = t
		}
		if t.r.OK {
			solv[t.o] = t.r.Solver
		}
	}
	for _, o := range obls {
		res.Obls++
		res.ByKind[o.Kind]++
		r := OblResult{Kind: o.Kind, Label: o.Label, Pos: o.Pos, Fn: strings.ReplaceAll(o.Fn, modPath+"/", ""), OK: true, Solver: solv[o], Ms: ms[o]}
		if o.Status == "failed" {
			r.OK = false
			r.Detail = o.Detail
		}
		if t := bad[o]; t != nil {
			r.OK = false
			r.Detail = "not proved"
			if t.r.Sat {
				r.Detail = "refuted"
			}
			g := t.g.String()
			if len(g) > 1500 {
				g = g[:1500] + "..."
			}
			r.Detail += ": " + g
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				r.Query = dumpQuery(d, fmt.Sprintf("%s_%s_%d", o.Kind, o.Label, len(res.Failed)), t.r.Text)
			}
		}
		if r.OK {
			s := r.Solver
			if s == "" {
				s = "simplifier"
			}
			r.Solver = s
			res.BySolver[s]++
			if len(res.Sample) < 40 && (o.Kind == "post" || o.Kind == "assert" || o.Kind == "inv-step") {
				res.Sample = append(res.Sample, r)
			}
		} else {
			res.Failed = append(res.Failed, r)
		}
	}
}

// ---- lemmas ----

// lemmaInstance is the body of an earlier lemma or axiom at the given arguments.
func (w *World) lemmaInstance(sc *Scope, h *Expr, limit int) *Term {
	if h.Op != "call" {
		return nil
	}
	for i, x := range w.spec.Decls {
		if x.Name != h.S || i > limit || (x.Kind != "axiom" && x.Kind != "lemma") {
			continue
		}
		if len(x.Params) != len(h.Args) {
			sc.err(h, "%s needs %d arguments", h.S, len(x.Params))
		}
		c := *sc
		c.names = map[string]Val{}
		for k, p := range x.Params {
			ts := sc.flattenArg(h, p.Type, sc.Eval(h.Args[k]))
			c.names[p.Name] = w.specVal(p.Type, ts[0])
			if len(ts) > 1 {
				c.names[p.Name] = sc.Eval(h.Args[k])
			}
		}
		usedAxioms[x.Name] = x.Kind
		return c.Bool(x.Body)
	}
	return nil
}

func (w *World) verifyLemma(d *RecDecl) (res *UnitResult) {
	t0 := time.Now()
	res = &UnitResult{Name: "lemma " + d.Name, Kind: "lemma", Target: d.Name, Props: d.Props, ByKind: map[string]int{}, BySolver: map[string]int{}, Modes: d.Modes, SolverMs: map[string]int64{}}
	defer func() {
		res.Ms = time.Since(t0).Milliseconds()
		for k, d := range solverTime {
			res.SolverMs[k] = d.Milliseconds()
		}
		for n, k := range usedAxioms {
			if k == "axiom" {
				res.Axioms = append(res.Axioms, n)
			} else if n != d.Name {
				res.Lemmas = append(res.Lemmas, n)
			}
		}
		sort.Strings(res.Axioms)
		sort.Strings(res.Lemmas)
		res.OK = res.Error == "" && len(res.Failed) == 0
	}()
	defer recoverTo(res)
	setModes(d.Modes)
	symEpoch = 1
	notes := map[string]bool{}
	w.compileAxioms(d.Modes, notes)
	lemmaFile = posFile(d.Pos)
	for i, x := range w.spec.Decls {
		if x == d {
			axiomLimit = i - 1
		}
	}
	u := w.specUnit()
	sc := &Scope{u: u, st: u.entry, old: u.entry}
	var ps []*Term
	ps, sc.names = w.declParams(d)
	body := sc.Bool(d.Body)
	hintFact := func(m map[*Term]*Term) []*Term {
		var out []*Term
		for _, h := range d.Hints {
			if f := w.lemmaInstance(sc, h, axiomLimit); f != nil {
				out = append(out, Subst(f, m))
				continue
			}
			v := sc.Eval(h)
			for _, t := range v.L {
				t = Subst(t, m)
				if t.Sort == SBool {
					out = append(out, Or(t, App("not", SBool, t)))
					out = append(out, App("=", SBool, App("@hint:Bool", SInt, t), App("@hint:Bool", SInt, t)))
					continue
				}
				out = append(out, App("=", SBool, App("@hint:"+sanitize(t.Sort), SInt, t), App("@hint:"+sanitize(t.Sort), SInt, t)))
			}
		}
		return out
	}
	sk := map[*Term]*Term{}
	for _, p := range ps {
		sk[p] = Fresh("k", p.Sort)
	}
	var obls []*Obligation
	if d.Ind == "" {
		obls = append(obls, &Obligation{Kind: "lemma", Label: d.Name, Pos: d.Pos, facts: hintFact(sk), goal: Subst(body, sk)})
	} else {
		iv, ok := sc.names[d.Ind]
		if !ok {
			panic(specErr{d.Pos + ": no parameter " + d.Ind})
		}
		n := iv.term()
		from := IntL(0)
		if d.IndFrom != nil {
			from = sc.Eval(d.IndFrom).term()
		}
		// base: n <= from
		m0 := map[*Term]*Term{}
		for k, v := range sk {
			m0[k] = v
		}
		fs := append(hintFact(m0), Le(Subst(n, m0), Subst(from, m0)))
		obls = append(obls, &Obligation{Kind: "lemma", Label: d.Name + " (base)", Pos: d.Pos, facts: fs, goal: Subst(body, m0)})
		// step
		nk := sk[n]
		var others []*Term
		ih := Subst(body, map[*Term]*Term{n: Sub(nk, IntL(1))})
		for _, p := range ps {
			if p != n {
				others = append(others, p)
			}
		}
		ihq := Forall(others, ih)
		inst := Subst(ih, sk)
		fs = append(hintFact(sk), Lt(Subst(from, sk), nk), inst, ihq)
		m1 := map[*Term]*Term{}
		for k, v := range sk {
			m1[k] = v
		}
		m1[n] = Sub(nk, IntL(1))
		fs = append(fs, hintFact(m1)...)
		obls = append(obls, &Obligation{Kind: "lemma", Label: d.Name + " (step)", Pos: d.Pos, facts: fs, goal: Subst(body, sk)})
	}
	dischargeAll(obls, res, 0, nil)
	return
}

var _ = ssa.BuilderMode(0)

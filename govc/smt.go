package main

// Query construction and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- background theory: recursive functions, axioms, lemmas ----

type RecDef struct {
	Name   string // UF op name (with @)
	Params []*Term
	Body   *Term
}

var recDefs = map[string]*RecDef{}

// Axiom is a quantified fact available to every query that mentions its trigger symbols.
type Axiom struct {
	Name   string
	Bound  []*Term
	Body   *Term
	Trigs  [][]*Term // alternatives; each a multi-pattern
	Kind   string    // "axiom" (trusted) or "lemma" (proved)
	Order  int
	Manual bool
	File   string
}

// wantLemmas are the manual lemmas a contract names; in a lemma, those of the
// file named by lemmaFile are available.
var (
	wantLemmas = map[string]bool{}
	lemmaFile  string
)

var axioms []*Axiom

func ufsOf(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if strings.HasPrefix(t.Op, "@") {
		out[t.Op] = true
	}
	for _, a := range t.Args {
		ufsOf(a, out, seen)
	}
}

// ---- preprocessing ----

type quant struct {
	bound []*Term
	body  *Term
	trigs [][]*Term
}

type prep struct {
	ground []*Term
	seenG  map[*Term]bool
	qs     []quant
	seenQ  map[*Term]bool
	skn    int
}

func (p *prep) addHyp(t *Term) {
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			p.addHyp(a)
		}
		return
	case "true":
		return
	}
	if !t.HasQ {
		if !p.seenG[t] {
			p.seenG[t] = true
			p.ground = append(p.ground, t)
		}
		return
	}
	if p.seenQ[t] {
		return
	}
	p.seenQ[t] = true
	t = p.pull(t, true, nil)
	if t.Op == "and" {
		for _, a := range t.Args {
			p.addHyp(a)
		}
		return
	}
	if !t.HasQ {
		p.addHyp(t)
		return
	}
	if t.Op == "forall" {
		p.qs = append(p.qs, quant{bound: t.Bound, body: t.Args[0]})
		return
	}
	// leave as is (solver handles it)
	p.qs = append(p.qs, quant{body: t})
}

// pull skolemizes existentials of positive polarity not under a universal
// and moves universals outwards. under is the list of enclosing universals.
func (p *prep) pull(t *Term, pos bool, under []*Term) *Term {
	if !t.HasQ {
		return t
	}
	switch t.Op {
	case "not":
		a := p.pull(t.Args[0], !pos, under)
		if pos {
			return negate(a)
		}
		return Not(a)
	case "and", "or":
		args := make([]*Term, len(t.Args))
		var bs []*Term
		for i, a := range t.Args {
			args[i] = p.pull(a, pos, under)
			if t.Op == "or" && pos && args[i].Op == "forall" {
				f := freshen(args[i], bs)
				bs = append(bs, f.Bound...)
				args[i] = f.Args[0]
			}
		}
		if t.Op == "and" {
			return And(args...)
		}
		return Forall(bs, Or(args...))
	case "=>":
		if pos {
			a := p.pull(Not(t.Args[0]), true, under)
			b := p.pull(t.Args[1], true, under)
			var bs []*Term
			if a.Op == "forall" {
				bs = append(bs, a.Bound...)
				a = a.Args[0]
			}
			if b.Op == "forall" {
				b = freshen(b, bs)
				bs = append(bs, b.Bound...)
				b = b.Args[0]
			}
			return Forall(bs, Or(a, b))
		}
		return Imp(p.pull(t.Args[0], !pos, under), p.pull(t.Args[1], pos, under))
	case "forall":
		if pos {
			body := p.pull(t.Args[0], pos, append(under, t.Bound...))
			return Forall(t.Bound, body)
		}
		if len(under) == 0 {
			m := map[*Term]*Term{}
			for _, b := range t.Bound {
				m[b] = Fresh("sk", b.Sort)
			}
			return p.pull(Subst(t.Args[0], m), pos, under)
		}
		return t
	case "exists":
		if pos && len(under) == 0 {
			m := map[*Term]*Term{}
			for _, b := range t.Bound {
				m[b] = Fresh("sk", b.Sort)
			}
			return p.pull(Subst(t.Args[0], m), pos, under)
		}
		if !pos {
			// not exists == forall not ; keep exists node, caller (not) converts
			return Exists(t.Bound, p.pull(t.Args[0], pos, append(under, t.Bound...)))
		}
		return t
	case "ite":
		if t.Sort == SBool && pos {
			return p.pull(And(Imp(t.Args[0], t.Args[1]), Imp(Not(t.Args[0]), t.Args[2])), pos, under)
		}
	case "=":
		if t.Args[0].Sort == SBool {
			a, b := t.Args[0], t.Args[1]
			if pos {
				return p.pull(And(Imp(a, b), Imp(b, a)), pos, under)
			}
			return p.pull(Or(And(a, b), And(Not(a), Not(b))), pos, under)
		}
	}
	return t
}

// negate pushes a negation through the connectives that hide a conjunction
// or a universal.
func negate(a *Term) *Term {
	if !a.HasQ {
		return Not(a)
	}
	switch a.Op {
	case "exists":
		return Forall(a.Bound, Not(a.Args[0]))
	case "=>":
		return And(a.Args[0], negate(a.Args[1]))
	case "or":
		out := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			out[i] = negate(x)
		}
		return And(out...)
	}
	return Not(a)
}

// freshen renames the bound variables of a universal that occur in used or
// would clash with one another when several universals are joined.
func freshen(f *Term, used []*Term) *Term {
	m := map[*Term]*Term{}
	for _, b := range f.Bound {
		for _, o := range used {
			if o == b {
				m[b] = Fresh("bv", b.Sort)
			}
		}
	}
	if len(m) == 0 {
		return f
	}
	var nb []*Term
	for _, b := range f.Bound {
		if x, ok := m[b]; ok {
			nb = append(nb, x)
		} else {
			nb = append(nb, b)
		}
	}
	return cons("forall", SBool, nil, nb, false, Subst(f.Args[0], m))
}

// ---- matching ----

type termIndex struct {
	selByArr  map[Sort][]*Term // ground selects by array sort
	byOp      map[string][]*Term
	seen      map[*Term]bool
	arrsOfSel map[*Term]bool
}

func newIndex() *termIndex {
	return &termIndex{selByArr: map[Sort][]*Term{}, byOp: map[string][]*Term{}, seen: map[*Term]bool{}}
}
func (ix *termIndex) add(t *Term) {
	if ix.seen[t] || t.Op == "forall" || t.Op == "exists" {
		return
	}
	ix.seen[t] = true
	for _, a := range t.Args {
		ix.add(a)
	}
	switch {
	case t.Op == "select":
		ix.selByArr[t.Args[0].Sort] = append(ix.selByArr[t.Args[0].Sort], t)
	case t.Op == "store":
		// a store location is also an interesting index
		s := App("select", t.Args[2].Sort, t.Args[0], t.Args[1])
		if !ix.seen[s] {
			ix.seen[s] = true
			ix.selByArr[t.Args[0].Sort] = append(ix.selByArr[t.Args[0].Sort], s)
		}
	case strings.HasPrefix(t.Op, "@"):
		ix.byOp[t.Op] = append(ix.byOp[t.Op], t)
	case t.Op == "*" && len(t.Args) >= 2 && !t.Args[0].isLit():
		ix.byOp["*"] = append(ix.byOp["*"], t)
	case t.Op == "mod" || t.Op == "div":
		ix.byOp[t.Op] = append(ix.byOp[t.Op], t)
	}
}

func arrRoot(a *Term) *Term {
	for {
		switch a.Op {
		case "store":
			a = a.Args[0]
		case "ite":
			a = a.Args[1]
		case "select":
			return a
		default:
			return a
		}
	}
}

// matchTerm extends binding m so that pattern p equals ground term g.
func matchTerm(p, g *Term, bound map[*Term]bool, m map[*Term]*Term) bool {
	if bound[p] {
		if o, ok := m[p]; ok {
			return o == g
		}
		if p.Sort != g.Sort {
			return false
		}
		m[p] = g
		return true
	}
	if p == g {
		return true
	}
	if p.Sort != g.Sort {
		return false
	}
	fv := FV(p)
	n := 0
	var bv *Term
	for b := range bound {
		if fv[b] {
			if _, ok := m[b]; !ok {
				n++
				bv = b
			}
		}
	}
	if n == 0 {
		return Subst(p, m) == g
	}
	if p.Op == "+" || (p.Op == "*" && p.Args[0].isLit()) {
		// linear pattern with a single unbound variable of coefficient +-1
		if n != 1 {
			return false
		}
		q := Subst(p, m)
		l := toLin(q)
		c, ok := l.m[bv]
		if !ok {
			return false
		}
		delete(l.m, bv)
		rest := l.term()
		if FV(rest)[bv] {
			return false
		}
		if c.IsInt() && c.Num().IsInt64() && (c.Num().Int64() == 1 || c.Num().Int64() == -1) {
			v := Sub(g, rest)
			if c.Sign() < 0 {
				v = Neg(v)
			}
			m[bv] = v
			return true
		}
		return false
	}
	if p.Op != g.Op || len(p.Args) != len(g.Args) || len(p.Args) == 0 {
		return false
	}
	// bind simple arguments first
	for pass := 0; pass < 2; pass++ {
		for i := range p.Args {
			simple := bound[p.Args[i]] || p.Args[i].Op != "+"
			if simple != (pass == 0) {
				continue
			}
			if p.Op == "select" && i == 0 && !boundIn(p.Args[0], bound) {
				// array argument: equal roots are enough (ground array)
				continue
			}
			if !matchTerm(p.Args[i], g.Args[i], bound, m) {
				return false
			}
		}
	}
	return true
}
func boundIn(t *Term, bound map[*Term]bool) bool {
	fv := FV(t)
	for b := range bound {
		if fv[b] {
			return true
		}
	}
	return false
}

// patterns picks candidate trigger terms of a quantifier body.
func patterns(q quant) [][]*Term {
	if q.trigs != nil {
		return q.trigs
	}
	bs := map[*Term]bool{}
	for _, b := range q.bound {
		bs[b] = true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !boundIn(t, bs) {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return
		}
		if t.Op == "select" || strings.HasPrefix(t.Op, "@") {
			cands = append(cands, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(q.body)
	var out [][]*Term
	var partial []*Term
	for _, c := range cands {
		all := true
		for _, b := range q.bound {
			if !FV(c)[b] {
				all = false
			}
		}
		if all {
			out = append(out, []*Term{c})
		} else {
			partial = append(partial, c)
		}
	}
	if len(q.bound) == 2 {
		for _, a := range partial {
			for _, b := range partial {
				if FV(a)[q.bound[0]] && FV(b)[q.bound[1]] {
					out = append(out, []*Term{a, b})
					if len(out) > 12 {
						return out
					}
				}
			}
		}
	} else if len(q.bound) >= 3 && len(out) == 0 {
		// greedy multi-pattern
		need := map[*Term]bool{}
		for _, b := range q.bound {
			need[b] = true
		}
		var mp []*Term
		for _, c := range partial {
			use := false
			for b := range need {
				if FV(c)[b] {
					use = true
				}
			}
			if use {
				mp = append(mp, c)
				for b := range FV(c) {
					delete(need, b)
				}
			}
		}
		if len(need) == 0 {
			out = append(out, mp)
		}
	}
	return out
}

type instKey struct {
	body int
	v    [6]int
}

// instMemo caches instances: the same facts recur in every query of a unit.
var instMemo = map[instKey]*Term{}

func instantiate(q quant, pats [][]*Term, ix *termIndex, done map[*Term]bool, seen map[instKey]bool, limit int) []*Term {
	bs := map[*Term]bool{}
	for _, b := range q.bound {
		bs[b] = true
	}
	var out []*Term
	emit := func(m map[*Term]*Term) {
		for _, b := range q.bound {
			if m[b] == nil {
				return
			}
		}
		k := instKey{body: q.body.ID}
		if len(q.bound) <= 6 {
			for i, b := range q.bound {
				k.v[i] = m[b].ID
			}
			if seen[k] {
				return
			}
			seen[k] = true
		}
		t, ok := instMemo[k]
		if !ok || len(q.bound) > 6 {
			t = Subst(q.body, m)
			instMemo[k] = t
		}
		if t == True || done[t] {
			return
		}
		done[t] = true
		out = append(out, t)
	}
	for _, mp := range pats {
		binds := []map[*Term]*Term{{}}
		for _, pt := range mp {
			var pool []*Term
			if pt.Op == "select" {
				pool = ix.selByArr[pt.Args[0].Sort]
			} else {
				pool = ix.byOp[pt.Op]
			}
			var nb []map[*Term]*Term
			for _, m0 := range binds {
				for _, g := range pool {
					if pt.Op == "select" && !boundIn(pt.Args[0], bs) {
						// require compatible array roots where both are plain symbols
						if !rootsCompatible(pt.Args[0], g.Args[0]) {
							continue
						}
					}
					m := map[*Term]*Term{}
					for k, v := range m0 {
						m[k] = v
					}
					if matchTerm(pt, g, bs, m) {
						nb = append(nb, m)
						if len(nb) > 4*limit {
							break
						}
					}
				}
			}
			binds = nb
		}
		for _, m := range binds {
			emit(m)
			if len(out) > limit {
				return out
			}
		}
	}
	return out
}

// rootsCompatible tells whether two arrays may share contents: same base or
// unknown relation.  Different arrays may still be equal by hypothesis, so
// only sorts decide; but the same-root case is preferred when many exist.
func rootsCompatible(a, b *Term) bool { return true }

// ---- query text ----

type Query struct {
	text  string
	names map[string]string // original symbol -> printed
}

func buildQuery(ground []*Term, qs []quant, neg *Term, withQ bool, logic string) string {
	var sb strings.Builder
	all := append([]*Term{}, ground...)
	all = append(all, neg)
	var qt []*Term
	if withQ {
		for _, q := range qs {
			if len(q.bound) == 0 {
				qt = append(qt, q.body)
			} else {
				qt = append(qt, Forall(q.bound, q.body))
			}
		}
	}
	// symbols
	seen := map[*Term]bool{}
	var syms []*Term
	ufs := map[string]*Term{}
	var ufo []string
	sorts := map[string]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	sortSeen := map[Sort]bool{}
	addSort := func(s Sort) {
		if sortSeen[s] {
			return
		}
		sortSeen[s] = true
		for _, n := range []string{SStr, SFlt, STxt} {
			if strings.Contains(" "+strings.NewReplacer("(", " ", ")", " ").Replace(s)+" ", " "+n+" ") {
				sorts[n] = true
			}
		}
	}
	boundSet := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		addSort(t.Sort)
		for _, b := range t.Bound {
			boundSet[b] = true
			addSort(b.Sort)
		}
		for _, a := range t.Args {
			walk(a)
		}
		if t.Sym {
			syms = append(syms, t)
		} else if strings.HasPrefix(t.Op, "@") {
			if _, ok := ufs[t.Op]; !ok {
				ufs[t.Op] = t
				ufo = append(ufo, t.Op)
			}
		}
		order = append(order, t)
	}
	for _, t := range all {
		walk(t)
	}
	for _, t := range qt {
		walk(t)
	}
	if logic != "" {
		sb.WriteString("(set-logic " + logic + ")\n")
	}
	var sl []string
	for s := range sorts {
		sl = append(sl, s)
	}
	sort.Strings(sl)
	for _, s := range sl {
		sb.WriteString("(declare-sort " + s + " 0)\n")
	}
	var lits []*Term
	ren := map[*Term]string{}
	for i, s := range syms {
		if boundSet[s] {
			ren[s] = fmt.Sprintf("b%d", i)
			continue
		}
		if strLits[s] {
			lits = append(lits, s)
		}
		ren[s] = fmt.Sprintf("s%d", i)
		fmt.Fprintf(&sb, "(declare-const s%d %s)", i, s.Sort)
		if keepNames {
			fmt.Fprintf(&sb, " ; %s %q", s.Op, strLitVal[s])
		}
		sb.WriteByte('\n')
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			sb.WriteString(" " + ren[l])
		}
		sb.WriteString("))\n")
	}
	for _, n := range ufo {
		t := ufs[n]
		sb.WriteString("(declare-fun " + ufName(n) + " (")
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.Sort)
		}
		sb.WriteString(") " + t.Sort + ")\n")
	}
	// shared ground subterms
	names := map[*Term]string{}
	for s, n := range ren {
		names[s] = n
	}
	hasBound := map[*Term]bool{}
	for _, t := range order {
		if boundSet[t] {
			hasBound[t] = true
		}
		for _, a := range t.Args {
			if hasBound[a] {
				hasBound[t] = true
			}
		}
		if hasBound[t] || t.Sym || t.Lit != nil || len(t.Args) == 0 || t.HasQ {
			continue
		}
		if cnt[t] > 1 {
			n := fmt.Sprintf("t%d", len(names))
			sb.WriteString("(define-fun " + n + " () " + t.Sort + " ")
			printQ(&sb, t, names, true)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	for _, t := range ground {
		sb.WriteString("(assert ")
		printQ(&sb, t, names, false)
		sb.WriteString(")\n")
	}
	if withQ {
		for i, t := range qt {
			sb.WriteString("(assert ")
			tr := qs[i].trigs
			if t.Op == "forall" && len(tr) > 0 {
				sb.WriteString("(forall (")
				for _, b := range t.Bound {
					sb.WriteString("(" + names[b] + " " + b.Sort + ")")
				}
				sb.WriteString(") (! ")
				printQ(&sb, t.Args[0], names, false)
				for _, mp := range tr {
					sb.WriteString(" :pattern (")
					for _, p := range mp {
						printQ(&sb, p, names, false)
						sb.WriteByte(' ')
					}
					sb.WriteString(")")
				}
				sb.WriteString("))")
			} else {
				printQ(&sb, t, names, false)
			}
			sb.WriteString(")\n")
		}
	}
	sb.WriteString("(assert ")
	printQ(&sb, neg, names, false)
	sb.WriteString(")\n(check-sat)\n")
	return sb.String()
}

var keepNames = os.Getenv("GOVC_NAMES") != ""

func ufName(op string) string { return "|" + op[1:] + "|" }

func printQ(sb *strings.Builder, t *Term, names map[*Term]string, top bool) {
	if !top {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch {
	case t.Lit != nil:
		sb.WriteString(litStr(t))
	case t.Sym:
		sb.WriteString(symName(t.Op))
	case len(t.Args) == 0:
		if strings.HasPrefix(t.Op, "@") {
			sb.WriteString(ufName(t.Op))
		} else {
			sb.WriteString(t.Op)
		}
	case t.Op == "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		printQ(sb, t.Args[0], names, false)
		sb.WriteByte(')')
	case t.Op == "forall" || t.Op == "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + names[b] + " " + b.Sort + ")")
		}
		sb.WriteString(") ")
		printQ(sb, t.Args[0], names, false)
		sb.WriteByte(')')
	default:
		op := t.Op
		if strings.HasPrefix(op, "@") {
			op = ufName(op)
		}
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printQ(sb, a, names, false)
		}
		sb.WriteByte(')')
	}
}

// ---- running solvers ----

type solverCmd struct {
	name string
	args func(ms int) []string
}

var (
	z3new = solverCmd{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.random_seed=1"} }}
	z3nl  = solverCmd{"z3-new-nl", func(ms int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.arith.solver=2"}
	}}
	z3old = solverCmd{"z3", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)} }}
	cvc5s = solverCmd{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q"}
	}}
)

type Result struct {
	OK      bool
	Variant string
	Sat     bool // definitely refuted (quantifier free)
	Solver  string
	Dur     time.Duration
	Text    string
	Model   string
}

var (
	solveSem   = make(chan struct{}, 8)
	cacheMu    sync.Mutex
	solveCache = map[[32]byte]string{}
	statMu     sync.Mutex
	solverTime = map[string]time.Duration{}
	solverRuns = map[string]int{}
)

// takeSlot limits the solver processes of all units checked together, so that
// time limits mean solver time and not waiting time.
func takeSlot(ctx context.Context) func() {
	dir := os.Getenv("GOVC_SLOTS")
	if dir == "" {
		return func() {}
	}
	for ctx.Err() == nil {
		for i := 0; i < 9; i++ {
			f, err := os.OpenFile(fmt.Sprintf("%s/slot%d", dir, i), os.O_CREATE|os.O_RDWR, 0o600)
			if err != nil {
				return func() {}
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { f.Close() }
			}
			f.Close()
		}
		time.Sleep(2 * time.Millisecond)
	}
	return func() {}
}

func runSolver(ctx context.Context, s solverCmd, text string, ms int) string {
	h := sha256.Sum256([]byte(s.name + "\n" + text))
	cacheMu.Lock()
	r, ok := solveCache[h]
	cacheMu.Unlock()
	if ok && (r == "sat" || r == "unsat") {
		return r
	}
	select {
	case solveSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled"
	}
	defer func() { <-solveSem }()
	release := takeSlot(ctx)
	defer release()
	if ctx.Err() != nil {
		return "cancelled"
	}
	a := s.args(ms)
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	if s.name == "cvc5" {
		if !strings.HasPrefix(text, "(set-logic") {
			text = "(set-logic ALL)\n" + text
		}
	}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	statMu.Lock()
	solverTime[s.name] += d
	solverRuns[s.name]++
	statMu.Unlock()
	res := strings.TrimSpace(out.String())
	first := res
	if i := strings.IndexByte(res, '\n'); i >= 0 {
		first = res[:i]
	}
	if strings.HasPrefix(first, "(error") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", s.name, first)
		os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0o644)
	}
	if first == "sat" || first == "unsat" {
		cacheMu.Lock()
		solveCache[h] = first
		cacheMu.Unlock()
	}
	return first
}

// termMu protects the global term tables: preparation is serial, solving parallel.
var termMu sync.Mutex

type job struct {
	qfText, qText string
	rawText       string
	abQF, abQ     string // nonlinear products as uninterpreted functions
	hasQ          bool
	special       string
	trivial       bool
}

func prepare(facts []*Term, goal *Term) *job {
	p := &prep{seenG: map[*Term]bool{}, seenQ: map[*Term]bool{}}
	neg := p.pull(Not(goal), true, nil)
	// split the negated goal: it is a conjunction of hypotheses
	for _, f := range facts {
		if f == False {
			return &job{trivial: true}
		}
		p.addHyp(f)
	}
	var negG []*Term
	before := len(p.ground)
	p.addHyp(neg)
	negG = p.ground[before:]
	_ = negG
	for _, g := range p.ground {
		if g == False {
			return &job{trivial: true}
		}
	}
	// axioms relevant to the query
	uf := map[string]bool{}
	seenT := map[*Term]bool{}
	for _, g := range p.ground {
		ufsOf(g, uf, seenT)
	}
	for _, q := range p.qs {
		ufsOf(q.body, uf, seenT)
	}
	used := map[*Axiom]bool{}
	for changed := true; changed; {
		changed = false
		for _, a := range axioms {
			if used[a] || a.Order > axiomLimit {
				continue
			}
			if a.Manual && !wantLemmas[a.Name] && a.File != lemmaFile {
				continue
			}
			ok := false
			for _, mp := range a.Trigs {
				all := true
				for _, t := range mp {
					if !triggerPresent(t, uf) {
						all = false
					}
				}
				if all {
					ok = true
				}
			}
			if ok {
				used[a] = true
				usedAxioms[a.Name] = a.Kind
				changed = true
				p.qs = append(p.qs, quant{bound: a.Bound, body: a.Body, trigs: a.Trigs})
				ufsOf(a.Body, uf, seenT)
			}
		}
		for n, rd := range recDefs {
			if uf[n] {
				k := len(uf)
				ufsOf(rd.Body, uf, seenT)
				if len(uf) != k {
					changed = true
				}
			}
		}
	}
	ix := newIndex()
	for _, g := range p.ground {
		ix.add(g)
	}
	ix0 := newIndex()
	for _, g := range p.ground {
		ix0.add(g)
	}
	done := map[*Term]bool{}
	seenI := map[instKey]bool{}
	unf := map[*Term]bool{}
	pats := make([][][]*Term, len(p.qs))
	for i, q := range p.qs {
		if len(q.bound) > 0 {
			pats[i] = patterns(q)
		}
	}
	raw0 := append([]*Term{}, p.ground...)
	rawQ := append([]quant{}, p.qs...)
	const maxGround = 2500
	for round := 0; round < 4 && len(p.ground) < maxGround; round++ {
		var add []*Term
		// recursive function unfolding
		for _, n := range sortedKeys(recDefs) {
			rd := recDefs[n]
			for _, t := range ix.byOp[n] {
				if unf[t] {
					continue
				}
				if round >= 2 && !smallUnfold(t) {
					continue
				}
				unf[t] = true
				m := map[*Term]*Term{}
				for i, pa := range rd.Params {
					m[pa] = t.Args[i]
				}
				add = append(add, Eq(t, Subst(rd.Body, m)))
			}
		}
		if round < 3 {
			for i, q := range p.qs {
				if len(q.bound) == 0 {
					continue
				}
				add = append(add, instantiate(q, pats[i], ix, done, seenI, 150)...)
			}
		}
		if round == 0 {
			add = append(add, prodLemmas(ix)...)
		}
		if len(add) == 0 {
			break
		}
		sort.SliceStable(add, func(i, j int) bool { return add[i].ID < add[j].ID })
		k0 := len(p.ground)
		for _, t := range add {
			p.addHyp(t)
		}
		for _, g := range p.ground[k0:] {
			ix.add(g)
		}
		for len(pats) < len(p.qs) {
			q := p.qs[len(pats)]
			var pt [][]*Term
			if len(q.bound) > 0 {
				pt = patterns(q)
			}
			pats = append(pats, pt)
		}
	}
	// background facts on particular symbols
	bg := builtinFacts(ix)
	for _, b := range bg {
		p.addHyp(b)
	}
	for _, g := range p.ground {
		if g == False {
			return &job{trivial: true}
		}
	}
	j := &job{}
	j.qfText = buildQuery(p.ground, nil, True, false, "")
	ab := newAbstract()
	abG := ab.all(p.ground)
	if ab.n > 0 {
		ab.squares(p.ground)
		j.abQF = buildQuery(append(abG, ab.facts...), nil, True, false, "")
	}
	for n := range uf {
		if recDefs[n] != nil {
			j.hasQ = true
		}
	}
	var qs []quant
	for _, q := range p.qs {
		qs = append(qs, q)
	}
	if len(qs) > 0 {
		j.hasQ = true
	}
	if j.hasQ {
		var names []string
		for n := range uf {
			if recDefs[n] != nil {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			rd := recDefs[n]
			app := App(n, rd.Body.Sort, rd.Params...)
			qs = append(qs, quant{bound: rd.Params, body: Eq(app, rd.Body), trigs: [][]*Term{{app}}})
		}
		j.qText = buildQuery(p.ground, qs, True, true, "")
		if ab.n > 0 {
			aq := make([]quant, len(qs))
			for i, q := range qs {
				aq[i] = quant{bound: q.bound, body: ab.term(q.body)}
				for _, mp := range q.trigs {
					aq[i].trigs = append(aq[i].trigs, ab.all(mp))
				}
			}
			aq = append(aq, ab.comm()...)
			j.abQ = buildQuery(append(ab.all(p.ground), ab.facts...), aq, True, true, "")
		}
		if ab.n > 0 {
			ab2 := newAbstract()
			for _, n := range names {
				rd := recDefs[n]
				app := App(n, rd.Body.Sort, rd.Params...)
				rawQ = append(rawQ, quant{bound: rd.Params, body: Eq(app, rd.Body), trigs: [][]*Term{{app}}})
			}
			rg := ab2.all(append(raw0, append(prodLemmas(ix0), bg...)...))
			ab2.squares(rg)
			for i, q := range rawQ {
				rawQ[i].body = ab2.term(q.body)
				rawQ[i].trigs = nil
				for _, mp := range q.trigs {
					rawQ[i].trigs = append(rawQ[i].trigs, ab2.all(mp))
				}
			}
			j.rawText = buildQuery(append(rg, ab2.facts...), append(rawQ, ab2.comm()...), True, true, "")
		}
	}
	return j
}

// abstract replaces nonlinear real products and quotients by uninterpreted
// functions. The result is weaker than the original hypotheses, so a refutation
// of it is one of the original.
type abstract struct {
	n     int
	memo  map[*Term]*Term
	facts []*Term
	sq    []*Term
	ops   map[string]bool
}

func newAbstract() *abstract { return &abstract{memo: map[*Term]*Term{}, ops: map[string]bool{}} }

func (ab *abstract) all(ts []*Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = ab.term(t)
	}
	return out
}

func (ab *abstract) term(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := ab.memo[t]; ok {
		return r
	}
	args := ab.all(t.Args)
	var r *Term
	switch {
	case t.Op == "*" && !t.Args[0].isLit():
		ab.n++
		r = args[0]
		op := "@rmul"
		if t.Sort == SInt {
			op = "@imul"
		}
		ab.ops[op] = true
		for _, a := range args[1:] {
			r = App(op, t.Sort, r, a)
		}
		if len(args) == 2 && args[0] == args[1] {
			ab.sq = append(ab.sq, r)
		}
	case t.Op == "/" && len(t.Args) == 2 && !t.Args[1].isLit():
		ab.n++
		r = App("@rquot", t.Sort, args...)
	default:
		same := true
		for i := range args {
			same = same && args[i] == t.Args[i]
		}
		if same {
			r = t
		} else {
			r = cons(t.Op, t.Sort, t.Lit, t.Bound, t.Sym, args...)
		}
	}
	ab.memo[t] = r
	return r
}

// squares are not negative.
func (ab *abstract) squares(ground []*Term) {
	bound := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, b := range t.Bound {
			bound[b] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ground {
		walk(t)
	}
sq:
	for _, r := range ab.sq {
		for f := range FV(r) {
			if bound[f] {
				continue sq
			}
		}
		ab.facts = append(ab.facts, Le(litOf(r.Sort, new(big.Rat)), r))
	}
	ab.sq = nil
}

// comm says that the abstracted products commute.
func (ab *abstract) comm() []quant {
	var out []quant
	for _, op := range sortedKeys(ab.ops) {
		so := SReal
		if op == "@imul" {
			so = SInt
		}
		x, y := Symb("ab.x"+so, so), Symb("ab.y"+so, so)
		l, r := App(op, so, x, y), App(op, so, y, x)
		out = append(out, quant{bound: []*Term{x, y}, body: Eq(l, r), trigs: [][]*Term{{l}}})
		s := App(op, so, x, x)
		out = append(out, quant{bound: []*Term{x}, body: Le(litOf(so, new(big.Rat)), s), trigs: [][]*Term{{s}}})
	}
	return out
}

var axiomLimit = 1 << 30

func smallUnfold(t *Term) bool { return false }

func triggerPresent(t *Term, uf map[string]bool) bool {
	if strings.HasPrefix(t.Op, "@") && !uf[t.Op] {
		return false
	}
	for _, a := range t.Args {
		if !triggerPresent(a, uf) {
			return false
		}
	}
	return true
}

// prodLemmas adds monotonicity instances for integer products with a common factor.
func prodLemmas(ix *termIndex) []*Term {
	var out []*Term
	type pr struct{ x, c *Term }
	byC := map[*Term][]*Term{}
	var cs []*Term
	add := func(x, c *Term) {
		for _, y := range byC[c] {
			if y == x {
				return
			}
		}
		if len(byC[c]) == 0 {
			cs = append(cs, c)
		}
		byC[c] = append(byC[c], x)
	}
	for _, t := range ix.byOp["*"] {
		if t.Sort != SInt || len(t.Args) != 2 {
			continue
		}
		add(t.Args[0], t.Args[1])
		add(t.Args[1], t.Args[0])
		a, b := t.Args[0], t.Args[1]
		out = append(out, Imp(And(Le(IntL(0), a), Le(IntL(0), b)), Le(IntL(0), t)))
	}
	// a factor that equals a sum
	n := 0
	for _, e := range ix.byOp["="] {
		if e.Args[0].Sort != SInt || e.HasQ {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := e.Args[k], e.Args[1-k]
			if len(byC[x]) == 0 || x.isLit() || y.isLit() || len(byC[y]) > 0 || y.Op != "+" && y.Op != "*" {
				continue
			}
			for _, c := range byC[x] {
				if n++; n < 40 {
					out = append(out, Imp(e, Eq(Mul(x, c), Mul(y, c))))
				}
			}
		}
	}
	for _, c := range cs {
		xs := byC[c]
		if len(xs) > 8 {
			xs = xs[:8]
		}
		for _, x := range xs {
			for _, y := range xs {
				if x == y {
					continue
				}
				// x < y and c >= 0  ->  x*c + c <= y*c
				out = append(out, Imp(And(Lt(x, y), Le(IntL(0), c)), Le(Add(Mul(x, c), c), Mul(y, c))))
				out = append(out, Imp(Eq(x, y), Eq(Mul(x, c), Mul(y, c))))
			}
		}
	}
	return out
}

func (j *job) solve(qfMs, qMs int, force bool) Result { return j.solve2(qfMs, qMs, false) }

func (j *job) solve2(qfMs, qMs int, quickOnly bool) Result {
	t0 := time.Now()
	if j.trivial {
		return Result{OK: true, Solver: "simplifier"}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if j.special != "" {
		return Result{}
	}
	first := []string{j.qfText}
	if j.abQF != "" {
		first = append(first, j.abQF)
	}
	if j.rawText != "" && !quickOnly {
		first = append(first, j.rawText)
	}
	r := "unknown"
	{
		c2, stop := context.WithCancel(ctx)
		res := make(chan [2]string, len(first))
		for i, txt := range first {
			go func(i int, txt string) { res <- [2]string{fmt.Sprint(i), runSolver(c2, z3new, txt, qfMs)} }(i, txt)
		}
		for range first {
			x := <-res
			if x[1] == "unsat" {
				stop()
				return Result{OK: true, Solver: "z3-new", Dur: time.Since(t0), Text: j.qfText, Variant: x[0]}
			}
			if x[0] == "0" {
				r = x[1]
			}
			if x[1] == "sat" && quickOnly {
				stop()
				return Result{Solver: "z3-new", Dur: time.Since(t0), Text: j.qfText}
			}
		}
		stop()
	}
	if r == "sat" && qMs > 2000 && qMs <= 8000 {
		qMs = 2000
	}
	if r == "sat" && !j.hasQ {
		return Result{Sat: true, Solver: "z3-new", Dur: time.Since(t0), Text: j.qfText}
	}
	type rr struct {
		s, r string
		qf   bool
	}
	ch := make(chan rr, 8)
	n := 0
	start := func(s solverCmd, text string, ms int, qf bool) {
		n++
		go func() { ch <- rr{s.name, runSolver(ctx, s, text, ms), qf} }()
	}
	if r != "sat" {
		start(cvc5s, j.qfText, qMs, true)
		start(z3old, j.qfText, qMs, true)
	}
	if j.hasQ {
		start(z3new, j.qText, qMs, false)
		start(cvc5s, j.qText, qMs, false)
		start(z3old, j.qText, qMs, false)
		if j.abQ != "" {
			start(z3new, j.abQ, qMs, true)
			start(z3old, j.abQ, qMs, true)
		}
	}
	sat := false
	for i := 0; i < n; i++ {
		x := <-ch
		if x.r == "unsat" {
			return Result{OK: true, Solver: x.s, Dur: time.Since(t0), Text: j.qText}
		}
		if x.r == "sat" && (!x.qf || !j.hasQ) && j.abQF == "" {
			sat = true
		}
	}
	txt := j.qText
	if txt == "" {
		txt = j.qfText
	}
	return Result{Sat: sat, Solver: "portfolio", Dur: time.Since(t0), Text: txt}
}

func Prove(facts []*Term, goal *Term, qfMs, qMs int) Result {
	if goal == True {
		return Result{OK: true, Solver: "simplifier"}
	}
	for _, f := range facts {
		if f == goal {
			return Result{OK: true, Solver: "simplifier"}
		}
	}
	j := prepare(facts, goal)
	return j.solve(qfMs, qMs, false)
}

// proveLater starts a proof and returns a function that waits for its outcome.
func proveLater(facts []*Term, goal *Term, qfMs, qMs int) func() bool {
	for _, f := range facts {
		if f == goal {
			return func() bool { return true }
		}
	}
	j := prepare(facts, goal)
	ch := make(chan bool, 1)
	go func() { ch <- j.solve(qfMs, qMs, false).OK }()
	return func() bool { return <-ch }
}

func dumpQuery(dir, name, text string) string {
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, sanitize(name)+".smt2")
	os.WriteFile(f, []byte(text), 0o644)
	return f
}

package main

// Path-wise symbolic execution of go/ssa with loop cutting.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string
	Kind   string // post, pre, inv-init, inv-step, safety, frame, assert, lemma
	Label  string
	Pos    string
	Fn     string
	facts  []*Term
	goal   *Term
	Count  int
	Res    Result
	Status string
	Detail string
}

type Unit struct {
	late []func() *Obligation

	w          *World
	c          *Contract
	fn         *ssa.Function
	init       map[string]*Term
	initKeys   []string
	mapBound   map[*Term]*Term
	a0         *Term
	wfFacts    map[*Term][]*Term
	entry      *State
	entryFacts []*Term
	obls       []*Obligation
	ghostType  map[string]string
	params     map[string]Val
	lets       map[string]Val
	scopeNames map[string]Val

	emit          bool
	discover      int
	its           []*Term
	ents          []*State
	mits          []*Val
	frames        []*Frame
	depth         int
	steps         int
	paths         int
	notes         map[string]bool
	assumptions   map[string]bool
	usedContracts map[string]bool
	inlined       map[string]bool
	models        map[string]bool
	exits         int
	deadline      time.Time
	funcs         map[int64]*FuncVal
	invsUsed      int
	hookHits      map[string]int
	hints         map[string]map[string]bool // candidates worth trying, per loop
	kept          map[string]map[string]bool // candidates proved, per loop
	reads         map[string]*Term           // heaps read while a hidden macro is evaluated
	hookMute      int
	loopInvN      int
	condLog       *[]*Term
	symBound      map[*Term]*Term
	rowBound      map[*Term]*Term
	keyLeaf       map[string]Leaf
	loopOrd       map[*ssa.BasicBlock]int
	dropCache     map[string]map[string]bool
	invHit        map[*Clause]bool
	invMs         int
	opaque        map[string]*Contract
	retCount      int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	loops  *loopInfo
	active []*Loop
	site   token.Pos
	id     int
}

type outKind int

const (
	oRet outKind = iota
	oStop
	oBack
	oExit
)

type Outcome struct {
	k    outKind
	st   *State
	vals []Val
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	phis []Val
	loop *Loop
	env  map[ssa.Value]Val
	ret  *ssa.Return
}

type callRes struct {
	st   *State
	vals []Val
}

// ---- loops and postdominators ----

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
	inner    map[*ssa.BasicBlock]*Loop
	ipdom    map[*ssa.BasicBlock]*ssa.BasicBlock
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		var best *Loop
		for _, l := range li.byHeader {
			if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		li.inner[b] = best
	}
	for _, l := range li.byHeader {
		var best *Loop
		for _, m := range li.byHeader {
			if m != l && m.body[l.header] && len(m.body) > len(l.body) && (best == nil || len(m.body) < len(best.body)) {
				best = m
			}
		}
		l.parent = best
	}
	// postdominators (sets)
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	isPanic := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	for i := range pd {
		pd[i] = map[int]bool{}
		for j := 0; j < n; j++ {
			pd[i][j] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var nw map[int]bool
			for _, s := range b.Succs {
				if isPanic(s) {
					continue
				}
				if nw == nil {
					nw = map[int]bool{}
					for k := range pd[s.Index] {
						nw[k] = true
					}
				} else {
					for k := range nw {
						if !pd[s.Index][k] {
							delete(nw, k)
						}
					}
				}
			}
			if nw == nil {
				nw = map[int]bool{}
			}
			nw[i] = true
			if len(nw) != len(pd[i]) {
				pd[i] = nw
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		// immediate: the strict postdominator with the most postdominators itself
		best := -1
		for k := range pd[i] {
			if k == i {
				continue
			}
			if best < 0 || len(pd[k]) > len(pd[best]) {
				best = k
			}
		}
		if best >= 0 {
			li.ipdom[b] = fn.Blocks[best]
		}
	}
	loopCache[fn] = li
	return li
}

// ---- obligations ----

func (u *Unit) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := u.w.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	f = strings.TrimPrefix(f, u.w.root+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (u *Unit) oblige(st *State, kind, label, pos string, goal *Term) {
	if goal != True && u.emit {
		fn := ""
		if len(u.frames) > 0 {
			fn = u.frames[len(u.frames)-1].fn.String()
		}
		o := &Obligation{Kind: kind, Label: label, Pos: pos, Fn: fn, facts: u.collectFacts(st, goal), goal: goal}
		u.obls = append(u.obls, o)
	} else if u.emit {
		u.obls = append(u.obls, &Obligation{Kind: kind, Label: label, Pos: pos, goal: True, Status: "discharged", Res: Result{OK: true, Solver: "simplifier"}})
	}
	st.assume(goal)
}

// collectFacts gathers the path facts plus well-formedness facts of mentioned terms.
func (u *Unit) collectFacts(st *State, goal *Term) []*Term {
	fs := append([]*Term{}, u.entryFacts...)
	fs = append(fs, st.facts()...)
	fs = append(fs, Le(u.a0, st.alloc()), Le(IntL(1), u.a0))
	seen := map[*Term]bool{}
	var extra []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			// wf facts only for ground subterms
			var g func(x *Term)
			bs := map[*Term]bool{}
			for _, b := range t.Bound {
				bs[b] = true
			}
			g = func(x *Term) {
				if len(x.Args) > 0 && boundIn(x, bs) {
					for _, a := range x.Args {
						g(a)
					}
					return
				}
				walk(x)
			}
			g(t.Args[0])
			return
		}
		if f, ok := u.wfFacts[t]; ok {
			extra = append(extra, f...)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, f := range fs {
		walk(f)
	}
	walk(goal)
	for i := 0; i < len(extra); i++ {
		walk(extra[i])
	}
	return append(fs, extra...)
}

func (u *Unit) prove(st *State, goal *Term, qf, q int) bool {
	if goal == True {
		return true
	}
	return Prove(u.collectFacts(st, goal), goal, qf, q).OK
}

// ---- running ----

func (u *Unit) tick() {
	u.steps++
	if u.steps%256 == 0 && time.Now().After(u.deadline) {
		panic(limit("time budget exhausted"))
	}
}

func (u *Unit) newFrame(fn *ssa.Function, parent *Frame, site token.Pos) *Frame {
	return &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, loops: loopsOf(fn), site: site}
}

// runFunction executes a function body and returns its results.
func (u *Unit) runFunction(fn *ssa.Function, binds, args []Val, st *State, site token.Pos) []callRes {
	if len(fn.Blocks) == 0 {
		panic(limit("no body for " + fn.String()))
	}
	if u.depth > 14 {
		panic(limit("inlining too deep at " + fn.String()))
	}
	for _, f := range u.frames {
		if f.fn == fn && u.depth > 0 {
			panic(limit("recursive call of " + fn.String() + " without a contract"))
		}
	}
	var parent *Frame
	if len(u.frames) > 0 {
		parent = u.frames[len(u.frames)-1]
	}
	fr := u.newFrame(fn, parent, site)
	for i, p := range fn.Params {
		v := args[i]
		fr.env[p] = retype(v, p.Type())
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	u.frames = append(u.frames, fr)
	u.depth++
	outs := u.runBlock(fr, fn.Blocks[0], 0, st, nil)
	u.depth--
	u.frames = u.frames[:len(u.frames)-1]
	var res []callRes
	for _, o := range outs {
		if o.k != oRet {
			panic(fmt.Sprintf("unexpected outcome %d from %s", o.k, fn))
		}
		res = append(res, callRes{o.st, o.vals})
	}
	return res
}

func retype(v Val, t types.Type) Val {
	v.T = t
	if v.S == "nil" && v.P == nil {
		z := zeroVal(t)
		return z
	}
	v.S = ""
	return v
}

func (u *Unit) edgePhis(fr *Frame, from, to *ssa.BasicBlock) []Val {
	var out []Val
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, retype(u.value(fr, ph.Edges[pi]), ph.Type()))
	}
	return out
}

func setPhis(fr *Frame, b *ssa.BasicBlock, phis []Val) {
	for i, v := range phis {
		fr.env[b.Instrs[i].(*ssa.Phi)] = v
	}
}

// arrive continues at block `to` with the phi values given.
func (u *Unit) arrive(fr *Frame, from, to *ssa.BasicBlock, phis []Val, st *State, stop *ssa.BasicBlock) []Outcome {
	if n := len(fr.active); n > 0 {
		l := fr.active[n-1]
		if to == l.header {
			return []Outcome{{k: oBack, st: st, to: to, from: from, phis: phis, loop: l}}
		}
		if !l.body[to] {
			env := make(map[ssa.Value]Val, len(fr.env))
			for k, v := range fr.env {
				env[k] = v
			}
			return []Outcome{{k: oExit, st: st, to: to, from: from, phis: phis, loop: l, env: env}}
		}
	}
	if to == stop {
		return []Outcome{{k: oStop, st: st, to: to, from: from, phis: phis}}
	}
	if l := fr.loops.byHeader[to]; l != nil {
		return u.enterLoop(fr, l, phis, st, stop)
	}
	setPhis(fr, to, phis)
	return u.runBlock(fr, to, len(phis), st, stop)
}

// runBlock executes block b from instruction i on.
func (u *Unit) runBlock(fr *Frame, b *ssa.BasicBlock, i int, st *State, stop *ssa.BasicBlock) []Outcome {
	for ; i < len(b.Instrs); i++ {
		u.tick()
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Jump:
			to := b.Succs[0]
			return u.arrive(fr, b, to, u.edgePhis(fr, b, to), st, stop)
		case *ssa.If:
			return u.runIf(fr, b, in, st, stop)
		case *ssa.Return:
			var vals []Val
			for k, r := range in.Results {
				vals = append(vals, retype(u.value(fr, r), fr.fn.Signature.Results().At(k).Type()))
			}
			return []Outcome{{k: oRet, st: st, vals: vals, ret: in}}
		case *ssa.Panic:
			u.oblige(st, "safety", "no panic", u.posOf(in.Pos()), False)
			return nil
		case *ssa.RunDefers:
			return u.runDefers(fr, b, i, st, stop)
		}
		rs := u.instr(fr, in, st)
		if rs == nil {
			continue
		}
		if len(rs) == 1 {
			st = rs[0].st
			u.bindResult(fr, in, rs[0].vals)
			continue
		}
		var outs []Outcome
		for _, r := range rs {
			u.bindResult(fr, in, r.vals)
			outs = append(outs, u.runBlock(fr, b, i+1, r.st, stop)...)
		}
		return outs
	}
	panic("block without terminator")
}

func (u *Unit) bindResult(fr *Frame, in ssa.Instruction, vals []Val) {
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	switch len(vals) {
	case 0:
		fr.env[v] = Val{T: v.Type()}
	case 1:
		if _, ok := v.Type().(*types.Tuple); ok {
			fr.env[v] = Val{T: v.Type(), Tup: vals}
			return
		}
		x := vals[0]
		if x.Tup == nil {
			x = retype(x, v.Type())
		}
		fr.env[v] = x
	default:
		fr.env[v] = Val{T: v.Type(), Tup: vals}
	}
}

func (u *Unit) runDefers(fr *Frame, b *ssa.BasicBlock, i int, st *State, stop *ssa.BasicBlock) []Outcome {
	states := []*State{st}
	for {
		any := false
		var next []*State
		for _, s := range states {
			k := -1
			for j := len(s.def) - 1; j >= 0; j-- {
				if s.def[j].fr == fr {
					k = j
					break
				}
			}
			if k < 0 {
				next = append(next, s)
				continue
			}
			any = true
			d := s.def[k]
			s = s.clone()
			s.def = append(append([]deferRec{}, s.def[:k]...), s.def[k+1:]...)
			for _, r := range u.callCommon(fr, d.call, d.fn, d.args, s, d.call.Pos()) {
				next = append(next, r.st)
			}
		}
		states = next
		if !any {
			break
		}
	}
	var outs []Outcome
	for _, s := range states {
		outs = append(outs, u.runBlock(fr, b, i+1, s, stop)...)
	}
	return outs
}

func sameHeap(a, b *State) bool {
	if a.aBase != b.aBase || a.aOff != b.aOff || len(a.def) != len(b.def) {
		return false
	}
	if len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	return true
}

func (u *Unit) feasible(st *State, c *Term) bool {
	if c == False || st.contradicts(c) {
		return false
	}
	return true
}

func (u *Unit) runIf(fr *Frame, b *ssa.BasicBlock, in *ssa.If, st *State, stop *ssa.BasicBlock) []Outcome {
	c := u.value(fr, in.Cond).term()
	if u.condLog != nil {
		*u.condLog = append(*u.condLog, c)
	}
	var join *ssa.BasicBlock
	if j := fr.loops.ipdom[b]; j != nil && fr.loops.inner[j] == fr.loops.inner[b] && fr.loops.byHeader[j] == nil {
		join = j
	}
	inner := stop
	if join != nil {
		inner = join
	}
	base := st.pc
	var outs, reach []Outcome
	for k, to := range b.Succs {
		cond := c
		if k == 1 {
			cond = Not(c)
		}
		if !u.feasible(st, cond) {
			continue
		}
		s2 := st.clone()
		s2.assume(cond)
		for _, o := range u.arrive(fr, b, to, u.edgePhis(fr, b, to), s2, inner) {
			if o.k == oStop && o.to == join && join != nil {
				reach = append(reach, o)
			} else {
				outs = append(outs, o)
			}
		}
	}
	if join == nil {
		return outs
	}
	// merge outcomes with identical memory
	for len(reach) > 0 {
		g := []Outcome{reach[0]}
		var rest []Outcome
		for _, o := range reach[1:] {
			if sameHeap(g[0].st, o.st) && mergeable(g[0].phis, o.phis) {
				g = append(g, o)
			} else {
				rest = append(rest, o)
			}
		}
		reach = rest
		if len(g) > 1 {
			if m, ok := mergeOuts(base, g); ok {
				g = []Outcome{m}
			}
		}
		for _, o := range g {
			outs = append(outs, u.arrive(fr, o.from, join, o.phis, o.st, stop)...)
		}
	}
	return outs
}

func mergeable(a, b []Val) bool {
	for i := range a {
		if a[i].P != nil || b[i].P != nil {
			if a[i].P == nil || b[i].P == nil || ptrTerm(a[i].P) != ptrTerm(b[i].P) {
				return false
			}
			continue
		}
		if len(a[i].L) != len(b[i].L) || len(a[i].Tup) > 0 {
			return false
		}
		if a[i].T != nil {
			if _, ok := a[i].T.Underlying().(*types.Signature); ok && a[i].L[0] != b[i].L[0] {
				return false
			}
			if isIface(a[i].T) && a[i].L[0] != b[i].L[0] {
				return false
			}
		}
	}
	return true
}

func delta(base, pc *fact) []*Term {
	bn := 0
	if base != nil {
		bn = base.n
	}
	var out []*Term
	for f := pc; f != nil && f.n > bn; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func mergeOuts(base *fact, g []Outcome) (Outcome, bool) {
	ds := make([][]*Term, len(g))
	cnt := map[*Term]int{}
	for i, o := range g {
		ds[i] = delta(base, o.st.pc)
		if len(ds[i]) > 40 {
			return Outcome{}, false
		}
		seen := map[*Term]bool{}
		for _, t := range ds[i] {
			if !seen[t] {
				seen[t] = true
				cnt[t]++
			}
		}
	}
	var common []*Term
	conds := make([]*Term, len(g))
	var guarded []*Term
	for i := range g {
		var own, quant []*Term
		for _, t := range ds[i] {
			if cnt[t] == len(g) {
				if i == 0 {
					common = append(common, t)
				}
			} else {
				if t.HasQ {
					quant = append(quant, t)
					continue
				}
				own = append(own, t)
			}
		}
		conds[i] = And(own...)
		for _, t := range quant {
			guarded = append(guarded, Imp(conds[i], t))
		}
	}
	m := g[0]
	st := g[0].st.clone()
	st.pc = base
	for _, t := range common {
		st.assume(t)
	}
	st.assume(Or(conds...))
	for _, t := range guarded {
		st.assume(t)
	}
	m.st = st
	m.phis = append([]Val{}, g[0].phis...)
	for k := range m.phis {
		if m.phis[k].P != nil {
			continue
		}
		v := g[len(g)-1].phis[k]
		ls := append([]*Term{}, v.L...)
		for i := len(g) - 2; i >= 0; i-- {
			for j := range ls {
				ls[j] = Ite(conds[i], g[i].phis[k].L[j], ls[j])
			}
		}
		m.phis[k] = Val{T: m.phis[k].T, L: ls}
	}
	// memory of known cells: union
	return m, true
}

// ---- values ----

func (u *Unit) value(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroVal(v.Type())
		}
		return u.constVal(v.Value, v.Type())
	case *ssa.Global:
		return Val{T: v.Type(), P: u.globalPtr(v)}
	case *ssa.Function:
		return u.funcVal(&FuncVal{Fn: v, Sig: v.Signature}, v.Type())
	case *ssa.Builtin:
		return Val{T: v.Type()}
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
}

func (u *Unit) globalPtr(g *ssa.Global) *Ptr {
	return &Ptr{Pre: "V:" + qual(g.Pkg.Pkg) + "." + g.Name(), T: g.Type().(*types.Pointer).Elem()}
}

func (u *Unit) funcVal(f *FuncVal, t types.Type) Val {
	key := fmt.Sprintf("%p/%s", f.Fn, f.Spec)
	for _, b := range f.Binds {
		for _, l := range b.leaves() {
			key += fmt.Sprintf(",%d", l.ID)
		}
	}
	id, ok := u.w.funcIDs[key]
	if !ok {
		id = int64(1000 + len(u.w.funcIDs))
		u.w.funcIDs[key] = id
	}
	u.funcs[id] = f
	return Val{T: t, L: []*Term{IntL(id)}}
}

func (u *Unit) lookupFunc(v Val) *FuncVal {
	t := v.term()
	if t.isLit() {
		return u.funcs[t.Lit.Num().Int64()]
	}
	return nil
}

// box stores a value in an interface.
func (u *Unit) box(st *State, v Val, from types.Type, to types.Type) Val {
	tag := u.w.typeTag(from)
	var dat *Term
	switch from.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		dat = v.term()
	default:
		if isIface(from) {
			return Val{T: to, L: v.L}
		}
		dat = App("@box:"+typeKey(from), SInt, v.leaves()...)
	}
	return Val{T: to, L: []*Term{tag, dat}}
}

func (u *Unit) unbox(st *State, t types.Type, dat *Term) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		v := Val{T: t, L: []*Term{dat}}
		return v
	}
	if dat.Op == "@box:"+typeKey(t) {
		return Val{T: t, L: dat.Args}
	}
	v := Val{T: t}
	for i, l := range layout(t) {
		v.L = append(v.L, App(fmt.Sprintf("@unbox:%s:%d", typeKey(t), i), l.Sort, dat))
	}
	return v
}

func (w *World) typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := w.tags[k]
	if !ok {
		id = int64(len(w.tags) + 1)
		w.tags[k] = id
		w.tagType[id] = t
	}
	return IntL(id)
}

// ---- instructions ----

func (u *Unit) one(st *State, v ...Val) []callRes { return []callRes{{st, v}} }

func (u *Unit) nilCheck(st *State, p *Ptr, pos token.Pos, what string) {
	if p.Base == nil || p.Idx != nil {
		return
	}
	u.oblige(st, "safety", "nil dereference "+what, u.posOf(pos), Not(Eq(p.Base, IntL(0))))
}

func (u *Unit) instr(fr *Frame, in ssa.Instruction, st *State) []callRes {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		p := u.newObj(st, t)
		v := Val{T: in.Type(), L: []*Term{p.Base}}
		if _, ok := t.Underlying().(*types.Array); !ok {
			st.cells = append(st.cells, v)
		}
		fr.env[in] = v
	case *ssa.FieldAddr:
		x := u.value(fr, in.X)
		p := toPtr(x)
		u.nilCheck(st, p, in.Pos(), "")
		f := p.T.Underlying().(*types.Struct).Field(in.Field)
		if opaqueStruct(p.T) {
			panic(limit("field of external struct " + p.T.String()))
		}
		fr.env[in] = Val{T: in.Type(), P: &Ptr{Pre: p.Pre + "." + f.Name(), Base: p.Base, Idx: p.Idx, T: f.Type()}}
	case *ssa.Field:
		x := u.value(fr, in.X)
		f := x.T.Underlying().(*types.Struct).Field(in.Field)
		fr.env[in] = projField(x, f)
	case *ssa.IndexAddr:
		x, i := u.value(fr, in.X), u.value(fr, in.Index).term()
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			u.oblige(st, "safety", "index in range", u.posOf(in.Pos()), inRange(i, x.L[2]))
			fr.env[in] = Val{T: in.Type(), P: &Ptr{Pre: "E:" + typeKey(t.Elem()), Base: x.L[0], Idx: Add(x.L[1], i), T: t.Elem()}}
		case *types.Pointer:
			a := t.Elem().Underlying().(*types.Array)
			p := toPtr(x)
			u.oblige(st, "safety", "index in range", u.posOf(in.Pos()), inRange(i, IntL(a.Len())))
			if p.Idx != nil || !strings.HasPrefix(p.Pre, "E:") {
				panic(limit("array inside a structure"))
			}
			fr.env[in] = Val{T: in.Type(), P: &Ptr{Pre: p.Pre, Base: p.Base, Idx: i, T: a.Elem()}}
		default:
			panic(limit("IndexAddr"))
		}
	case *ssa.Index:
		x, i := u.value(fr, in.X), u.value(fr, in.Index).term()
		if isString(in.X.Type()) {
			u.oblige(st, "safety", "string index in range", u.posOf(in.Pos()), inRange(i, strLen(x.term())))
			fr.env[in] = Val{T: in.Type(), L: []*Term{App("@strat", SInt, x.term(), i)}}
			return nil
		}
		panic(limit("array index"))
	case *ssa.Lookup:
		x, k := u.value(fr, in.X), u.value(fr, in.Index).term()
		if isString(in.X.Type()) {
			u.oblige(st, "safety", "string index in range", u.posOf(in.Pos()), inRange(k, strLen(x.term())))
			fr.env[in] = Val{T: in.Type(), L: []*Term{App("@strat", SInt, x.term(), k)}}
			return nil
		}
		ref := x.term()
		dom := Select(u.mapDom(st, in.X.Type(), ref), k)
		ok := And(Not(Eq(ref, IntL(0))), dom)
		mv := u.mapVal(st, in.X.Type(), ref, k)
		z := zeroVal(mv.T)
		r := Val{T: mv.T}
		for i := range mv.L {
			r.L = append(r.L, Ite(ok, mv.L[i], z.L[i]))
		}
		if in.CommaOk {
			fr.env[in] = Val{T: in.Type(), Tup: []Val{r, boolVal(ok)}}
		} else {
			fr.env[in] = r
		}
	case *ssa.MapUpdate:
		m, k, v := u.value(fr, in.Map), u.value(fr, in.Key), u.value(fr, in.Value)
		u.oblige(st, "safety", "assignment to nil map", u.posOf(in.Pos()), Not(Eq(m.term(), IntL(0))))
		u.mapUpdate(st, in.Map.Type(), m.term(), k.term(), v)
	case *ssa.UnOp:
		return u.unop(fr, in, st)
	case *ssa.Store:
		p := toPtr(u.value(fr, in.Addr))
		u.nilCheck(st, p, in.Pos(), "")
		v := u.value(fr, in.Val)
		if v.S == "nil" {
			v = zeroVal(p.T)
		}
		if strings.HasPrefix(p.Pre, "E:") {
			u.lentCheck(st, p, in.Pos())
		}
		u.store(st, p, v)
		u.storeHooks(st, p, v, in.Pos())
	case *ssa.BinOp:
		fr.env[in] = Val{T: in.Type(), L: []*Term{u.binop(st, in, u.value(fr, in.X), u.value(fr, in.Y))}}
	case *ssa.Convert:
		fr.env[in] = u.convert(st, u.value(fr, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		v := u.value(fr, in.X)
		v.T = in.Type()
		fr.env[in] = v
	case *ssa.ChangeInterface:
		v := u.value(fr, in.X)
		v.T = in.Type()
		fr.env[in] = v
	case *ssa.MakeInterface:
		fr.env[in] = u.box(st, u.value(fr, in.X), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		x := u.value(fr, in.X)
		var ok *Term
		var v Val
		if isIface(in.AssertedType) {
			if in.AssertedType.Underlying().(*types.Interface).NumMethods() == 0 {
				ok = Not(Eq(x.L[0], IntL(0)))
			} else {
				ok = u.implements(x.L[0], in.AssertedType)
			}
			v = Val{T: in.AssertedType, L: x.L}
			if in.CommaOk {
				v.L = []*Term{Ite(ok, x.L[0], IntL(0)), Ite(ok, x.L[1], IntL(0))}
			}
		} else {
			ok = Eq(x.L[0], u.w.typeTag(in.AssertedType))
			v = u.unbox(st, in.AssertedType, x.L[1])
			u.wf(st, v)
			if in.CommaOk {
				z := zeroVal(in.AssertedType)
				r := Val{T: in.AssertedType}
				for i := range v.L {
					r.L = append(r.L, Ite(ok, v.L[i], z.L[i]))
				}
				v = r
			}
		}
		if in.CommaOk {
			fr.env[in] = Val{T: in.Type(), Tup: []Val{v, boolVal(ok)}}
		} else {
			u.oblige(st, "safety", "type assertion", u.posOf(in.Pos()), ok)
			fr.env[in] = v
		}
	case *ssa.Extract:
		t := u.value(fr, in.Tuple)
		fr.env[in] = retypeKeep(t.Tup[in.Index], in.Type())
	case *ssa.MakeSlice:
		n, c := u.value(fr, in.Len).term(), u.value(fr, in.Cap).term()
		u.oblige(st, "safety", "makeslice length", u.posOf(in.Pos()), And(Le(IntL(0), n), Le(n, c)))
		r := u.newRef(st)
		u.zeroRow(st, in.Type().Underlying().(*types.Slice).Elem(), r)
		fr.env[in] = Val{T: in.Type(), L: []*Term{r, IntL(0), n, c}}
	case *ssa.MakeMap:
		r := u.newRef(st)
		m, k := mapKeys(in.Type())
		d := st.get(u, "MD:"+k, ArrSort(SInt, ArrSort(keySort(m.Key()), SBool)))
		st.set(u, "MD:"+k, Store(d, r, ConstArr(ArrSort(keySort(m.Key()), SBool), False)))
		l := st.get(u, "ML:"+k, ArrSort(SInt, SInt))
		st.set(u, "ML:"+k, Store(l, r, IntL(0)))
		fr.env[in] = Val{T: in.Type(), L: []*Term{r}}
	case *ssa.MakeChan:
		r := u.newRef(st)
		u.gset(st, "chclosed", r, False)
		u.gset(st, "chn", r, IntL(0))
		u.gset(st, "chtot", r, IntL(0))
		fr.env[in] = Val{T: in.Type(), L: []*Term{r}}
	case *ssa.MakeClosure:
		f := &FuncVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Binds = append(f.Binds, u.value(fr, b))
		}
		fr.env[in] = u.funcVal(f, in.Type())
	case *ssa.Slice:
		return u.sliceOp(fr, in, st)
	case *ssa.Call:
		fn, args := u.callArgs(fr, &in.Call)
		rs := u.callCommon(fr, &in.Call, fn, args, st, in.Pos())
		if rs == nil {
			return []callRes{}
		}
		return rs
	case *ssa.Defer:
		fn, args := u.callArgs(fr, &in.Call)
		st.def = append(st.def[:len(st.def):len(st.def)], deferRec{fr, &in.Call, fn, args})
	case *ssa.Go:
		fn, args := u.callArgs(fr, &in.Call)
		u.goStmt(fr, in, fn, args, st)
	case *ssa.Send:
		ch, v := u.value(fr, in.Chan), u.value(fr, in.X)
		u.send(fr, st, in.Pos(), ch, v)
	case *ssa.Range:
		x := u.value(fr, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			panic(limit("range over string"))
		}
		m, k := mapKeys(in.X.Type())
		r := u.newRef(st)
		key := "G:seen:" + k
		s := ArrSort(SInt, ArrSort(keySort(m.Key()), SBool))
		st.set(u, key, Store(st.get(u, key, s), r, ConstArr(ArrSort(keySort(m.Key()), SBool), False)))
		u.gset(st, "itcnt", r, IntL(0))
		dkey := "G:dom0:" + k
		st.set(u, dkey, Store(st.get(u, dkey, s), r, u.mapDom(st, in.X.Type(), x.term())))
		fr.env[in] = Val{T: in.X.Type(), L: []*Term{r, x.term()}}
	case *ssa.Next:
		it := u.value(fr, in.Iter)
		mt := it.T
		m, k := mapKeys(mt)
		ks := keySort(m.Key())
		r, ref := it.L[0], it.L[1]
		skey := "G:seen:" + k
		seenM := st.get(u, skey, ArrSort(SInt, ArrSort(ks, SBool)))
		seen := Select(seenM, r)
		dom := u.mapDom(st, mt, ref)
		cnt := u.gget(st, "itcnt", r, SInt)
		ln := u.mapLen(st, mt, ref)
		// exhausted
		s1 := st.clone()
		q := Symb("qk."+ks, ks)
		// (the iteration guarantees hold while no key is added or removed)
		same := Eq(dom, Select(st.get(u, "G:dom0:"+k, ArrSort(SInt, ArrSort(ks, SBool))), r))
		s1.assume(Forall([]*Term{q}, Imp(And(same, Not(Eq(ref, IntL(0))), Select(dom, q)), Select(seen, q))))
		s1.assume(Imp(same, Eq(cnt, ln)))
		// next key
		s2 := st.clone()
		kv := freshVal(u, s2, "key", m.Key())
		kt := kv.term()
		s2.assume(And(Not(Eq(ref, IntL(0))), Select(dom, kt), Not(Select(seen, kt))))
		s2.assume(Imp(same, Lt(cnt, ln)))
		s2.set(u, skey, Store(seenM, r, Store(seen, kt, True)))
		u.gset(s2, "itcnt", r, Add(cnt, IntL(1)))
		vv := u.mapVal(s2, mt, ref, kt)
		return []callRes{
			{s2, []Val{boolVal(True), kv, vv}},
			{s1, []Val{boolVal(False), zeroVal(m.Key()), zeroVal(m.Elem())}},
		}
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.MultiConvert:
		panic(limit(fmt.Sprintf("instruction %T", in)))
	default:
		panic(limit(fmt.Sprintf("instruction %T", in)))
	}
	return nil
}

func retypeKeep(v Val, t types.Type) Val {
	if v.Tup == nil && v.P == nil && v.S == "nil" {
		return zeroVal(t)
	}
	v.T = t
	v.S = ""
	return v
}

func inRange(i, n *Term) *Term {
	if i.Sort == SBV {
		panic(limit("indexing in bit-vector mode"))
	}
	return And(Le(IntL(0), i), Lt(i, n))
}

func strLen(t *Term) *Term {
	if s, ok := strLitVal[t]; ok {
		return IntL(int64(len(s)))
	}
	return App("@strlen", SInt, t)
}

func (u *Unit) gkey(name string) string { return "G:" + name }
func (u *Unit) gget(st *State, name string, r *Term, s Sort) *Term {
	t := Select(st.get(u, "G:"+name, ArrSort(SInt, s)), r)
	u.ghostWF(name, t)
	return t
}
func (u *Unit) gset(st *State, name string, r, v *Term) {
	st.set(u, "G:"+name, Store(st.get(u, "G:"+name, ArrSort(SInt, v.Sort)), r, v))
}

var natGhosts = map[string]bool{"chn": true, "chtot": true, "itcnt": true, "scpos": true, "sclim": true}

func (u *Unit) ghostWF(name string, t *Term) {
	if natGhosts[name] && !t.isLit() {
		if _, ok := u.wfFacts[t]; !ok {
			u.wfFacts[t] = []*Term{Le(IntL(0), t)}
		}
	}
}

func (u *Unit) implements(tag *Term, t types.Type) *Term {
	return And(Not(Eq(tag, IntL(0))), App("@impl:"+typeKey(t), SBool, tag))
}

func (u *Unit) unop(fr *Frame, in *ssa.UnOp, st *State) []callRes {
	x := u.value(fr, in.X)
	switch in.Op {
	case token.MUL:
		p := toPtr(x)
		u.nilCheck(st, p, in.Pos(), "")
		if g, ok := in.X.(*ssa.Global); ok {
			if v, ok := u.knownGlobal(st, g); ok {
				fr.env[in] = v
				return nil
			}
		}
		fr.env[in] = u.load(st, p)
	case token.NOT:
		fr.env[in] = boolVal(Not(x.term()))
	case token.SUB:
		fr.env[in] = Val{T: in.Type(), L: []*Term{arithNeg(x.term())}}
	case token.XOR:
		if x.term().Sort == SBV {
			fr.env[in] = Val{T: in.Type(), L: []*Term{App("bvnot", SBV, x.term())}}
			return nil
		}
		fr.env[in] = Val{T: in.Type(), L: []*Term{Sub(IntL(-1), x.term())}}
	case token.ARROW:
		return u.recv(fr, in, x, st)
	default:
		panic(limit("unary " + in.Op.String()))
	}
	return nil
}

func (u *Unit) eqVal(a, b Val) *Term {
	if a.S == "nil" {
		a = zeroVal(b.T)
	}
	if b.S == "nil" {
		b = zeroVal(a.T)
	}
	if a.P != nil || b.P != nil {
		return Eq(a.term(), b.term())
	}
	if a.T != nil && isSliceT(a.T) {
		return Eq(a.L[0], b.L[0])
	}
	if a.T != nil && isIface(a.T) {
		if b.L[0] == IntL(0) || a.L[0] == IntL(0) {
			return Eq(a.L[0], b.L[0])
		}
	}
	var cs []*Term
	for i := range a.L {
		if a.L[i].Sort == SFlt || a.L[i].Sort == SFP {
			cs = append(cs, fEq(a.L[i], b.L[i]))
		} else {
			cs = append(cs, Eq(a.L[i], b.L[i]))
		}
	}
	return And(cs...)
}

func fEq(a, b *Term) *Term {
	if a.Sort == SFP {
		return App("fp.eq", SBool, a, b)
	}
	return And(Not(fNaN(a)), Not(fNaN(b)), Eq(fKey(a), fKey(b)))
}

func truncDiv(a, b *Term) *Term {
	if a.isLit() && b.isLit() && b.Lit.Sign() != 0 {
		return IntBig(new(big.Int).Quo(a.Lit.Num(), b.Lit.Num()))
	}
	return Ite(Le(IntL(0), a), divmod("div", a, b), Neg(divmod("div", Neg(a), b)))
}
func truncRem(a, b *Term) *Term {
	if a.isLit() && b.isLit() && b.Lit.Sign() != 0 {
		return IntBig(new(big.Int).Rem(a.Lit.Num(), b.Lit.Num()))
	}
	return Ite(Le(IntL(0), a), divmod("mod", a, b), Neg(divmod("mod", Neg(a), b)))
}

func (u *Unit) binop(st *State, in *ssa.BinOp, x, y Val) *Term {
	switch in.Op {
	case token.EQL:
		return u.eqVal(x, y)
	case token.NEQ:
		return Not(u.eqVal(x, y))
	}
	a, b := x.term(), y.term()
	ty := in.X.Type()
	if isFloat(ty) {
		if floatMode == "rnd" {
			if t := u.litOfTerm(st, a); t != nil {
				a = t
			}
			if t := u.litOfTerm(st, b); t != nil {
				b = t
			}
		}
		switch in.Op {
		case token.ADD:
			return fAdd(a, b)
		case token.SUB:
			return fSub(a, b)
		case token.MUL:
			return fMul(a, b)
		case token.QUO:
			return fDiv(a, b)
		case token.LSS:
			return cmpLt(a, b, false)
		case token.LEQ:
			return cmpLe(a, b, false)
		case token.GTR:
			return cmpLt(b, a, false)
		case token.GEQ:
			return cmpLe(b, a, false)
		}
		panic(limit("float operator " + in.Op.String()))
	}
	if isString(ty) {
		switch in.Op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return cmpLt(a, b, false)
		case token.GTR:
			return cmpLt(b, a, false)
		case token.LEQ:
			return cmpLe(a, b, false)
		case token.GEQ:
			return cmpLe(b, a, false)
		}
	}
	uns := isUnsigned(ty)
	if a.Sort == SBV {
		return u.bvop(in.Op, a, b, uns)
	}
	if in.Op == token.SHL || in.Op == token.SHR {
		if b.isLit() {
			k := new(big.Int).Lsh(big.NewInt(1), uint(b.Lit.Num().Int64()))
			if in.Op == token.SHL {
				r := Mul(a, IntBig(k))
				if uns {
					return divmod("mod", r, IntBig(two64))
				}
				return r
			}
			return divmod("div", a, IntBig(k))
		}
		return App("@"+map[token.Token]string{token.SHL: "shl", token.SHR: "shr"}[in.Op], SInt, a, b)
	}
	switch in.Op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		r := Mul(a, b)
		if uns && !r.isLit() {
			return divmod("mod", r, IntBig(two64))
		}
		return r
	case token.QUO:
		u.oblige(st, "safety", "division by zero", u.posOf(in.Pos()), Not(Eq(b, IntL(0))))
		if uns {
			return divmod("div", a, b)
		}
		return truncDiv(a, b)
	case token.REM:
		u.oblige(st, "safety", "division by zero", u.posOf(in.Pos()), Not(Eq(b, IntL(0))))
		if uns {
			return divmod("mod", a, b)
		}
		return truncRem(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.AND:
		if b.isLit() {
			m := new(big.Int).Add(b.Lit.Num(), big.NewInt(1))
			if m.Sign() > 0 && m.BitLen() > 0 && new(big.Int).And(m, b.Lit.Num()).Sign() == 0 {
				return divmod("mod", a, IntBig(m))
			}
		}
		return App("@and", SInt, a, b)
	case token.OR:
		return App("@or", SInt, a, b)
	case token.XOR:
		return App("@xor", SInt, a, b)
	case token.AND_NOT:
		return App("@andnot", SInt, a, b)
	}
	panic(limit("operator " + in.Op.String()))
}

func (u *Unit) bvop(op token.Token, a, b *Term, uns bool) *Term {
	pick := func(s, un string) string {
		if uns {
			return un
		}
		return s
	}
	switch op {
	case token.ADD:
		return App("bvadd", SBV, a, b)
	case token.SUB:
		return App("bvsub", SBV, a, b)
	case token.MUL:
		return App("bvmul", SBV, a, b)
	case token.AND:
		return App("bvand", SBV, a, b)
	case token.OR:
		return App("bvor", SBV, a, b)
	case token.XOR:
		return App("bvxor", SBV, a, b)
	case token.SHL:
		return App("bvshl", SBV, a, b)
	case token.SHR:
		return App(pick("bvashr", "bvlshr"), SBV, a, b)
	case token.QUO:
		return App(pick("bvsdiv", "bvudiv"), SBV, a, b)
	case token.REM:
		return App(pick("bvsrem", "bvurem"), SBV, a, b)
	case token.AND_NOT:
		return App("bvand", SBV, a, App("bvnot", SBV, b))
	case token.LSS:
		return App(pick("bvslt", "bvult"), SBool, a, b)
	case token.LEQ:
		return App(pick("bvsle", "bvule"), SBool, a, b)
	case token.GTR:
		return App(pick("bvslt", "bvult"), SBool, b, a)
	case token.GEQ:
		return App(pick("bvsle", "bvule"), SBool, b, a)
	}
	panic(limit("bit-vector operator " + op.String()))
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (u *Unit) convert(st *State, v Val, from, to types.Type) Val {
	t := v.leaves()[0]
	switch {
	case isIntT(from) && isIntT(to):
		if t.Sort == SBV {
			if width(to) < 64 {
				w := width(to)
				m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
				t = App("bvand", SBV, t, BVL(m))
				if !isUnsigned(to) {
					panic(limit("narrow signed conversion"))
				}
			}
			return Val{T: to, L: []*Term{t}}
		}
		w := width(to)
		if w < 64 || isUnsigned(to) != isUnsigned(from) {
			mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
			if isUnsigned(to) {
				if t.isLit() && t.Lit.Sign() >= 0 {
					return Val{T: to, L: []*Term{t}}
				}
				if w == 64 {
					return Val{T: to, L: []*Term{Ite(Le(IntL(0), t), t, Add(t, IntBig(two64)))}}
				}
				return Val{T: to, L: []*Term{divmod("mod", t, IntBig(mod))}}
			}
			half := new(big.Int).Rsh(mod, 1)
			if w < 64 {
				t = divmod("mod", t, IntBig(mod))
			}
			return Val{T: to, L: []*Term{Ite(Lt(t, IntBig(half)), t, Sub(t, IntBig(mod)))}}
		}
		return Val{T: to, L: []*Term{t}}
	case isIntT(from) && isFloat(to):
		return Val{T: to, L: []*Term{intToFloat(t)}}
	case isFloat(from) && isIntT(to):
		switch floatMode {
		case "real", "rnd":
			if t.Op == "to_real" {
				return Val{T: to, L: []*Term{t.Args[0]}}
			}
			if t.isLit() {
				q := new(big.Int).Quo(t.Lit.Num(), t.Lit.Denom())
				return Val{T: to, L: []*Term{IntBig(q)}}
			}
			z := litOf(SReal, new(big.Rat))
			return Val{T: to, L: []*Term{Ite(Le(z, t), App("to_int", SInt, t), Neg(App("to_int", SInt, Neg(t))))}}
		}
		return Val{T: to, L: []*Term{App("@f2i", SInt, t)}}
	case isFloat(from) && isFloat(to):
		return Val{T: to, L: []*Term{t}}
	case isString(from) && isString(to):
		return Val{T: to, L: []*Term{t}}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		v.T = to
		return v
	}
	r := Val{T: to}
	if isString(to) {
		return strVal(App("@conv:"+typeKey(from), SStr, v.leaves()...))
	}
	if isSliceT(to) && isString(from) {
		x := freshVal(u, st, "bytes", to)
		st.assume(Eq(x.L[2], strLen(t)))
		return x
	}
	_ = r
	panic(limit(fmt.Sprintf("conversion %v to %v", from, to)))
}

func (u *Unit) sliceOp(fr *Frame, in *ssa.Slice, st *State) []callRes {
	x := u.value(fr, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return u.value(fr, v).term()
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := get(in.Low, IntL(0))
		hi := get(in.High, x.L[2])
		mx := get(in.Max, x.L[3])
		u.oblige(st, "safety", "slice bounds", u.posOf(in.Pos()), And(Le(IntL(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, x.L[3])))
		if in.High != nil && hi != IntL(0) {
			u.oblige(st, "safety", "slice within length", u.posOf(in.Pos()), Le(hi, x.L[2]))
		}
		fr.env[in] = Val{T: in.Type(), L: []*Term{x.L[0], Add(x.L[1], lo), Sub(hi, lo), Sub(mx, lo)}}
	case *types.Pointer:
		a, ok := t.Elem().Underlying().(*types.Array)
		if !ok {
			panic(limit("slice of pointer"))
		}
		p := toPtr(x)
		n := IntL(a.Len())
		lo := get(in.Low, IntL(0))
		hi := get(in.High, n)
		u.oblige(st, "safety", "slice bounds", u.posOf(in.Pos()), And(Le(IntL(0), lo), Le(lo, hi), Le(hi, n)))
		fr.env[in] = Val{T: in.Type(), L: []*Term{p.Base, lo, Sub(hi, lo), Sub(n, lo)}}
	case *types.Basic:
		s := x.term()
		lo := get(in.Low, IntL(0))
		hi := get(in.High, strLen(s))
		u.oblige(st, "safety", "string slice bounds", u.posOf(in.Pos()), And(Le(IntL(0), lo), Le(lo, hi), Le(hi, strLen(s))))
		fr.env[in] = Val{T: in.Type(), L: []*Term{App("@substr", SStr, s, lo, hi)}}
	default:
		panic(limit("slice operand"))
	}
	return nil
}

var debugExec = os.Getenv("GOVC_TRACE") != ""

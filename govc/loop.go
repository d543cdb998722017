package main

// Loop cutting: modified-set discovery, invariant candidates, Houdini.

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugTime = os.Getenv("GOVC_TIME") != ""

type modSet struct {
	whole map[string]bool
	rows  map[string][]*Term
	scal  map[string]bool
	alloc bool
}

type lvar struct {
	name  string
	typ   types.Type
	entry Val
	head  Val
	get   func(st *State, phis []Val) Val
	mem   bool
}

type cand struct {
	key   string
	f     func(st *State, phis []Val, it *Term) *Term
	user  *Clause
	alive bool
}

type loopCtx struct {
	l     *Loop
	fr    *Frame
	st0   *State
	phis0 []Val
	vars  []*lvar
}

// update compares a back-edge state with the header state.
func (ms *modSet) update(u *Unit, hst, b *State, ep int) bool {
	changed := false
	if b.aBase != hst.aBase || b.aOff != hst.aOff {
		if !ms.alloc {
			ms.alloc = true
			changed = true
		}
	}
	for _, key := range sortedKeys(b.heap) {
		cur := b.heap[key]
		base := hst.get(u, key, cur.Sort)
		if cur == base || ms.whole[key] || ms.scal[key] {
			continue
		}
		if !strings.HasPrefix(cur.Sort, "(Array") || strings.HasPrefix(key, "V:") || strings.HasPrefix(key, "GV:") {
			ms.scal[key] = true
			changed = true
			continue
		}
		var refs []*Term
		whole := false
		// stores over the header's map, through joins
		visited := map[*Term]bool{}
		suffix := map[*Term][]*Term{}
		var above []*Term
		for b := base; b.Op == "store"; {
			above = append(append([]*Term{}, above...), b.Args[1])
			b = b.Args[0]
			suffix[b] = above
		}
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == base || visited[t] {
				return
			}
			visited[t] = true
			if above, ok := suffix[t]; ok {
				// an overwritten row of the header's own chain
				refs = append(refs, above...)
				return
			}
			switch t.Op {
			case "store":
				if t.Args[1].epoch >= ep {
					whole = true
				} else {
					refs = append(refs, t.Args[1])
				}
				walk(t.Args[0])
			case "ite":
				walk(t.Args[1])
				walk(t.Args[2])
			default:
				whole = true
			}
		}
		walk(cur)
		if whole {
			ms.whole[key] = true
			changed = true
		}
		for _, r := range refs {
			dup := false
			for _, o := range ms.rows[key] {
				if o == r {
					dup = true
				}
			}
			if !dup {
				ms.rows[key] = append(ms.rows[key], r)
				if !whole {
					changed = true
				}
			}
		}
	}
	return changed
}

// havoc builds the state at the loop header of an arbitrary iteration.
func (u *Unit) havocHeader(fr *Frame, l *Loop, st *State, phis []Val, ms *modSet) (*State, []Val) {
	h := st.clone()
	if ms.alloc {
		h.aBase, h.aOff = Fresh("A", SInt), 0
		h.assume(Le(st.alloc(), h.aBase))
	}
	keys := map[string]bool{}
	for k := range ms.whole {
		keys[k] = true
	}
	for k := range ms.rows {
		keys[k] = true
	}
	for k := range ms.scal {
		keys[k] = true
	}
	for _, key := range sortedKeys(keys) {
		m := h.get(u, key, u.init[key].Sort)
		if ms.whole[key] {
			f := Fresh("h:"+key, m.Sort)
			u.mapBound[f] = h.alloc()
			h.set(u, key, f)
			continue
		}
		if ms.scal[key] {
			f := Fresh("h:"+key, m.Sort)
			u.symBound[f] = h.alloc()
			h.set(u, key, f)
			continue
		}
		for _, r := range ms.rows[key] {
			_, vs := arrParts(m.Sort)
			f := Fresh("h:"+key, vs)
			if strings.HasPrefix(vs, "(Array") {
				u.rowBound[f] = h.alloc()
			} else {
				u.symBound[f] = h.alloc()
			}
			m = Store(m, r, f)
		}
		h.set(u, key, m)
	}
	var hp []Val
	for i, p := range phis {
		ph := l.header.Instrs[i].(*ssa.Phi)
		if p.P != nil {
			panic(limit("loop-carried interior pointer " + ph.Name()))
		}
		if _, ok := p.T.Underlying().(*types.Signature); ok {
			panic(limit("loop-carried function value"))
		}
		nm := ph.Comment
		if nm == "" {
			nm = "phi"
		}
		hp = append(hp, freshVal(u, h, nm, p.T))
	}
	return h, hp
}

// runBody executes the loop body once from the header.
func (u *Unit) runBody(fr *Frame, l *Loop, h *State, hp []Val, it *Term, ent *State) []Outcome {
	fr.active = append(fr.active, l)
	oldIts, oldEnts := u.its, u.ents
	oldMits := u.mits
	u.its = append([]*Term{it}, u.its...)
	u.mits = append([]*Val{u.loopIter(fr, l)}, u.mits...)
	u.ents = append([]*State{ent}, u.ents...)
	nf := len(u.frames)
	dep := u.depth
	env := make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		env[k] = v
	}
	saved := fr.env
	fr.env = env
	setPhis(fr, l.header, hp)
	outs := u.runBlock(fr, l.header, len(hp), h.clone(), nil)
	fr.env = saved
	u.its, u.ents, u.mits = oldIts, oldEnts, oldMits
	fr.active = fr.active[:len(fr.active)-1]
	u.frames = u.frames[:nf]
	u.depth = dep
	return outs
}

func (u *Unit) callString() string {
	var sb strings.Builder
	for _, f := range u.frames {
		fmt.Fprintf(&sb, "%s@%d/", f.fn.Name(), f.site)
	}
	return sb.String()
}

func (u *Unit) enterLoop(fr *Frame, l *Loop, phis []Val, st *State, stop *ssa.BasicBlock) []Outcome {
	symEpoch++
	ep := symEpoch
	ms := &modSet{map[string]bool{}, map[string][]*Term{}, map[string]bool{}, false}
	it := Fresh("it", SInt)

	savedEmit, savedConds := u.emit, u.condLog
	var conds []*Term
	var h *State
	var hp []Val
	var outs []Outcome
	for pass := 0; ; pass++ {
		if pass > 12 {
			panic(limit("modified set does not stabilise"))
		}
		h, hp = u.havocHeader(fr, l, st, phis, ms)
		h.assume(Le(IntL(0), it))
		u.emit = false
		u.discover++
		u.condLog = &conds
		conds = nil
		outs = u.runBody(fr, l, h, hp, it, st)
		u.discover--
		u.emit = savedEmit
		changed := false
		for _, o := range outs {
			if o.k == oBack && o.loop == l {
				if ms.update(u, h, o.st, ep) {
					changed = true
				}
				for i := range phis {
					if phis[i].T != nil && isSliceT(phis[i].T) {
						continue
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	u.condLog = savedConds
	if u.condLog != nil {
		*u.condLog = append(*u.condLog, conds...)
	}
	if u.discover > 0 {
		return u.finishLoop(fr, l, outs, stop)
	}

	// candidates
	ord := u.loopOrd[l.header]
	u.loopOrd[l.header]++
	ckey := fmt.Sprintf("%s|%p|%d", u.callString(), l.header, ord)
	cands := u.candidates(fr, l, st, phis, h, hp, ms, conds, ep)
	dropped := u.dropCache[ckey]
	if dropped == nil {
		dropped = map[string]bool{}
		u.dropCache[ckey] = dropped
	}
	var live []*cand
	seen := map[string]bool{}
	hkey := u.hintKey(fr, l)
	hint := u.hints[hkey]
	hinted := hint != nil && hintsOn
	for _, c := range cands {
		if dropped[c.key] || seen[c.key] || hinted && !hint[u.hintLabel(c)] {
			continue
		}
		seen[c.key] = true
		live = append(live, c)
	}
	// entry
	zero := IntL(0)
	{
		var goals []*Term
		var idx []*cand
		for _, c := range live {
			c.alive = true
			t := u.candTerm(c, st, phis, zero, st, 0)
			if t == nil {
				c.alive = false
				dropped[c.key] = true
				continue
			}
			goals = append(goals, t)
			idx = append(idx, c)
		}
		ok := u.proveMany(st, goals, idx, hinted)
		for i, c := range idx {
			if !ok[i] {
				c.alive = false
				dropped[c.key] = true
				u.dropNote(l, c, "entry", st, goals[i])
			}
		}
	}
	live = filterAlive(live)
	for round := 0; ; round++ {
		hh := h.clone()
		// header state: fresh set of facts each round
		for _, c := range live {
			t := u.candTerm(c, hh, hp, it, st, 1)
			if t == nil {
				c.alive = false
				dropped[c.key] = true
				continue
			}
			hh.assume(t)
		}
		live = filterAlive(live)
		u.emit = false
		u.condLog = nil
		saveOrd := u.loopOrd
		u.loopOrd = map[*ssa.BasicBlock]int{}
		outs = u.runBody(fr, l, hh, hp, it, st)
		u.loopOrd = saveOrd
		u.emit = savedEmit
		u.condLog = savedConds
		drop := false
		it1 := Add(it, IntL(1))
		for _, o := range outs {
			if o.k != oBack || o.loop != l {
				continue
			}
			var goals []*Term
			var idx []*cand
			for _, c := range live {
				if !c.alive {
					continue
				}
				t := u.candTerm(c, o.st, o.phis, it1, st, 1)
				if t == nil {
					c.alive = false
					dropped[c.key] = true
					drop = true
					continue
				}
				goals = append(goals, t)
				idx = append(idx, c)
			}
			ok := u.proveMany(o.st, goals, idx, round > 0 || hinted)
			for i, c := range idx {
				if !ok[i] {
					c.alive = false
					dropped[c.key] = true
					drop = true
					u.dropNote(l, c, "step", o.st, goals[i])
				}
			}
		}
		live = filterAlive(live)
		if !drop {
			break
		}
		if round > 12 {
			panic(limit("invariant inference does not converge"))
		}
	}
	if u.emit {
		if u.kept[hkey] == nil {
			u.kept[hkey] = map[string]bool{}
		}
		for _, c := range live {
			u.kept[hkey][u.hintLabel(c)] = true
		}
	}
	if debugExec {
		fmt.Fprintf(os.Stderr, "loop %s in %s: %d candidates kept:\n", l.header, fr.fn, len(live))
		for _, c := range live {
			fmt.Fprintf(os.Stderr, "   %s\n", c.key)
		}
	}
	if !u.emit {
		return u.finishLoop(fr, l, outs, stop)
	}
	// final pass with obligations
	u.loopInvN += len(live)
	var autoT []*Term
	pos := u.posOf(loopPos(l))
	entrySt := st.clone()
	for _, c := range live {
		t := u.candTerm(c, entrySt, phis, zero, st, 0)
		if c.user != nil {
			u.oblige(entrySt, "inv-init", c.key, pos, t)
			u.invHit[c.user] = true
		} else {
			autoT = append(autoT, t)
		}
	}
	u.oblige(entrySt, "inv-init", fmt.Sprintf("%d generated invariants", len(autoT)), pos, And(autoT...))
	hh := h.clone()
	for _, c := range live {
		hh.assume(u.candTerm(c, hh, hp, it, st, 1))
	}
	saveOrd := u.loopOrd
	u.loopOrd = map[*ssa.BasicBlock]int{}
	outs = u.runBody(fr, l, hh, hp, it, st)
	u.loopOrd = saveOrd
	it1 := Add(it, IntL(1))
	for _, o := range outs {
		if o.k != oBack || o.loop != l {
			continue
		}
		var autoT []*Term
		bs := o.st.clone()
		for _, c := range live {
			t := u.candTerm(c, bs, o.phis, it1, st, 1)
			if c.user != nil {
				u.obligeNoAssume(bs, "inv-step", c.key, pos, t)
			} else {
				autoT = append(autoT, t)
			}
		}
		u.obligeNoAssume(bs, "inv-step", fmt.Sprintf("%d generated invariants", len(autoT)), pos, And(autoT...))
	}
	return u.finishLoop(fr, l, outs, stop)
}

func (u *Unit) obligeNoAssume(st *State, kind, label, pos string, goal *Term) {
	s := st.clone()
	u.oblige(s, kind, label, pos, goal)
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (u *Unit) dropNote(l *Loop, c *cand, when string, st *State, t *Term) {
	if debugExec && (c.user != nil || os.Getenv("GOVC_TRACE") == "2") {
		fmt.Fprintf(os.Stderr, "  drop (%s) %s in %s\n", when, c.key, l.header.Parent())
		if os.Getenv("GOVC_TRACE") == "3" {
			fmt.Fprintf(os.Stderr, "     goal %s\n", t)
		}
	}
}

func filterAlive(cs []*cand) []*cand {
	var out []*cand
	for _, c := range cs {
		if c.alive {
			out = append(out, c)
		}
	}
	return out
}

func (u *Unit) finishLoop(fr *Frame, l *Loop, outs []Outcome, stop *ssa.BasicBlock) []Outcome {
	var res []Outcome
	for _, o := range outs {
		switch {
		case o.k == oBack && o.loop == l:
		case o.k == oExit && o.loop == l:
			saved := fr.env
			fr.env = o.env
			res = append(res, u.arrive(fr, o.from, o.to, o.phis, o.st, stop)...)
			fr.env = saved
		default:
			res = append(res, o)
		}
	}
	return res
}

// candTerm evaluates a candidate; nil when it does not make sense.
func (u *Unit) candTerm(c *cand, st *State, phis []Val, it *Term, ent *State, depth int) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, toolLimit:
				if debugExec {
					fmt.Fprintf(os.Stderr, "  candidate %s: %v\n", c.key, r)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st, phis, it)
}

func (u *Unit) proveMany(st *State, goals []*Term, cs []*cand, tryAll bool) []bool {
	ok := make([]bool, len(goals))
	var rest []int
	fs := map[*Term]bool{}
	for _, f := range st.facts() {
		fs[f] = true
	}
	for i, g := range goals {
		if g == True || fs[g] {
			ok[i] = true
			continue
		}
		if g == False {
			continue
		}
		rest = append(rest, i)
	}
	if len(rest) == 0 {
		return ok
	}
	if len(rest) > 1 && tryAll {
		var all []*Term
		for _, i := range rest {
			all = append(all, goals[i])
		}
		conj := And(all...)
		if conj != False {
			t0 := time.Now()
			res := Prove(u.collectFacts(st, conj), conj, 1500, 1500)
			if debugTime {
				fmt.Fprintf(os.Stderr, "    conj of %d: %v %d ms\n", len(rest), res.OK, time.Since(t0).Milliseconds())
			}
			if res.OK {
				for _, i := range rest {
					ok[i] = true
				}
				return ok
			}
		}
	}
	type res struct {
		i int
		r bool
	}
	ch := make(chan res, len(rest))
	for _, i := range rest {
		j := prepare(u.collectFacts(st, goals[i]), goals[i])
		qf, q := 800, 1200
		if cs != nil && cs[i].user != nil {
			qf, q = 3000, u.invMs
		}
		quick := cs != nil && cs[i].user == nil
		go func(i int, j *job) { ch <- res{i, j.solve2(qf, q, quick).OK} }(i, j)
	}
	t0 := time.Now()
	for range rest {
		r := <-ch
		ok[r.i] = r.r
		if debugTime && time.Since(t0) > 700*time.Millisecond {
			fmt.Fprintf(os.Stderr, "    slow cand %v %v %s\n", r.r, time.Since(t0).Milliseconds(), cs[r.i].key)
		}
	}
	return ok
}

// ---- candidates ----

func (u *Unit) candidates(fr *Frame, l *Loop, st *State, phis []Val, h *State, hp []Val, ms *modSet, conds []*Term, ep int) []*cand {
	var out []*cand
	add := func(key string, f func(st *State, phis []Val, it *Term) *Term) {
		out = append(out, &cand{key: key, f: f})
	}
	// loop variables
	var vars []*lvar
	for i := range phis {
		i := i
		ph := l.header.Instrs[i].(*ssa.Phi)
		vars = append(vars, &lvar{name: fmt.Sprintf("phi%d.%s", i, ph.Comment), typ: phis[i].T, entry: phis[i], head: hp[i],
			get: func(st *State, phis []Val) Val { return phis[i] }})
	}
	type locKey struct {
		pre string
		ref *Term
	}
	seenLoc := map[locKey]bool{}
	addLoc := func(key string, ref *Term) {
		lf, ok := u.keyLeaf[key]
		if !ok {
			return
		}
		pre := key
		if i := strings.LastIndexByte(key, '#'); i >= 0 {
			pre = key[:i]
		}
		k := locKey{pre, ref}
		if seenLoc[k] {
			return
		}
		seenLoc[k] = true
		p := &Ptr{Pre: pre, Base: ref, T: lf.Typ}
		v := &lvar{name: fmt.Sprintf("%s@%d", pre, idOf(ref)), typ: lf.Typ, mem: true}
		v.get = func(st *State, _ []Val) Val { return u.load(st, p) }
		v.entry, v.head = u.load(st, p), u.load(h, p)
		vars = append(vars, v)
	}
	for _, key := range sortedKeys(ms.rows) {
		if ms.whole[key] {
			continue
		}
		_, vs := arrParts(u.init[key].Sort)
		if strings.HasPrefix(vs, "(Array") || strings.HasPrefix(key, "G:") || strings.HasPrefix(key, "M") {
			continue
		}
		for _, r := range ms.rows[key] {
			addLoc(key, r)
		}
	}
	for _, key := range sortedKeys(ms.scal) {
		if strings.HasPrefix(key, "V:") {
			addLoc(key, nil)
		}
	}
	if li := u.loopIter(fr, l); li != nil {
		r := li.L[0]
		add("visited keys counted", func(st *State, phis []Val, it *Term) *Term { return Eq(u.gget(st, "itcnt", r, SInt), it) })
	}
	u.userCands(fr, l, st, phis, vars, &out)
	if u.c != nil && u.c.NoAuto["all"] {
		return out
	}
	// integer variables
	type ivar struct {
		name        string
		entry, head *Term
		get         func(st *State, phis []Val, it *Term) *Term
	}
	var ivs []ivar
	for _, v := range vars {
		v := v
		if len(v.head.L) == 1 && v.head.L[0].Sort == SInt && v.typ != nil && isIntT(v.typ) {
			iv := ivar{v.name, v.entry.term(), v.head.term(), func(st *State, phis []Val, it *Term) *Term { return v.get(st, phis).term() }}
			ivs = append(ivs, iv)
			e := iv.entry
			add(v.name+"==entry+it", func(st *State, phis []Val, it *Term) *Term { return Eq(iv.get(st, phis, it), Add(e, it)) })
			add(v.name+"==entry-it", func(st *State, phis []Val, it *Term) *Term { return Eq(iv.get(st, phis, it), Sub(e, it)) })
			add(v.name+">=entry", func(st *State, phis []Val, it *Term) *Term { return Le(e, iv.get(st, phis, it)) })
			add(v.name+"<=entry", func(st *State, phis []Val, it *Term) *Term { return Le(iv.get(st, phis, it), e) })
			add(v.name+"<=entry+it", func(st *State, phis []Val, it *Term) *Term { return Le(iv.get(st, phis, it), Add(e, it)) })
		}
	}
	for i := range ivs {
		for j := range ivs {
			if i < j {
				a, b := ivs[i], ivs[j]
				d := Sub(a.entry, b.entry)
				add(fmt.Sprintf("%s-%s const", a.name, b.name), func(st *State, phis []Val, it *Term) *Term {
					return Eq(Sub(a.get(st, phis, it), b.get(st, phis, it)), d)
				})
				s := Add(a.entry, b.entry)
				add(fmt.Sprintf("%s+%s const", a.name, b.name), func(st *State, phis []Val, it *Term) *Term {
					return Eq(Add(a.get(st, phis, it), b.get(st, phis, it)), s)
				})
				add(fmt.Sprintf("%s<=%s", a.name, b.name), func(st *State, phis []Val, it *Term) *Term {
					return Le(a.get(st, phis, it), b.get(st, phis, it))
				})
				add(fmt.Sprintf("%s>=%s", a.name, b.name), func(st *State, phis []Val, it *Term) *Term {
					return Le(b.get(st, phis, it), a.get(st, phis, it))
				})
			}
		}
	}
	// bounds from the conditions met in the body
	type bkey struct {
		v string
		t *Term
	}
	seenB := map[bkey]bool{}
	for _, c := range conds {
		for _, at := range atomsOf(c) {
			if (at.Op != "<=" && at.Op != "=") || at.Args[0].Sort != SInt {
				continue
			}
			d := toLin(Sub(at.Args[0], at.Args[1])) // d <= 0 or d = 0
			for _, iv := range ivs {
				co, ok := d.m[iv.head]
				if !ok || !(co.IsInt() && co.Num().IsInt64() && (co.Num().Int64() == 1 || co.Num().Int64() == -1)) {
					continue
				}
				rest := &lin{c: new(big.Rat).Set(d.c), m: map[*Term]*big.Rat{}, s: SInt}
				old := true
				for k, v := range d.m {
					if k == iv.head {
						continue
					}
					if k.epoch >= ep {
						old = false
					}
					rest.m[k] = v
				}
				if !old {
					// a loop-carried slice length is fine as a bound at the time
					continue
				}
				r := rest.term()
				if co.Sign() > 0 {
					r = Neg(r) // x <= r
				}
				for dlt := int64(-1); dlt <= 1; dlt++ {
					b := Add(r, IntL(dlt))
					if seenB[bkey{iv.name, b}] {
						continue
					}
					seenB[bkey{iv.name, b}] = true
					iv := iv
					add(fmt.Sprintf("%s<=#%d", iv.name, b.ID), func(st *State, phis []Val, it *Term) *Term { return Le(iv.get(st, phis, it), b) })
					add(fmt.Sprintf("%s>=#%d", iv.name, b.ID), func(st *State, phis []Val, it *Term) *Term { return Le(b, iv.get(st, phis, it)) })
				}
			}
		}
	}
	// slices
	A := st.alloc()
	for _, v := range vars {
		v := v
		if len(v.head.L) != 4 || !isSliceT(v.typ) {
			if v.typ != nil && len(v.head.L) == 1 && v.head.P == nil {
				if _, ok := v.typ.Underlying().(*types.Pointer); ok {
					add(v.name+" fresh or nil", func(st *State, phis []Val, it *Term) *Term {
						p := v.get(st, phis).term()
						return Or(Eq(p, IntL(0)), Le(A, p))
					})
					add(v.name+" nonnil", func(st *State, phis []Val, it *Term) *Term {
						return Not(Eq(v.get(st, phis).term(), IntL(0)))
					})
				}
				if _, ok := v.typ.Underlying().(*types.Map); ok {
					e := v.entry.term()
					add(v.name+" same map", func(st *State, phis []Val, it *Term) *Term { return Eq(v.get(st, phis).term(), e) })
				}
			}
			continue
		}
		e := v.entry
		add(v.name+" ref same", func(st *State, phis []Val, it *Term) *Term { return Eq(v.get(st, phis).L[0], e.L[0]) })
		add(v.name+" ref fresh or empty", func(st *State, phis []Val, it *Term) *Term {
			x := v.get(st, phis)
			return Or(Le(A, x.L[0]), Eq(x.L[3], IntL(0)))
		})
		add(v.name+" ref fresh or same", func(st *State, phis []Val, it *Term) *Term {
			x := v.get(st, phis)
			return Or(Le(A, x.L[0]), Eq(x.L[0], e.L[0]))
		})
		add(v.name+" ref new in function or empty", func(st *State, phis []Val, it *Term) *Term {
			x := v.get(st, phis)
			return Or(Le(u.a0, x.L[0]), Eq(x.L[3], IntL(0)))
		})
		add(v.name+" off same", func(st *State, phis []Val, it *Term) *Term { return Eq(v.get(st, phis).L[1], e.L[1]) })
		add(v.name+" len==entry+it", func(st *State, phis []Val, it *Term) *Term { return Eq(v.get(st, phis).L[2], Add(e.L[2], it)) })
		add(v.name+" len==entry-it", func(st *State, phis []Val, it *Term) *Term { return Eq(v.get(st, phis).L[2], Sub(e.L[2], it)) })
		add(v.name+" len>=entry", func(st *State, phis []Val, it *Term) *Term { return Le(e.L[2], v.get(st, phis).L[2]) })
		add(v.name+" len<=entry+it", func(st *State, phis []Val, it *Term) *Term { return Le(v.get(st, phis).L[2], Add(e.L[2], it)) })
		add(v.name+" len<=entry", func(st *State, phis []Val, it *Term) *Term { return Le(v.get(st, phis).L[2], e.L[2]) })
		add(v.name+" len same", func(st *State, phis []Val, it *Term) *Term { return Eq(v.get(st, phis).L[2], e.L[2]) })
		add(v.name+" off+len same", func(st *State, phis []Val, it *Term) *Term {
			x := v.get(st, phis)
			return Eq(Add(x.L[1], x.L[2]), Add(e.L[1], e.L[2]))
		})
		for _, iv := range ivs {
			iv := iv
			add(fmt.Sprintf("%s<len %s", iv.name, v.name), func(st *State, phis []Val, it *Term) *Term {
				return Le(iv.get(st, phis, it), v.get(st, phis).L[2])
			})
			add(fmt.Sprintf("%s==len %s", iv.name, v.name), func(st *State, phis []Val, it *Term) *Term {
				return Eq(iv.get(st, phis, it), v.get(st, phis).L[2])
			})
		}
	}
	// frames of wholly havoced maps
	for _, key := range sortedKeys(ms.whole) {
		key := key
		so := u.init[key].Sort
		ks, _ := arrParts(so)
		if ks != SInt {
			continue
		}
		e := st.get(u, key, so)
		ex := append([]*Term{}, ms.rows[key]...)
		for _, v := range vars {
			if len(v.entry.L) == 4 && isSliceT(v.typ) && strings.HasPrefix(key, "E:"+typeKey(v.typ.Underlying().(*types.Slice).Elem())) {
				dup := false
				for _, x := range ex {
					dup = dup || x == v.entry.L[0]
				}
				if !dup {
					ex = append(ex, v.entry.L[0])
				}
			}
		}
		q := Symb("fr.r", SInt)
		mk := func(cur *Term, bound *Term, ex []*Term, base *Term) *Term {
			cs := []*Term{Lt(q, bound), Le(IntL(0), q)}
			for _, x := range ex {
				cs = append(cs, Not(Eq(q, x)))
			}
			return Forall([]*Term{q}, Imp(And(cs...), Eq(Select(cur, q), Select(base, q))))
		}
		add("frame "+key, func(st *State, phis []Val, it *Term) *Term { return mk(st.get(u, key, so), A, ex, e) })
		if A != u.a0 {
			e0 := u.entry.get(u, key, so)
			var ex0 []*Term
			for _, x := range ex {
				ex0 = append(ex0, x)
			}
			add("frame0 "+key, func(st *State, phis []Val, it *Term) *Term { return mk(st.get(u, key, so), u.a0, ex0, e0) })
			add("frame00 "+key, func(st *State, phis []Val, it *Term) *Term { return mk(st.get(u, key, so), u.a0, ex0, e) })
		}
		// a row of a slice in scope that grows in place keeps its prefix
		for _, v := range vars {
			v := v
			if len(v.entry.L) == 4 && isSliceT(v.typ) && strings.HasPrefix(key, "E:"+typeKey(v.typ.Underlying().(*types.Slice).Elem())) {
				ee := v.entry
				j := Symb("fr.j", SInt)
				add("prefix of "+v.name+" "+key, func(st *State, phis []Val, it *Term) *Term {
					x := v.get(st, phis)
					cur := Select(st.get(u, key, so), x.L[0])
					return Forall([]*Term{j}, Imp(And(Le(IntL(0), j), Lt(j, ee.L[2])), Eq(Select(cur, Add(x.L[1], j)), Select(Select(e, ee.L[0]), Add(ee.L[1], j)))))
				})
			}
		}
	}
	// element rows written in place
	sl := u.slicesInScope(fr)
	for _, key := range sortedKeys(ms.rows) {
		if ms.whole[key] || !strings.HasPrefix(key, "E:") {
			continue
		}
		key := key
		so := u.init[key].Sort
		_, rowSort := arrParts(so)
		_ = rowSort
		for _, r := range ms.rows[key] {
			r := r
			e := Select(st.get(u, key, so), r)
			j := Symb("fr.j", SInt)
			var here []Val
			for _, s := range sl {
				if s.L[0] == r {
					here = append(here, s)
				}
			}
			outside := func(cur *Term, rs [][2]*Term) *Term {
				var cs []*Term
				for _, x := range rs {
					cs = append(cs, Not(And(Le(x[0], j), Lt(j, x[1]))))
				}
				return Forall([]*Term{j}, Imp(And(cs...), Eq(Select(cur, j), Select(e, j))))
			}
			cur := func(st *State) *Term { return Select(st.get(u, key, so), r) }
			// several slices written in place whose backing rows may coincide
			var wr []Val
			for _, s := range sl {
				for _, x := range ms.rows[key] {
					if s.L[0] == x {
						wr = append(wr, s)
						break
					}
				}
			}
			if len(ms.rows[key]) > 1 && len(wr) <= 8 {
				add(fmt.Sprintf("row %s@%d outside all written", key, idOf(r)), func(st *State, phis []Val, it *Term) *Term {
					var cs []*Term
					for _, s := range wr {
						cs = append(cs, Not(And(Eq(s.L[0], r), Le(s.L[1], j), Lt(j, Add(s.L[1], s.L[2])))))
					}
					return Forall([]*Term{j}, Imp(And(cs...), Eq(Select(cur(st), j), Select(e, j))))
				})
			}
			for i, s := range here {
				s := s
				add(fmt.Sprintf("row %s@%d outside #%d.%d", key, idOf(r), s.L[1].ID, s.L[2].ID), func(st *State, phis []Val, it *Term) *Term {
					return outside(cur(st), [][2]*Term{{s.L[1], Add(s.L[1], s.L[2])}})
				})
				if len(ms.rows[key]) > 1 && len(here) == 1 {
					continue
				}
				for _, iv := range ivs {
					iv := iv
					add(fmt.Sprintf("row %s@%d outside #%d..%s", key, idOf(r), s.L[1].ID, iv.name), func(st *State, phis []Val, it *Term) *Term {
						return outside(cur(st), [][2]*Term{{s.L[1], Add(s.L[1], iv.get(st, phis, it))}})
					})
					add(fmt.Sprintf("row %s@%d outside %s..#%d", key, idOf(r), iv.name, s.L[1].ID), func(st *State, phis []Val, it *Term) *Term {
						return outside(cur(st), [][2]*Term{{Add(s.L[1], iv.get(st, phis, it)), Add(s.L[1], s.L[2])}})
					})
				}
				add(fmt.Sprintf("row %s@%d outside #%d+it", key, idOf(r), s.L[1].ID), func(st *State, phis []Val, it *Term) *Term {
					return outside(cur(st), [][2]*Term{{s.L[1], Add(s.L[1], it)}})
				})
				for k, s2 := range here {
					if k <= i || k > 12 {
						continue
					}
					s2 := s2
					add(fmt.Sprintf("row %s@%d outside #%d.%d,#%d.%d", key, idOf(r), s.L[1].ID, s.L[2].ID, s2.L[1].ID, s2.L[2].ID), func(st *State, phis []Val, it *Term) *Term {
						return outside(cur(st), [][2]*Term{{s.L[1], Add(s.L[1], s.L[2])}, {s2.L[1], Add(s2.L[1], s2.L[2])}})
					})
					add(fmt.Sprintf("row %s@%d outside #%d+it,#%d+it", key, idOf(r), s.L[1].ID, s2.L[1].ID), func(st *State, phis []Val, it *Term) *Term {
						return outside(cur(st), [][2]*Term{{s.L[1], Add(s.L[1], it)}, {s2.L[1], Add(s2.L[1], it)}})
					})
				}
			}
		}
	}
	return out
}

func idOf(t *Term) int {
	if t == nil {
		return 0
	}
	return t.ID
}

func atomsOf(t *Term) []*Term {
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case "and", "or", "not", "=>":
			for _, a := range t.Args {
				walk(a)
			}
		case "<=", "=":
			out = append(out, t)
		}
	}
	walk(t)
	return out
}

// slicesInScope lists distinct slice values available in the active frames and contract lets.
func (u *Unit) slicesInScope(fr *Frame) []Val {
	var out []Val
	seen := map[string]bool{}
	add := func(v Val) {
		if v.T == nil || v.P != nil || len(v.L) != 4 || !isSliceT(v.T) {
			return
		}
		k := fmt.Sprintf("%d.%d.%d", v.L[0].ID, v.L[1].ID, v.L[2].ID)
		if !seen[k] && len(out) < 24 {
			seen[k] = true
			out = append(out, v)
		}
	}
	for _, n := range sortedKeys(u.lets) {
		add(u.lets[n])
	}
	for _, n := range sortedKeys(u.params) {
		add(u.params[n])
	}
	for f := fr; f != nil; f = f.parent {
		for _, v := range envVals(f) {
			add(v)
		}
	}
	return out
}

// envVals lists the frame's values in a stable order.
func envVals(f *Frame) []Val {
	type nv struct {
		n string
		k int
		v Val
	}
	var xs []nv
	for k, v := range f.env {
		xs = append(xs, nv{k.Name(), int(k.Pos()), v})
	}
	sort.Slice(xs, func(i, j int) bool {
		if xs[i].n != xs[j].n {
			return xs[i].n < xs[j].n
		}
		return xs[i].k < xs[j].k
	})
	var out []Val
	for _, x := range xs {
		out = append(out, x.v)
	}
	return out
}

// loopIter is the map iterator a loop advances in its header, if any.
func (u *Unit) loopIter(fr *Frame, l *Loop) *Val {
	for _, in := range l.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if v, ok := fr.env[nx.Iter]; ok {
				return &v
			}
		}
	}
	return nil
}

// userCands instantiates the contract's invariant templates.
func (u *Unit) userCands(fr *Frame, l *Loop, st *State, phis []Val, vars []*lvar, out *[]*cand) {
	if u.c == nil {
		return
	}
	mit := u.loopIter(fr, l)
	for ci := range u.c.Invs {
		cl := &u.c.Invs[ci]
		choices := make([][]*lvar, len(cl.Roles))
		n := 1
		for i, r := range cl.Roles {
			choices[i] = u.roleChoices(r, fr, st, vars)
			n *= len(choices[i])
		}
		if n == 0 {
			continue
		}
		if n > 240 {
			u.notes[fmt.Sprintf("invariant %s: %d role bindings, first 240 tried", cl.Pos, n)] = true
			n = 240
		}
		for k := 0; k < n; k++ {
			x := k
			bind := make([]*lvar, len(cl.Roles))
			dup := false
			for i := range cl.Roles {
				bind[i] = choices[i][x%len(choices[i])]
				x /= len(choices[i])
				for j := 0; j < i; j++ {
					if bind[j] == bind[i] {
						dup = true
					}
				}
			}
			if dup {
				continue
			}
			key := cl.Pos
			for i, b := range bind {
				key += " " + cl.Roles[i].Name + "=" + b.name
			}
			ent := st
			*out = append(*out, &cand{key: key, user: cl, f: func(s *State, phis2 []Val, it *Term) *Term {
				sc := u.scope(s)
				sc.ent = ent
				sc.its = append([]*Term{it}, u.its...)
				sc.mits = append([]*Val{mit}, u.mits...)
				sc.entNames = map[string]Val{}
				for i, b := range bind {
					sc.names[cl.Roles[i].Name] = b.get(s, phis2)
					sc.entNames[cl.Roles[i].Name] = b.entry
				}
				return sc.Bool(cl.E)
			}})
		}
	}
}

func (u *Unit) roleChoices(r Param, fr *Frame, st *State, vars []*lvar) []*lvar {
	var out []*lvar
	seen := map[string]bool{}
	want := u.w.goType(r.Type)
	match := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if want == nil {
			panic(specErr{"unknown role type " + r.Type})
		}
		return types.Identical(deAlias(t), deAlias(want)) || types.Identical(t.Underlying(), want.Underlying()) && (isSliceT(t) || isMapT(t))
	}
	addv := func(v *lvar) {
		k := ""
		for _, t := range v.entry.leaves() {
			k += fmt.Sprintf("%d,", t.ID)
		}
		if v.head.L != nil || v.head.P != nil {
			k += "h"
			for _, t := range v.head.leaves() {
				k += fmt.Sprintf("%d,", t.ID)
			}
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	for _, v := range vars {
		if match(v.typ) {
			addv(v)
		}
	}
	// values of enclosing loops and, for reference types, anything in scope
	for f := fr; f != nil; f = f.parent {
		for _, al := range f.active {
			for _, in := range al.header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if v, ok := f.env[ph]; ok && match(ph.Type()) {
					v := v
					addv(&lvar{name: "outer." + ph.Comment + "." + ph.Name(), typ: ph.Type(), entry: v, get: func(*State, []Val) Val { return v }})
				}
			}
		}
	}
	if want != nil {
		switch want.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Chan, *types.Interface:
			for f := fr; f != nil; f = f.parent {
				for _, v := range envVals(f) {
					if v.P == nil && v.T != nil && len(v.Tup) == 0 && v.L != nil && match(v.T) && !(isMapT(v.T) && len(v.L) != 1) {
						v := v
						addv(&lvar{name: fmt.Sprintf("val%d", v.L[0].ID), typ: v.T, entry: v, get: func(*State, []Val) Val { return v }})
					}
				}
			}
		}
	}
	for _, c := range st.cells {
		c := c
		p := toPtr(c)
		if match(p.T) {
			addv(&lvar{name: fmt.Sprintf("cell%d", p.Base.ID), typ: p.T, entry: u.load(st, p), get: func(s *State, _ []Val) Val { return u.load(s, p) }})
		}
	}
	if want != nil && isIntT(want) {
		for i, it := range u.its {
			it := it
			addv(&lvar{name: fmt.Sprintf("it%d", i+1), typ: want, entry: intVal(it), get: func(*State, []Val) Val { return intVal(it) }})
		}
	}
	return out
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// scope builds the contract scope for the current unit at state st.
func (u *Unit) scope(st *State) *Scope {
	sc := &Scope{u: u, st: st, old: u.entry, names: make(map[string]Val, len(u.scopeNames)+4), its: u.its, mits: u.mits}
	for k, v := range u.scopeNames {
		sc.names[k] = v
	}
	if len(u.ents) > 0 {
		sc.ent = u.ents[0]
	}
	return sc
}

// Hints name the candidates that survived on an earlier run of the same unit. They only
// narrow the search for invariants: what is kept is proved like any other candidate.
var hintsOn = os.Getenv("GOVC_HINTS") != "0"

var digits = regexp.MustCompile(`[0-9]+`)

func (u *Unit) hintKey(fr *Frame, l *Loop) string {
	n := 0
	for _, b := range fr.fn.Blocks {
		if b == l.header {
			break
		}
		if fr.loops.byHeader[b] != nil {
			n++
		}
	}
	return fmt.Sprintf("%s|%d", fr.fn, n)
}

func (u *Unit) hintLabel(c *cand) string {
	if c.user == nil {
		k := idRef.ReplaceAllStringFunc(c.key, func(m string) string {
			n := 0
			fmt.Sscan(m[1:], &n)
			if t := termByID[n]; t != nil {
				return m[:1] + hashLetters(t)
			}
			return m
		})
		return digits.ReplaceAllString(k, "0")
	}
	return u.w.specLine(c.user.Pos) + " ::" + digits.ReplaceAllString(strings.TrimPrefix(c.key, c.user.Pos), "0")
}

var idRef = regexp.MustCompile(`[#@][0-9]+`)

// hashLetters is a name for a term that does not depend on the order terms were created in.
func hashLetters(t *Term) string {
	h := shapeHash(t)
	var b [7]byte
	for i := range b {
		b[i] = byte('a' + h%26)
		h /= 26
	}
	return string(b[:])
}

var shapeMemo = map[*Term]uint64{}

func shapeHash(t *Term) uint64 {
	if h, ok := shapeMemo[t]; ok {
		return h
	}
	f := fnv.New64a()
	f.Write([]byte(digits.ReplaceAllString(t.Op, "0")))
	f.Write([]byte(t.Sort))
	if t.Lit != nil {
		f.Write([]byte(t.Lit.String()))
	}
	for _, a := range t.Args {
		fmt.Fprintf(f, ",%x", shapeHash(a))
	}
	h := f.Sum64()
	shapeMemo[t] = h
	return h
}

var specText = map[string][]string{}

func (w *World) specLine(pos string) string {
	i := strings.LastIndexByte(pos, ':')
	if i < 0 {
		return pos
	}
	f := pos[:i]
	if _, ok := specText[f]; !ok {
		b, _ := os.ReadFile(f)
		specText[f] = strings.Split(string(b), "\n")
	}
	n := 0
	fmt.Sscan(pos[i+1:], &n)
	if n >= 1 && n <= len(specText[f]) {
		return strings.TrimSpace(specText[f][n-1])
	}
	return pos
}

package main

// Calls: builtins, contracts, inlining, hooks, goroutines and channels.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) callArgs(fr *Frame, c *ssa.CallCommon) (Val, []Val) {
	var fn Val
	if c.IsInvoke() {
		fn = u.value(fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fn = u.value(fr, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, u.value(fr, a))
	}
	return fn, args
}

func (u *Unit) callCommon(fr *Frame, c *ssa.CallCommon, fn Val, args []Val, st *State, pos token.Pos) []callRes {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, b.Name(), c, args, st, pos)
	}
	if c.IsInvoke() {
		return u.invoke(fr, c, fn, args, st, pos)
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Val
		if fv := u.lookupFunc(fn); fv != nil {
			binds = fv.Binds
		}
		return u.callFn(f, binds, args, st, pos)
	}
	fv := u.lookupFunc(u.resolve(st, fn))
	if fv == nil {
		if n, ok := fn.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			name := n.Obj().Pkg().Path() + "." + n.Obj().Name()
			if fc := u.w.functypes[name]; fc != nil {
				all := append([]Val{fn}, args...)
				u.assumptions["every "+n.Obj().Name()+" value behaves as its functype contract says"] = true
				return u.withHooks("functype:"+name, all, st, pos, func(st *State) []callRes {
					return u.applyContract(fc, fn.T.Underlying().(*types.Signature), all, st, u.posOf(pos), true)
				})
			}
		}
		panic(limit("call of an unknown function value " + fn.term().String()))
	}
	if fv.Fn == nil {
		oc := u.opaque[fv.Spec]
		if oc == nil {
			panic(limit("function parameter " + fv.Spec + " has no contract"))
		}
		return u.withHooks("param:"+fv.Spec, args, st, pos, func(st *State) []callRes {
			return u.applyContract(oc, fv.Sig, args, st, u.posOf(pos), true)
		})
	}
	return u.callFn(fv.Fn, fv.Binds, args, st, pos)
}

func (u *Unit) isOpt(v Val) bool { return false }

// resolve replaces a symbolic leaf by the literal a path fact equates it with.
func (u *Unit) resolve(st *State, v Val) Val {
	if v.P != nil || len(v.L) == 0 || v.L[0].isLit() {
		return v
	}
	if t := u.litOfTerm(st, v.L[0]); t != nil {
		r := v
		r.L = append([]*Term{t}, v.L[1:]...)
		return r
	}
	return v
}
func (u *Unit) litOfTerm(st *State, t *Term) *Term {
	chk := func(f *Term) *Term {
		if f.Op == "=" {
			if f.Args[0] == t && f.Args[1].isLit() {
				return f.Args[1]
			}
			if f.Args[1] == t && f.Args[0].isLit() {
				return f.Args[0]
			}
		}
		return nil
	}
	for f := st.pc; f != nil; f = f.prev {
		if r := chk(f.t); r != nil {
			return r
		}
	}
	for _, f := range u.entryFacts {
		if r := chk(f); r != nil {
			return r
		}
	}
	return nil
}

func (u *Unit) invoke(fr *Frame, c *ssa.CallCommon, recv Val, args []Val, st *State, pos token.Pos) []callRes {
	it := c.Value.Type()
	u.oblige(st, "safety", "nil interface call "+c.Method.Name(), u.posOf(pos), Not(Eq(recv.L[0], IntL(0))))
	recv = u.resolve(st, recv)
	if recv.L[0].isLit() {
		t := u.w.tagType[recv.L[0].Lit.Num().Int64()]
		if t != nil {
			if sel := u.w.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				f := u.w.prog.MethodValue(sel)
				if f != nil {
					rv := u.unbox(st, t, recv.L[1])
					return u.callFn(f, nil, append([]Val{rv}, args...), st, pos)
				}
			}
		}
	}
	name := "(" + types.TypeString(types.Unalias(it), nil) + ")." + c.Method.Name()
	key := types.TypeString(types.Unalias(it), nil) + "." + c.Method.Name()
	all := append([]Val{recv}, args...)
	return u.withHooks(name, all, st, pos, func(st *State) []callRes {
		if ic := u.w.ifaces[key]; ic != nil {
			u.usedContracts["iface "+ic.Target] = true
			return u.applyContract(ic, c.Signature(), all, st, u.posOf(pos), true)
		}
		return u.external(fr, name, c.Signature(), all, st, pos)
	})
}

func fnName(f *ssa.Function) string {
	if f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return f.String()
}

func (u *Unit) callFn(f *ssa.Function, binds, args []Val, st *State, pos token.Pos) []callRes {
	name := f.String()
	return u.withHooks(name, args, st, pos, func(st *State) []callRes {
		if c := u.w.contract[f]; c != nil && !c.Inline && !(u.fn == f && u.depth == 0) {
			u.usedContracts[u.w.describe(c)] = true
			sig := f.Signature
			return u.applyContract(c, sig, args, st, u.posOf(pos), true)
		}
		repo := f.Pkg != nil && isRepo(f.Pkg.Pkg)
		if f.Pkg == nil && len(f.Blocks) > 0 {
			repo = true // wrappers, bound methods
		}
		if repo && len(f.Blocks) > 0 {
			u.inlined[strings.ReplaceAll(name, modPath+"/", "")] = true
			return u.runFunction(f, binds, args, st, pos)
		}
		return u.external(nil, name, f.Signature, args, st, pos)
	})
}

// withHooks runs the unit's call hooks around a call.
func (u *Unit) withHooks(name string, args []Val, st *State, pos token.Pos, run func(*State) []callRes) []callRes {
	var post []*Hook
	if u.c != nil {
		for i := range u.c.Hooks {
			h := &u.c.Hooks[i]
			if h.Event != "call" || (u.w.canon(h.Target) != name && "param:"+h.Target != name && "functype:"+u.w.canon(h.Target) != name) {
				continue
			}
			u.hookHits[h.Pos]++
			if h.Res != nil {
				post = append(post, h)
				continue
			}
			u.runHook(h, args, nil, st, u.posOf(pos), nil)
		}
	}
	if len(post) == 0 {
		return run(st)
	}
	pre := st.clone()
	rs := run(st)
	for _, r := range rs {
		for _, h := range post {
			u.runHook(h, args, r.vals, r.st, u.posOf(pos), pre)
		}
	}
	return rs
}

func (u *Unit) runHook(h *Hook, args, res []Val, st *State, pos string, pre *State) {
	for _, a := range h.Acts {
		sc := u.scope(st)
		if pre != nil {
			sc.ent = pre
		}
		for i, n := range h.Params {
			if i < len(args) {
				sc.names[n] = args[i]
			}
		}
		for i, n := range h.Res {
			if i < len(res) {
				sc.names[n] = res[i]
			}
		}
		switch a.Kind {
		case "assert":
			u.oblige(st, "assert", a.Label+" @ "+h.Event+" "+h.Target+" ("+h.Pos+")", pos, sc.Bool(a.E))
		case "assume":
			st.assume(sc.Bool(a.E))
		case "set":
			t, ok := u.ghostType[a.Name]
			if !ok {
				panic(specErr{h.Pos + ": unknown ghost " + a.Name})
			}
			v := sc.Eval(a.E)
			x := v.term()
			if so := u.w.specSort(t); x.Sort != so {
				y, _ := sc.unify(v, Val{L: []*Term{Symb("dummy."+so, so)}})
				x = y.term()
			}
			st.set(u, "GV:"+a.Name, x)
		}
	}
}

// eventHooks runs hooks of non-call events.
func (u *Unit) eventHooks(event, target string, args []Val, st *State, pos string) bool {
	hit := false
	if u.c == nil {
		return false
	}
	for i := range u.c.Hooks {
		h := &u.c.Hooks[i]
		if h.Event != event {
			continue
		}
		if h.Target != "" && target != "" && u.w.canon(h.Target) != target {
			continue
		}
		if (event == "send" || event == "recv" || event == "close") && h.Target != "" {
			continue
		}
		hit = true
		u.hookHits[h.Pos]++
		u.runHook(h, args, nil, st, pos, nil)
	}
	return hit
}

// storeHooks runs the hooks on stores to a named field, in the state after the store.
func (u *Unit) storeHooks(st *State, p *Ptr, v Val, pos token.Pos) {
	if u.c == nil || p.Base == nil {
		return
	}
	for i := range u.c.Hooks {
		h := &u.c.Hooks[i]
		if h.Event != "store" {
			continue
		}
		k := strings.LastIndexByte(h.Target, '.')
		if k < 0 {
			panic(specErr{h.Pos + ": store needs alias.Type.field"})
		}
		t := u.w.goType("*" + h.Target[:k])
		if t == nil {
			panic(specErr{h.Pos + ": no type " + h.Target[:k]})
		}
		if p.Pre != objPrefix(t.Underlying().(*types.Pointer).Elem())+h.Target[k:] {
			continue
		}
		u.hookHits[h.Pos]++
		u.runHook(h, []Val{{T: t, L: []*Term{p.Base}}, v}, nil, st, u.posOf(pos), nil)
	}
}

// scalarResults: nothing returned can refer to an object the call allocated, so that
// a call that modifies nothing leaves no trace of its allocations.
func scalarResults(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsNumeric|types.IsBoolean|types.IsString) == 0 {
			return false
		}
	}
	return true
}

// applyContract replaces a call by the callee's contract.
func (u *Unit) applyContract(c *Contract, sig *types.Signature, args []Val, st *State, pos string, check bool) []callRes {
	sc := &Scope{u: u, st: st, old: st, names: map[string]Val{}}
	if len(c.Params) != len(args) {
		panic(specErr{fmt.Sprintf("%s: contract %s has %d parameters, call has %d", c.Pos, c.Target, len(c.Params), len(args))})
	}
	for i, n := range c.Params {
		sc.names[n] = args[i]
	}
	for _, a := range args {
		if a.T == nil {
			continue
		}
		if _, ok := a.T.Underlying().(*types.Signature); !ok {
			continue
		}
		if fv := u.lookupFunc(a); fv != nil && fv.Fn != nil && c.Trusted == "" {
			panic(limit("function value passed to " + c.Target + ", which is used through its contract"))
		}
	}
	if c.Trusted != "" {
		u.assumptions["assumed contract of "+c.Target+": "+c.Trusted] = true
	}
	if len(c.Ghosts) > 0 {
		for _, g := range c.Ghosts {
			_ = g
		}
	}
	if u.fnRecursive(c) {
		u.notes["recursive call of "+c.Target+": termination is not proved"] = true
	}
	for _, l := range c.Lets {
		v := sc.Eval(l.E)
		sc.names[l.Name] = v
	}
	for _, r := range c.Requires {
		g := sc.Bool(r.E)
		u.oblige(st, "pre", c.Target+": "+r.Label+" ("+r.Pos+")", pos, g)
	}
	pre := st.clone()
	// function-typed arguments with effects: closures are not run by contracts
	if !c.Pure && !(len(c.Modifies) == 0 && !c.ModAny && scalarResults(sig)) {
		st.aBase, st.aOff = Fresh("A", SInt), 0
		st.assume(Le(pre.alloc(), st.aBase))
	}
	presc := sc.with(pre)
	if c.ModAny {
		for _, key := range u.knownKeys(st) {
			if strings.HasPrefix(key, "GV:") {
				continue
			}
			m := st.get(u, key, u.init[key].Sort)
			f := Fresh("any:"+key, m.Sort)
			u.mapBound[f] = st.alloc()
			st.set(u, key, f)
		}
		u.assumptions["contract "+c.Target+" may modify anything known to the caller"] = true
	}
	for _, lv := range c.Modifies {
		u.havocLval(presc, st, lv)
	}
	var vals []Val
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		n := "res"
		if i < len(c.Results) {
			n = c.Results[i]
		}
		vals = append(vals, freshVal(u, st, n, res.At(i).Type()))
	}
	post := &Scope{u: u, st: st, old: pre, names: map[string]Val{}}
	for k, v := range sc.names {
		post.names[k] = v
	}
	for i, n := range c.Results {
		if i < len(vals) {
			post.names[n] = vals[i]
		}
	}
	var posts []*Term
	for _, e := range c.Ensures {
		if e.Local || mentionsGhost(c, e.E) {
			continue
		}
		x := e.E
		if len(c.Given) > 0 {
			x = &Expr{Op: "forall", Vars: c.Given, Args: []*Expr{x}, Tok: x.Tok}
		}
		posts = append(posts, post.Bool(x))
	}
	// results the postcondition defines are replaced by their definition
	leaf := map[*Term]bool{}
	for _, v := range vals {
		for _, t := range v.L {
			if t.Sym && t.Sort != SReal {
				leaf[t] = true
			}
		}
	}
	def := map[*Term]*Term{}
	free := func(t *Term) bool {
		for x := range FV(t) {
			if leaf[x] {
				return false
			}
		}
		return true
	}
	for _, t := range posts {
		st.assume(t)
		for _, q := range flatten(t) {
			if q.Op != "=" {
				continue
			}
			for k := 0; k < 2; k++ {
				x, d := q.Args[k], q.Args[1-k]
				if leaf[x] && def[x] == nil && free(d) && !d.HasQ {
					def[x] = d
				}
			}
		}
	}
	if len(def) > 0 {
		for i := range vals {
			if len(vals[i].Tup) > 0 || vals[i].P != nil {
				continue
			}
			ls := append([]*Term{}, vals[i].L...)
			for j, t := range ls {
				if d := def[t]; d != nil {
					ls[j] = d
				}
			}
			vals[i].L = ls
		}
		for _, t := range posts {
			if y := Subst(t, def); y != t {
				st.assume(y)
			}
		}
	}
	for i := range vals {
		if vals[i].T != nil && isIface(vals[i].T) {
			vals[i] = u.resolve(st, vals[i])
		}
	}
	return []callRes{{st, vals}}
}

// mentionsGhost: postconditions over the callee's own ghost variables are not exported.
func mentionsGhost(c *Contract, e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" {
		for _, g := range c.Ghosts {
			if g.Name == e.S {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if mentionsGhost(c, a) {
			return true
		}
	}
	return false
}

func (u *Unit) fnRecursive(c *Contract) bool { return u.c == c && u.fn != nil }

func (u *Unit) knownKeys(st *State) []string {
	m := map[string]bool{}
	for _, k := range u.initKeys {
		m[k] = true
	}
	for k := range st.heap {
		m[k] = true
	}
	return sortedKeys(m)
}

// havocLval gives a fresh value to a location named in a modifies clause (evaluated in sc.st).
func (u *Unit) havocLval(sc *Scope, st *State, lv *Expr) {
	setRef := func(key string, so Sort, r *Term) {
		m := st.get(u, key, so)
		_, vs := arrParts(so)
		f := Fresh("m:"+key, vs)
		if strings.HasPrefix(vs, "(Array") {
			u.rowBound[f] = st.alloc()
		} else {
			u.symBound[f] = st.alloc()
		}
		st.set(u, key, Store(m, r, f))
	}
	switch lv.Op {
	case "all", "allrow":
		v := sc.Eval(lv.Args[0])
		if v.T == nil {
			sc.err(lv, "modifies: not a Go value")
		}
		switch t := v.T.Underlying().(type) {
		case *types.Slice:
			for _, l := range layout(t.Elem()) {
				key := "E:" + typeKey(t.Elem()) + l.Path
				so := heapSort(l.Sort, true, true)
				m := st.get(u, key, so)
				f := Fresh("m:"+key, ArrSort(SInt, l.Sort))
				u.rowBound[f] = st.alloc()
				if lv.Op == "all" {
					j := Symb("fr.j", SInt)
					st.assume(Forall([]*Term{j}, Imp(Not(And(Le(v.L[1], j), Lt(j, Add(v.L[1], v.L[2])))), Eq(Select(f, j), Select(Select(m, v.L[0]), j)))))
				}
				st.set(u, key, Store(m, v.L[0], f))
			}
		case *types.Map:
			m, k := mapKeys(v.T)
			ks := keySort(m.Key())
			setRef("MD:"+k, ArrSort(SInt, ArrSort(ks, SBool)), v.term())
			setRef("ML:"+k, ArrSort(SInt, SInt), v.term())
			for _, l := range layout(m.Elem()) {
				setRef("MV:"+k+l.Path, ArrSort(SInt, ArrSort(ks, l.Sort)), v.term())
			}
		default:
			sc.err(lv, "modifies [*] of %v", v.T)
		}
	case "call":
		if lv.S == "g" {
			s := u.w.specSort(lv.Args[1].S)
			r := identOf(sc.Eval(lv.Args[2]))
			setRef("G:"+lv.Args[0].S, ArrSort(SInt, s), r)
			return
		}
		if lv.S == "heap" {
			for _, key := range u.knownKeys(st) {
				if strings.HasPrefix(key, lv.Args[0].S) {
					m := st.get(u, key, u.init[key].Sort)
					f := Fresh("m:"+key, m.Sort)
					u.mapBound[f] = st.alloc()
					st.set(u, key, f)
				}
			}
			return
		}
		sc.err(lv, "modifies: cannot havoc call %s", lv.S)
	default:
		p := u.lvalPtr(sc, lv)
		for _, l := range layout(p.T) {
			u.regLeaf(p, l)
			key := p.Pre + l.Path
			f := Fresh("m:"+key, l.Sort)
			u.symBound[f] = st.alloc()
			u.storeLeaf(st, p, l.Path, f)
		}
	}
}

// lvalPtr is the location an lvalue expression names.
func (u *Unit) lvalPtr(sc *Scope, e *Expr) *Ptr {
	switch e.Op {
	case "field":
		if e.Args[0].Op == "id" {
			if _, isName := sc.names[e.Args[0].S]; !isName {
				if pk := u.w.pkgByAlias(e.Args[0].S); pk != nil {
					if g := pk.Var(e.S); g != nil {
						return u.globalPtr(g)
					}
				}
			}
		}
		v := sc.Eval(e.Args[0])
		if v.T == nil {
			break
		}
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		path := findField(p.Elem(), e.S)
		if path == nil {
			sc.err(e, "no field %s", e.S)
		}
		pt := toPtr(v)
		for i, f := range path {
			pt = &Ptr{Pre: pt.Pre + "." + f.Name(), Base: pt.Base, Idx: pt.Idx, T: f.Type()}
			if i < len(path)-1 {
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					pt = toPtr(u.load(sc.st, pt))
				}
			}
		}
		return pt
	case "deref":
		return toPtr(sc.Eval(e.Args[0]))
	case "index":
		a := sc.Eval(e.Args[0])
		i := sc.Eval(e.Args[1]).term()
		if a.T != nil && isSliceT(a.T) {
			el := a.T.Underlying().(*types.Slice).Elem()
			return &Ptr{Pre: "E:" + typeKey(el), Base: a.L[0], Idx: Add(a.L[1], i), T: el}
		}
	}
	sc.err(e, "not a location")
	return nil
}

// ---- builtins ----

func (u *Unit) builtin(fr *Frame, name string, c *ssa.CallCommon, args []Val, st *State, pos token.Pos) []callRes {
	switch name {
	case "len", "cap":
		v := args[0]
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return u.one(st, intVal(v.L[3]))
			}
			return u.one(st, intVal(v.L[2]))
		case *types.Map:
			return u.one(st, intVal(Ite(Eq(v.term(), IntL(0)), IntL(0), u.mapLen(st, c.Args[0].Type(), v.term()))))
		case *types.Basic:
			return u.one(st, intVal(strLen(v.term())))
		case *types.Array:
			return u.one(st, intVal(IntL(t.Len())))
		case *types.Pointer:
			if a, ok := t.Elem().Underlying().(*types.Array); ok {
				return u.one(st, intVal(IntL(a.Len())))
			}
		}
		n := Fresh("chlen", SInt)
		st.assume(Le(IntL(0), n))
		return u.one(st, intVal(n))
	case "append":
		return u.appendOp(c, args, st, pos)
	case "copy":
		return u.copyOp(c, args, st, pos)
	case "delete":
		mt := c.Args[0].Type()
		m, k := mapKeys(mt)
		ref, key := args[0].term(), args[1].term()
		ks := keySort(m.Key())
		d := st.get(u, "MD:"+k, ArrSort(SInt, ArrSort(ks, SBool)))
		in := Select(Select(d, ref), key)
		ln := st.get(u, "ML:"+k, ArrSort(SInt, SInt))
		st.set(u, "ML:"+k, Store(ln, ref, Sub(Select(ln, ref), Ite(in, IntL(1), IntL(0)))))
		st.set(u, "MD:"+k, Store(d, ref, Store(Select(d, ref), key, False)))
		return u.one(st)
	case "close":
		ch := args[0].term()
		u.oblige(st, "safety", "close of nil channel", u.posOf(pos), Not(Eq(ch, IntL(0))))
		u.oblige(st, "safety", "close of closed channel", u.posOf(pos), Not(u.gget(st, "chclosed", ch, SBool)))
		u.eventHooks("close", "", args, st, u.posOf(pos))
		u.gset(st, "chclosed", ch, True)
		return u.one(st)
	case "print", "println":
		return u.one(st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			cnd := cmpLe(r.term(), a.term(), false)
			if name == "max" {
				cnd = cmpLe(a.term(), r.term(), false)
			}
			r = Val{T: r.T, L: []*Term{Ite(cnd, r.term(), a.term())}}
		}
		return u.one(st, r)
	case "ssa:wrapnilchk":
		return u.one(st, args[0])
	}
	panic(limit("builtin " + name))
}

func (u *Unit) appendOp(c *ssa.CallCommon, args []Val, st *State, pos token.Pos) []callRes {
	s := args[0]
	slT := c.Args[0].Type()
	s = retypeKeep(s, slT)
	el := slT.Underlying().(*types.Slice).Elem()
	if len(args) < 2 {
		return u.one(st, s)
	}
	t := args[1]
	if t.T != nil && isString(t.T) {
		panic(limit("append of a string to a byte slice"))
	}
	t = retypeKeep(t, c.Args[1].Type())
	k := t.L[2]
	if k == IntL(0) {
		return u.one(st, s)
	}
	n := Add(s.L[2], k)
	fits := Le(n, s.L[3])
	if s.L[0] == IntL(0) {
		fits = False
	}
	R, C := Fresh("apref", SInt), Fresh("apcap", SInt)
	nr := u.newRef(st)
	var ref, cp *Term
	if fits == False {
		ref, cp = nr, C
		st.assume(Le(n, C))
	} else {
		ref, cp = R, C
		if k.isLit() && k.Lit.Sign() > 0 {
			st.assume(Or(And(fits, Eq(R, s.L[0]), Eq(C, s.L[3])), And(Not(fits), Eq(R, nr), Le(n, C))))
		} else {
			// appending nothing keeps the slice
			st.assume(Or(And(fits, Eq(R, s.L[0]), Eq(C, s.L[3])), And(Not(fits), Eq(R, nr), Le(n, C))))
		}
		u.symBound[R] = st.alloc()
		u.lentCheckRef(st, Ite(fits, R, nr), pos)
	}
	for _, l := range layout(el) {
		key := "E:" + typeKey(el) + l.Path
		u.regLeaf(&Ptr{Pre: "E:" + typeKey(el)}, l)
		m := st.get(u, key, heapSort(l.Sort, true, true))
		row := Select(m, s.L[0])
		src := Select(m, t.L[0])
		if k.isLit() && k.Lit.Num().Int64() <= 8 {
			for i := int64(0); i < k.Lit.Num().Int64(); i++ {
				row = Store(row, Add(s.L[1], Add(s.L[2], IntL(i))), Select(src, Add(t.L[1], IntL(i))))
			}
		} else {
			f := Fresh("aprow", row.Sort)
			u.rowBound[f] = st.alloc()
			j := Symb("fr.j", SInt)
			lo := Add(s.L[1], s.L[2])
			hi := Add(lo, k)
			in := And(Le(lo, j), Lt(j, hi))
			st.assume(Forall([]*Term{j}, Imp(in, Eq(Select(f, j), Select(src, Add(t.L[1], Sub(j, lo)))))))
			st.assume(Forall([]*Term{j}, Imp(Not(in), Eq(Select(f, j), Select(row, j)))))
			row = f
		}
		st.set(u, key, Store(m, ref, row))
	}
	return u.one(st, Val{T: slT, L: []*Term{ref, s.L[1], n, cp}})
}

func (u *Unit) copyOp(c *ssa.CallCommon, args []Val, st *State, pos token.Pos) []callRes {
	d, s := args[0], args[1]
	if isString(c.Args[1].Type()) {
		panic(limit("copy from a string"))
	}
	d, s = retypeKeep(d, c.Args[0].Type()), retypeKeep(s, c.Args[1].Type())
	el := d.T.Underlying().(*types.Slice).Elem()
	n := Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2])
	u.lentCheckRef(st, d.L[0], pos)
	for _, l := range layout(el) {
		key := "E:" + typeKey(el) + l.Path
		m := st.get(u, key, heapSort(l.Sort, true, true))
		row, src := Select(m, d.L[0]), Select(m, s.L[0])
		f := Fresh("cprow", row.Sort)
		u.rowBound[f] = st.alloc()
		j := Symb("fr.j", SInt)
		in := And(Le(d.L[1], j), Lt(j, Add(d.L[1], n)))
		st.assume(Forall([]*Term{j}, Imp(in, Eq(Select(f, j), Select(src, Add(s.L[1], Sub(j, d.L[1])))))))
		st.assume(Forall([]*Term{j}, Imp(Not(in), Eq(Select(f, j), Select(row, j)))))
		st.set(u, key, Store(m, d.L[0], f))
	}
	return u.one(st, intVal(n))
}

// ---- channels and goroutines ----

func (u *Unit) send(fr *Frame, st *State, pos token.Pos, ch, v Val) {
	c := ch.term()
	u.oblige(st, "safety", "send on closed channel", u.posOf(pos), Not(u.gget(st, "chclosed", c, SBool)))
	u.eventHooks("send", "", []Val{ch, v}, st, u.posOf(pos))
	u.gset(st, "chn", c, Add(u.gget(st, "chn", c, SInt), IntL(1)))
	if u.lending() && v.T != nil && isSliceT(v.T) {
		m := st.get(u, "G:lent", ArrSort(SInt, SBool))
		st.set(u, "G:lent", Store(m, v.L[0], True))
	}
}

func (u *Unit) lending() bool { return u.c != nil && u.c.Modes["lend"] != "" }

func (u *Unit) lentCheck(st *State, p *Ptr, pos token.Pos) {
	if p.Base != nil && p.Idx != nil {
		u.lentCheckRef(st, p.Base, pos)
	}
}
func (u *Unit) lentCheckRef(st *State, ref *Term, pos token.Pos) {
	if !u.lending() {
		return
	}
	m := st.get(u, "G:lent", ArrSort(SInt, SBool))
	u.oblige(st, "assert", "memory already sent over a channel is not written", u.posOf(pos), Not(Select(m, ref)))
}

func (u *Unit) recv(fr *Frame, in *ssa.UnOp, x Val, st *State) []callRes {
	el := in.X.Type().Underlying().(*types.Chan).Elem()
	s1 := st.clone()
	v := freshVal(u, s1, "recv", el)
	u.eventHooks("recv", "", []Val{x, v}, s1, u.posOf(in.Pos()))
	if in.CommaOk {
		s2 := st.clone()
		return []callRes{{s1, []Val{v, boolVal(True)}}, {s2, []Val{zeroVal(el), boolVal(False)}}}
	}
	return []callRes{{s1, []Val{v}}}
}

func (u *Unit) goStmt(fr *Frame, in *ssa.Go, fn Val, args []Val, st *State) {
	c := &in.Call
	u.assumptions["goroutines: interference between running goroutines is not modelled; a started goroutine's effects are not part of the starter's state"] = true
	pos := u.posOf(in.Pos())
	var f *ssa.Function
	var binds []Val
	if s := c.StaticCallee(); s != nil {
		f = s
		if fv := u.lookupFunc(fn); fv != nil {
			binds = fv.Binds
		}
	} else if !c.IsInvoke() {
		if fv := u.lookupFunc(u.resolve(st, fn)); fv != nil {
			f, binds = fv.Fn, fv.Binds
		}
	}
	if f == nil && c.IsInvoke() {
		it := types.TypeString(types.Unalias(c.Value.Type()), nil)
		u.oblige(st, "safety", "nil interface call "+c.Method.Name(), pos, Not(Eq(fn.L[0], IntL(0))))
		all := append([]Val{fn}, args...)
		u.eventHooks("go", "("+it+")."+c.Method.Name(), all, st, pos)
		if ic := u.w.ifaces[it+"."+c.Method.Name()]; ic != nil {
			u.usedContracts["iface "+ic.Target] = true
			u.applyContract(ic, c.Signature(), all, st.clone(), pos, true)
			return
		}
	}
	if f == nil {
		panic(limit("go statement with an unknown function"))
	}
	hit := u.eventHooks("go", f.String(), args, st, pos)
	if ct := u.w.contract[f]; ct != nil && !ct.Inline {
		u.usedContracts[u.w.describe(ct)] = true
		s := st.clone()
		u.applyContract(ct, f.Signature, args, s, pos, true)
		return
	}
	_ = hit
	s := st.clone()
	s.def = nil
	u.inlined[strings.ReplaceAll(f.String(), modPath+"/", "")] = true
	for _, r := range u.runFunction(f, binds, args, s, in.Pos()) {
		u.eventHooks("goend", "", nil, r.st, pos)
	}
}

func (u *Unit) knownGlobal(st *State, g *ssa.Global) (Val, bool) {
	if c, ok := u.w.constGlob[g]; ok {
		if c.Value == nil {
			return zeroVal(g.Type().(*types.Pointer).Elem()), true
		}
		return retype(u.constVal(c.Value, c.Type()), g.Type().(*types.Pointer).Elem()), true
	}
	return Val{}, false
}

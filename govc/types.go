package main

// Go types as flattened leaves, values, heap states.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/ynqa/wego"

// modes of the unit being verified
var (
	floatSort Sort = SReal
	intSort   Sort = SInt
)

type Leaf struct {
	Path string
	Sort Sort
	Typ  types.Type // Go type the leaf belongs to
	Role string     // "", ref, off, len, cap, tag, dat
}

func qual(p *types.Package) string {
	s := strings.TrimPrefix(p.Path(), modPath)
	return strings.TrimPrefix(s, "/")
}

var typeKeyCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), qual)
	if _, ok := types.Unalias(t).(*types.Named); !ok {
		s = types.TypeString(deAlias(t), qual)
	}
	typeKeyCache[t] = s
	return s
}

func deAlias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Slice:
		return types.NewSlice(deAlias(u.Elem()))
	case *types.Pointer:
		return types.NewPointer(deAlias(u.Elem()))
	case *types.Map:
		return types.NewMap(deAlias(u.Key()), deAlias(u.Elem()))
	}
	return t
}

func isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// opaque struct types are single Int leaves
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Pkg() != nil && !isRepo(n.Obj().Pkg()) && !transparentPkg[n.Obj().Pkg().Path()]
}

var transparentPkg = map[string]bool{"go/ast": true}

var layoutCache = map[string][]Leaf{}

func layout(t types.Type) []Leaf {
	k := typeKey(t) + "/" + floatSort + "/" + intSort
	if l, ok := layoutCache[k]; ok {
		return l
	}
	l := layout0(t)
	layoutCache[k] = l
	return l
}

func layout0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []Leaf{{"", basicSort(u), t, ""}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Slice:
		return []Leaf{{"#ref", SInt, t, "ref"}, {"#off", intSort, t, "off"}, {"#len", intSort, t, "len"}, {"#cap", intSort, t, "cap"}}
	case *types.Interface:
		return []Leaf{{"#tag", SInt, t, "tag"}, {"#dat", SInt, t, "dat"}}
	case *types.Struct:
		if opaqueStruct(t) {
			return []Leaf{{"", SInt, t, "opaque"}}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range layout(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort, l.Typ, l.Role})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			panic(limit("array type " + t.String()))
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range layout(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.Path), l.Sort, l.Typ, l.Role})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("<%d>%s", i, l.Path), l.Sort, l.Typ, l.Role})
			}
		}
		return out
	}
	panic(limit("type " + t.String()))
}

func basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsInteger != 0:
		return intSort
	case b.Info()&types.IsFloat != 0:
		return floatSort
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Kind() == types.UnsafePointer, b.Kind() == types.UntypedNil:
		return SInt
	}
	panic(limit("basic type " + b.String()))
}

type toolLimit struct{ msg string }

func limit(s string) toolLimit { return toolLimit{s} }

// ---- values ----

type Ptr struct {
	Pre  string // heap map prefix
	Base *Term  // nil for globals
	Idx  *Term  // element index or nil
	T    types.Type
}

type FuncVal struct {
	Fn    *ssa.Function
	Binds []Val
	Spec  string // name of an opaque function parameter
	Sig   *types.Signature
}

type Val struct {
	T   types.Type
	S   Sort // for spec values without a Go type
	L   []*Term
	P   *Ptr
	Tup []Val
}

func (v Val) term() *Term {
	if v.P != nil {
		return ptrTerm(v.P)
	}
	if len(v.L) != 1 {
		panic(fmt.Sprintf("value of %v has %d leaves", v.T, len(v.L)))
	}
	return v.L[0]
}
func (v Val) leaves() []*Term {
	if v.P != nil {
		return []*Term{ptrTerm(v.P)}
	}
	return v.L
}

func ptrTerm(p *Ptr) *Term {
	if p.Idx == nil && p.Base != nil && (p.Pre == objPrefix(p.T)) {
		return p.Base
	}
	if p.Base == nil {
		return App("@addr:"+p.Pre, SInt, IntL(0))
	}
	if p.Idx == nil {
		return App("@addr:"+p.Pre, SInt, p.Base)
	}
	return App("@addr2:"+p.Pre, SInt, p.Base, p.Idx)
}

func objPrefix(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			return "O:" + typeKey(t)
		}
		return "F:" + typeKey(t)
	case *types.Array:
		return "E:" + typeKey(u.Elem())
	}
	return "C:" + typeKey(t)
}

// toPtr interprets a pointer value.
func toPtr(v Val) *Ptr {
	if v.P != nil {
		return v.P
	}
	pt := v.T.Underlying().(*types.Pointer)
	return &Ptr{Pre: objPrefix(pt.Elem()), Base: v.L[0], T: pt.Elem()}
}

func isPtrToStruct(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

func goInt(n int64) Val { return Val{T: types.Typ[types.Int], L: []*Term{intLit(n)}} }
func intLit(n int64) *Term {
	if intSort == SBV {
		return BVL(big.NewInt(n))
	}
	return IntL(n)
}
func boolVal(t *Term) Val { return Val{T: types.Typ[types.Bool], L: []*Term{t}} }
func intVal(t *Term) Val  { return Val{T: types.Typ[types.Int], L: []*Term{t}} }
func strVal(t *Term) Val  { return Val{T: types.Typ[types.String], L: []*Term{t}} }
func fltVal(t *Term) Val  { return Val{T: types.Typ[types.Float64], L: []*Term{t}} }

var fltLits = map[*Term]float64{}

func fltLit(f float64) *Term {
	switch floatSort {
	case SReal:
		r := new(big.Rat)
		if math.IsInf(f, 0) || math.IsNaN(f) {
			panic(limit("non-finite constant in real mode"))
		}
		r.SetFloat64(f)
		return RealL(r)
	case SFP:
		b := math.Float64bits(f)
		return App(fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1)), SFP)
	}
	t := cons(fmt.Sprintf("flt$%x", math.Float64bits(f)), SFlt, nil, nil, true)
	t.epoch = 0
	fltLits[t] = f
	return t
}

// decimal constants: exact rational in real mode
func fltConst(r *big.Rat, f float64) *Term {
	if floatSort == SReal {
		x := new(big.Rat).SetFloat64(f)
		_ = r
		return RealL(x)
	}
	return fltLit(f)
}

func zeroLeaf(l Leaf) *Term {
	switch l.Sort {
	case SInt:
		return IntL(0)
	case SBV:
		return BVL(big.NewInt(0))
	case SBool:
		return False
	case SStr:
		return StrL("")
	}
	if l.Sort == floatSort {
		return fltLit(0)
	}
	panic("zeroLeaf " + l.Sort)
}
func zeroVal(t types.Type) Val {
	v := Val{T: t}
	if tt, ok := t.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tt.At(i).Type()))
		}
		return v
	}
	for _, l := range layout(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

// ---- states ----

type fact struct {
	t    *Term
	prev *fact
	n    int
}

type deferRec struct {
	fr   *Frame
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	heap  map[string]*Term
	own   bool // heap map is exclusively owned
	aBase *Term
	aOff  int64
	pc    *fact
	def   []deferRec
	cells []Val // pointers to local cells, for invariants
}

func (s *State) clone() *State {
	c := *s
	s.own = false
	c.own = false
	c.def = append([]deferRec{}, s.def...)
	c.cells = s.cells[:len(s.cells):len(s.cells)]
	return &c
}
func (s *State) alloc() *Term { return Add(s.aBase, IntL(s.aOff)) }
func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &fact{t, s.pc, n}
}
func (s *State) facts() []*Term {
	var out []*Term
	for f := s.pc; f != nil; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// infeasible performs a cheap syntactic contradiction test of the newest fact.
func (s *State) contradicts(t *Term) bool {
	if t == False {
		return true
	}
	nt := Not(t)
	for f := s.pc; f != nil; f = f.prev {
		if f.t == nt || f.t == False {
			return true
		}
		if f.t.Op == "<=" && t.Op == "<=" && f.t.Args[0].Sort == SInt {
			// a <= b and c <= d with (b - a) + (d - c) constant negative
			sum := Add(Sub(f.t.Args[1], f.t.Args[0]), Sub(t.Args[1], t.Args[0]))
			if sum.isLit() && sum.Lit.Sign() < 0 {
				return true
			}
		}
		if f.t.Op == "=" && t.Op == "<=" && f.t.Args[0].Sort == SInt {
			d := Sub(t.Args[1], t.Args[0])
			e := Sub(f.t.Args[0], f.t.Args[1])
			for _, k := range []*Term{Add(d, e), Sub(d, e)} {
				if k.isLit() && k.Lit.Sign() < 0 {
					return true
				}
			}
		}
		if t.Op == "=" && f.t.Op == "<=" && t.Args[0].Sort == SInt {
			d := Sub(f.t.Args[1], f.t.Args[0])
			e := Sub(t.Args[0], t.Args[1])
			for _, k := range []*Term{Add(d, e), Sub(d, e)} {
				if k.isLit() && k.Lit.Sign() < 0 {
					return true
				}
			}
		}
		if f.t.Op == "=" && t.Op == "=" {
			// x = lit1 and x = lit2
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if f.t.Args[i] == t.Args[j] {
						a, b := f.t.Args[1-i], t.Args[1-j]
						if a != b && (a.isLit() && b.isLit() || strLits[a] && strLits[b]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

type mapInfo struct {
	bound *Term // allocation bound of the references inside at creation
}

func heapSort(leaf Sort, base, idx bool) Sort {
	s := leaf
	if idx {
		s = ArrSort(SInt, s)
	}
	if base {
		s = ArrSort(SInt, s)
	}
	return s
}

func idxTerm(t *Term) *Term { return t }

func (u *Unit) initSym(key string, s Sort) *Term {
	if t, ok := u.init[key]; ok {
		if t.Sort != s {
			panic(fmt.Sprintf("heap map %s used at sorts %s and %s", key, t.Sort, s))
		}
		return t
	}
	ep := symEpoch
	symEpoch = 0
	t := Symb("H0:"+key, s)
	symEpoch = ep
	u.init[key] = t
	u.mapBound[t] = u.a0
	u.initKeys = append(u.initKeys, key)
	return t
}

func (s *State) get(u *Unit, key string, so Sort) *Term {
	t, ok := s.heap[key]
	if !ok {
		t = u.initSym(key, so)
	}
	if u.reads != nil {
		u.reads[key] = t
	}
	return t
}
func (s *State) set(u *Unit, key string, t *Term) {
	if !s.own {
		h := make(map[string]*Term, len(s.heap)+4)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap = h
		s.own = true
	}
	u.initSym(key, t.Sort)
	s.heap[key] = t
}

func (u *Unit) loadLeaf(st *State, p *Ptr, path string, so Sort) *Term {
	key := p.Pre + path
	m := st.get(u, key, heapSort(so, p.Base != nil, p.Idx != nil))
	if p.Base == nil {
		return m
	}
	r := Select(m, p.Base)
	if p.Idx != nil {
		r = Select(r, p.Idx)
	}
	return r
}

func (u *Unit) load(st *State, p *Ptr) Val {
	if sl, ok := p.T.Underlying().(*types.Array); ok && strings.HasPrefix(p.Pre, "E:") && p.Idx == nil {
		v := Val{T: p.T}
		for i := int64(0); i < sl.Len(); i++ {
			e := u.load(st, &Ptr{Pre: p.Pre, Base: p.Base, Idx: IntL(i), T: sl.Elem()})
			v.L = append(v.L, e.L...)
		}
		return v
	}
	v := Val{T: p.T}
	for _, l := range layout(p.T) {
		u.regLeaf(p, l)
		v.L = append(v.L, u.loadLeaf(st, p, l.Path, l.Sort))
	}
	u.wf(st, v)
	return v
}

func (u *Unit) regLeaf(p *Ptr, l Leaf) {
	k := p.Pre + l.Path
	if _, ok := u.keyLeaf[k]; !ok {
		u.keyLeaf[k] = l
	}
}

func (u *Unit) store(st *State, p *Ptr, v Val) {
	if _, ok := p.T.Underlying().(*types.Array); ok && strings.HasPrefix(p.Pre, "E:") && p.Idx == nil {
		panic(limit("array store"))
	}
	ls := v.leaves()
	lay := layout(p.T)
	if len(ls) != len(lay) {
		panic(fmt.Sprintf("store: %d leaves into %v (%d)", len(ls), p.T, len(lay)))
	}
	for i, l := range lay {
		u.regLeaf(p, l)
		u.storeLeaf(st, p, l.Path, ls[i])
	}
}
func (u *Unit) storeLeaf(st *State, p *Ptr, path string, t *Term) {
	key := p.Pre + path
	if p.Base == nil {
		st.set(u, key, t)
		return
	}
	m := st.get(u, key, heapSort(t.Sort, true, p.Idx != nil))
	if p.Idx == nil {
		st.set(u, key, Store(m, p.Base, t))
		return
	}
	row := Select(m, p.Base)
	st.set(u, key, Store(m, p.Base, Store(row, p.Idx, t)))
}

// wf records the well-formedness facts of freshly observed values.
func (u *Unit) wf(st *State, v Val) {
	lay := layout(v.T)
	for i, l := range lay {
		t := v.L[i]
		if t.isLit() || t.Sym && t.epoch == 0 {
			continue
		}
		if _, ok := u.wfFacts[t]; ok {
			continue
		}
		var fs []*Term
		switch l.Role {
		case "ref":
			if _, ok := l.Typ.Underlying().(*types.Signature); ok {
				break
			}
			fs = append(fs, Le(IntL(0), t))
			fs = append(fs, u.boundFact(st, t))
			if _, ok := l.Typ.Underlying().(*types.Slice); ok && i+3 < len(v.L) && intSort == SInt {
				off, ln, cp := v.L[i+1], v.L[i+2], v.L[i+3]
				fs = append(fs, Le(IntL(0), off), Le(IntL(0), ln), Le(ln, cp), Imp(Eq(t, IntL(0)), And(Eq(cp, IntL(0)), Eq(off, IntL(0)))))
				for _, k := range []*Term{off, ln, cp} {
					if _, ok := u.wfFacts[k]; !ok && !k.isLit() {
						u.wfFacts[k] = fs
					}
				}
			}
		case "tag":
			fs = append(fs, Le(IntL(0), t))
			if i+1 < len(v.L) {
				d := v.L[i+1]
				if !d.isLit() {
					g := []*Term{Imp(Eq(t, IntL(0)), Eq(d, IntL(0)))}
					u.wfFacts[d] = g
					fs = append(fs, g...)
				}
			}
		case "":
			if b, ok := l.Typ.Underlying().(*types.Basic); ok && l.Sort == SInt {
				if b.Info()&types.IsUnsigned != 0 {
					fs = append(fs, Le(IntL(0), t))
					if b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
						fs = append(fs, Lt(t, IntBig(two64)))
					}
				}
			}
		}
		u.wfFacts[t] = fs
	}
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// boundFact: the reference read is allocated.
func (u *Unit) boundFact(st *State, t *Term) *Term {
	if b, ok := u.symBound[t]; ok {
		return Lt(t, b)
	}
	cur := Lt(t, st.alloc())
	if t.Op == "select" {
		m := t.Args[0]
		if b, ok := u.rowBound[m]; ok {
			return Lt(t, b)
		}
		var idx *Term = t.Args[1]
		if m.Op == "select" {
			idx = m.Args[1]
			m = m.Args[0]
		}
		if b, ok := u.mapBound[m]; ok {
			return And(cur, Imp(Lt(idx, b), Lt(t, b)))
		}
	}
	return cur
}

func freshVal(u *Unit, st *State, base string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, freshVal(u, st, base, tt.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range layout(t) {
		v.L = append(v.L, Fresh(base+l.Path, l.Sort))
	}
	u.wf(st, v)
	return v
}

func keySort(t types.Type) Sort {
	l := layout(t)
	if len(l) != 1 {
		panic(limit("map key type " + t.String()))
	}
	return l[0].Sort
}

func mapKeys(t types.Type) (*types.Map, string) {
	m := t.Underlying().(*types.Map)
	return m, typeKey(deAlias(m))
}

func (u *Unit) mapDom(st *State, mt types.Type, ref *Term) *Term {
	m, k := mapKeys(mt)
	return Select(st.get(u, "MD:"+k, ArrSort(SInt, ArrSort(keySort(m.Key()), SBool))), ref)
}
func (u *Unit) mapVal(st *State, mt types.Type, ref, key *Term) Val {
	m, k := mapKeys(mt)
	v := Val{T: m.Elem()}
	for _, l := range layout(m.Elem()) {
		a := st.get(u, "MV:"+k+l.Path, ArrSort(SInt, ArrSort(keySort(m.Key()), l.Sort)))
		v.L = append(v.L, Select(Select(a, ref), key))
	}
	u.wf(st, v)
	return v
}
func (u *Unit) mapLen(st *State, mt types.Type, ref *Term) *Term {
	_, k := mapKeys(mt)
	t := Select(st.get(u, "ML:"+k, ArrSort(SInt, SInt)), ref)
	if _, ok := u.wfFacts[t]; !ok && !t.isLit() {
		u.wfFacts[t] = []*Term{Le(IntL(0), t)}
	}
	return t
}
func (u *Unit) mapUpdate(st *State, mt types.Type, ref, key *Term, v Val) {
	m, k := mapKeys(mt)
	dk, lk := "MD:"+k, "ML:"+k
	d := st.get(u, dk, ArrSort(SInt, ArrSort(keySort(m.Key()), SBool)))
	in := Select(Select(d, ref), key)
	ln := st.get(u, lk, ArrSort(SInt, SInt))
	st.set(u, lk, Store(ln, ref, Add(Select(ln, ref), Ite(in, IntL(0), IntL(1)))))
	st.set(u, dk, Store(d, ref, Store(Select(d, ref), key, True)))
	for i, l := range layout(m.Elem()) {
		vk := "MV:" + k + l.Path
		a := st.get(u, vk, ArrSort(SInt, ArrSort(keySort(m.Key()), l.Sort)))
		st.set(u, vk, Store(a, ref, Store(Select(a, ref), key, v.leaves()[i])))
	}
}

func (u *Unit) newRef(st *State) *Term {
	r := st.alloc()
	st.aOff++
	return r
}

// newObj allocates a zeroed object of type t.
func (u *Unit) newObj(st *State, t types.Type) *Ptr {
	r := u.newRef(st)
	p := &Ptr{Pre: objPrefix(t), Base: r, T: t}
	if a, ok := t.Underlying().(*types.Array); ok {
		u.zeroRow(st, a.Elem(), r)
		return p
	}
	if opaqueStruct(t) {
		u.initOpaque(st, t, r)
		return p
	}
	for _, l := range layout(t) {
		u.storeLeaf(st, p, l.Path, zeroLeaf(l))
	}
	// opaque struct fields get their initial model state lazily
	return p
}

func (u *Unit) zeroRow(st *State, elem types.Type, r *Term) {
	for _, l := range layout(elem) {
		key := "E:" + typeKey(elem) + l.Path
		m := st.get(u, key, heapSort(l.Sort, true, true))
		st.set(u, key, Store(m, r, ConstArr(ArrSort(SInt, l.Sort), zeroLeaf(l))))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

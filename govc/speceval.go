package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type SeqV struct { // detached slice contents
	Elem types.Type
	Rows []*Term
	Off  *Term
	Len  *Term
}

type Scope struct {
	u        *Unit
	st       *State
	old      *State
	ent      *State
	names    map[string]Val
	its      []*Term
	mits     []*Val // map iterators of the enclosing loops, innermost first
	depth    int
	entNames map[string]Val
}

func (sc *Scope) with(st *State) *Scope { c := *sc; c.st = st; return &c }
func (sc *Scope) bind(n string, v Val) *Scope {
	c := *sc
	c.names = make(map[string]Val, len(sc.names)+1)
	for k, x := range sc.names {
		c.names[k] = x
	}
	c.names[n] = v
	return &c
}

type specErr struct{ msg string }

func (sc *Scope) err(e *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", e.Tok.file, e.Tok.line, fmt.Sprintf(f, a...))})
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// specSort maps a spec type name to a sort (for UFs and quantifiers).
func (w *World) specSort(ty string) Sort {
	switch ty {
	case "int", "ref", "uint64", "uint", "int64", "byte", "rune":
		return intSort
	case "string":
		return SStr
	case "bool":
		return SBool
	case "float", "float64":
		return floatSort
	case "real":
		return SReal
	case "text":
		return STxt
	}
	if strings.HasPrefix(ty, "arr(") {
		in := ty[4 : len(ty)-1]
		d := 0
		for i, c := range in {
			if c == '(' {
				d++
			} else if c == ')' {
				d--
			} else if c == ',' && d == 0 {
				return ArrSort(w.specSort(in[:i]), w.specSort(in[i+1:]))
			}
		}
	}
	if strings.HasPrefix(ty, "*") {
		return SInt
	}
	return ""
}

func (w *World) specVal(ty string, t *Term) Val {
	switch ty {
	case "int":
		return intVal(t)
	case "uint64":
		return Val{T: types.Typ[types.Uint64], L: []*Term{t}}
	case "ref":
		return Val{S: SInt, L: []*Term{t}}
	case "string":
		return strVal(t)
	case "bool":
		return boolVal(t)
	case "float", "float64":
		return fltVal(t)
	}
	if strings.HasPrefix(ty, "*") {
		if gt := w.goType(ty); gt != nil {
			return Val{T: gt, L: []*Term{t}}
		}
	}
	return Val{S: t.Sort, L: []*Term{t}}
}

func (sc *Scope) Bool(e *Expr) *Term {
	v := sc.Eval(e)
	if len(v.L) != 1 || v.L[0].Sort != SBool {
		sc.err(e, "boolean expected")
	}
	return v.L[0]
}

func (sc *Scope) Eval(e *Expr) Val {
	u := sc.u
	switch e.Op {
	case "num":
		if strings.ContainsAny(e.S, ".e") {
			r, ok := new(big.Rat).SetString(e.S)
			if !ok {
				sc.err(e, "bad number")
			}
			if floatSort == SReal {
				return Val{T: types.Typ[types.Float64], S: "lit", L: []*Term{RealL(r)}}
			}
			f, _ := r.Float64()
			return fltVal(fltLit(f))
		}
		n, ok := new(big.Int).SetString(e.S, 10)
		if !ok {
			sc.err(e, "bad number %s", e.S)
		}
		t := IntBig(n)
		if intSort == SBV {
			t = BVL(n)
		}
		return Val{T: types.Typ[types.Int], S: "lit", L: []*Term{t}}
	case "str":
		return strVal(StrL(e.S))
	case "id":
		return sc.ident(e)
	case "un":
		v := sc.Eval(e.Args[0])
		if e.S == "!" {
			return boolVal(Not(v.term()))
		}
		return Val{T: v.T, S: v.S, L: []*Term{arithNeg(v.term())}}
	case "bin":
		return sc.binop(e)
	case "cond":
		c := sc.Bool(e.Args[0])
		a, b := sc.unify(sc.Eval(e.Args[1]), sc.Eval(e.Args[2]))
		if len(a.L) != len(b.L) {
			sc.err(e, "branches differ")
		}
		r := Val{T: a.T, S: a.S}
		for i := range a.L {
			r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
		}
		return r
	case "forall", "exists":
		c := *sc
		c.names = make(map[string]Val, len(sc.names)+2)
		for k, x := range sc.names {
			c.names[k] = x
		}
		c.depth++
		var bs []*Term
		for i, v := range e.Vars {
			s := u.w.specSort(v.Type)
			if s == "" {
				sc.err(e, "quantifier type %s", v.Type)
			}
			// bound symbols are canonical per position so equal formulas are equal terms
			b := Symb(fmt.Sprintf("q%d.%d.%s", c.depth, i, s), s)
			bs = append(bs, b)
			c.names[v.Name] = u.w.specVal(v.Type, b)
		}
		body := c.Bool(e.Args[0])
		if e.Op == "forall" {
			return boolVal(Forall(bs, body))
		}
		return boolVal(Exists(bs, body))
	case "field":
		return sc.field(e)
	case "deref":
		v := sc.Eval(e.Args[0])
		if v.T == nil {
			sc.err(e, "deref of spec value")
		}
		return u.load(sc.st, toPtr(v))
	case "index":
		return sc.index(e)
	case "slice":
		a := sc.Eval(e.Args[0])
		lo, hi := sc.Eval(e.Args[1]).term(), sc.Eval(e.Args[2]).term()
		if _, ok := a.T.Underlying().(*types.Slice); !ok || len(a.L) != 4 {
			sc.err(e, "slice of non-slice")
		}
		return Val{T: a.T, L: []*Term{a.L[0], Add(a.L[1], lo), Sub(hi, lo), Sub(a.L[3], lo)}}
	case "tassert":
		v := sc.Eval(e.Args[0])
		t := u.w.goType(e.Type)
		if t == nil {
			sc.err(e, "unknown type %s", e.Type)
		}
		return u.unbox(sc.st, t, v.L[1])
	case "call":
		return sc.call(e)
	}
	sc.err(e, "cannot evaluate %s", e.Op)
	return Val{}
}

func (sc *Scope) ident(e *Expr) Val {
	switch e.S {
	case "true":
		return boolVal(True)
	case "false":
		return boolVal(False)
	case "nil":
		return Val{S: "nil", L: []*Term{IntL(0)}}
	case "it":
		if len(sc.its) == 0 {
			sc.err(e, "it outside a loop")
		}
		return intVal(sc.its[0])
	case "it1", "it2", "it3":
		n := int(e.S[2] - '0')
		if len(sc.its) <= n {
			panic(specErr{"no enclosing loop for " + e.S})
		}
		return intVal(sc.its[n])
	}
	if v, ok := sc.names[e.S]; ok {
		return v
	}
	if g, ok := sc.u.ghostType[e.S]; ok {
		return sc.u.w.specVal(g, sc.st.get(sc.u, "GV:"+e.S, sc.u.w.specSort(g)))
	}
	if d := sc.u.w.spec.DeclByName[e.S]; d != nil && len(d.Params) == 0 {
		return sc.callDecl(e, d, nil)
	}
	sc.err(e, "unknown name %s", e.S)
	return Val{}
}

func (sc *Scope) unify(a, b Val) (Val, Val) {
	if a.S == "nil" && b.S != "nil" {
		return sc.nilOf(b), b
	}
	if b.S == "nil" && a.S != "nil" {
		return a, sc.nilOf(a)
	}
	if len(a.L) == 1 && len(b.L) == 1 && a.L[0].Sort != b.L[0].Sort {
		if a.S == "lit" && a.L[0].Sort == SInt && a.L[0].isLit() {
			if b.L[0].Sort == SReal {
				return Val{T: b.T, L: []*Term{ToReal(a.L[0])}}, b
			}
			if b.L[0].Sort == SFlt || b.L[0].Sort == SFP {
				f, _ := a.L[0].Lit.Float64()
				return Val{T: b.T, L: []*Term{fltLit(f)}}, b
			}
		}
		if b.S == "lit" && b.L[0].isLit() {
			y, x := sc.unify(b, a)
			return x, y
		}
	}
	return a, b
}

func (sc *Scope) nilOf(v Val) Val {
	if v.P != nil {
		return Val{T: v.T, L: []*Term{IntL(0)}}
	}
	r := Val{T: v.T}
	for range v.L {
		r.L = append(r.L, IntL(0))
	}
	return r
}

func arithNeg(t *Term) *Term {
	if t.Sort == SFlt {
		return App("@fneg", SFlt, t)
	}
	if t.Sort == SFP {
		return App("fp.neg", SFP, t)
	}
	if t.Sort == SBV {
		return App("bvneg", SBV, t)
	}
	return Neg(t)
}

func (sc *Scope) eqVals(e *Expr, a, b Val) *Term {
	a, b = sc.unify(a, b)
	if a.P != nil || b.P != nil {
		return Eq(a.term(), b.term())
	}
	if a.T != nil && a.S == "" && isSliceT(a.T) && (b.S == "nil" || len(b.L) == 4 && b.L[3] == IntL(0) && b.L[0] == IntL(0)) {
		return Eq(a.L[0], IntL(0))
	}
	if a.T != nil && isIface(a.T) && len(b.L) == 2 && b.L[0] == IntL(0) {
		return Eq(a.L[0], IntL(0))
	}
	if len(a.L) != len(b.L) {
		sc.err(e, "== of different shapes (%v, %v)", a.T, b.T)
	}
	var cs []*Term
	for i := range a.L {
		if a.L[i].Sort != b.L[i].Sort {
			sc.err(e, "== of different sorts %s, %s", a.L[i].Sort, b.L[i].Sort)
		}
		cs = append(cs, Eq(a.L[i], b.L[i]))
	}
	return And(cs...)
}
func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isIface(t types.Type) bool  { _, ok := t.Underlying().(*types.Interface); return ok }

func (sc *Scope) binop(e *Expr) Val {
	switch e.S {
	case "==>":
		a := sc.Bool(e.Args[0])
		if a == False {
			return boolVal(True)
		}
		return boolVal(Imp(a, sc.Bool(e.Args[1])))
	case "<==>":
		return boolVal(Eq(sc.Bool(e.Args[0]), sc.Bool(e.Args[1])))
	case "&&":
		a := sc.Bool(e.Args[0])
		if a == False {
			return boolVal(False)
		}
		return boolVal(And(a, sc.Bool(e.Args[1])))
	case "||":
		a := sc.Bool(e.Args[0])
		if a == True {
			return boolVal(True)
		}
		return boolVal(Or(a, sc.Bool(e.Args[1])))
	case "in":
		m := sc.Eval(e.Args[1])
		k := sc.Eval(e.Args[0])
		if m.T != nil {
			if _, ok := m.T.Underlying().(*types.Map); ok {
				return boolVal(Select(sc.u.mapDom(sc.st, m.T, m.term()), k.term()))
			}
		}
		if m.S != "" && strings.HasPrefix(m.L[0].Sort, "(Array") {
			return boolVal(Select(m.L[0], k.term()))
		}
		sc.err(e, "in: not a map")
	}
	a, b := sc.Eval(e.Args[0]), sc.Eval(e.Args[1])
	switch e.S {
	case "==":
		return boolVal(sc.eqVals(e, a, b))
	case "!=":
		return boolVal(Not(sc.eqVals(e, a, b)))
	}
	a, b = sc.unify(a, b)
	x, y := a.term(), b.term()
	if x.Sort != y.Sort {
		sc.err(e, "operands of %s have sorts %s, %s", e.S, x.Sort, y.Sort)
	}
	ty := a.T
	if a.S == "lit" && b.T != nil {
		ty = b.T
	}
	mk := func(t *Term) Val {
		s := ""
		if a.S == "lit" && b.S == "lit" {
			s = "lit"
		}
		if ty == nil {
			return Val{S: t.Sort, L: []*Term{t}}
		}
		return Val{T: ty, S: s, L: []*Term{t}}
	}
	switch e.S {
	case "<":
		return boolVal(cmpLt(x, y, true))
	case "<=":
		return boolVal(cmpLe(x, y, true))
	case ">":
		return boolVal(cmpLt(y, x, true))
	case ">=":
		return boolVal(cmpLe(y, x, true))
	case "+":
		if x.Sort == SStr {
			return strVal(strCat(x, y))
		}
		return mk(specAdd(x, y))
	case "-":
		return mk(specSub(x, y))
	case "*":
		return mk(specMul(x, y))
	case "/":
		if x.Sort == SInt {
			return mk(divmod("div", x, y))
		}
		return mk(specDiv(x, y))
	case "%":
		return mk(divmod("mod", x, y))
	}
	sc.err(e, "operator %s", e.S)
	return Val{}
}

func specAdd(x, y *Term) *Term {
	switch x.Sort {
	case SFlt, SFP:
		return fAdd(x, y)
	case SBV:
		return App("bvadd", SBV, x, y)
	}
	return Add(x, y)
}
func specSub(x, y *Term) *Term {
	switch x.Sort {
	case SFlt, SFP:
		return fSub(x, y)
	case SBV:
		return App("bvsub", SBV, x, y)
	}
	return Sub(x, y)
}
func specMul(x, y *Term) *Term {
	switch x.Sort {
	case SFlt, SFP:
		return fMul(x, y)
	case SBV:
		return App("bvmul", SBV, x, y)
	}
	return Mul(x, y)
}
func specDiv(x, y *Term) *Term {
	if x.Sort == SReal {
		return realDiv(x, y)
	}
	return fDiv(x, y)
}

func realDiv(x, y *Term) *Term {
	if y.isLit() && y.Lit.Sign() != 0 {
		return Scale(new(big.Rat).Inv(y.Lit), x)
	}
	return App("/", SReal, x, y)
}

func cmpLt(x, y *Term, unsignedBV bool) *Term {
	switch x.Sort {
	case SFlt:
		return And(Not(fNaN(x)), Not(fNaN(y)), Lt(fKey(x), fKey(y)))
	case SFP:
		return App("fp.lt", SBool, x, y)
	case SBV:
		return App("bvult", SBool, x, y)
	case SStr:
		return App("@strlt", SBool, x, y)
	}
	return Lt(x, y)
}
func cmpLe(x, y *Term, unsignedBV bool) *Term {
	switch x.Sort {
	case SFlt:
		return And(Not(fNaN(x)), Not(fNaN(y)), Le(fKey(x), fKey(y)))
	case SFP:
		return App("fp.leq", SBool, x, y)
	case SBV:
		return App("bvule", SBool, x, y)
	case SStr:
		return Not(App("@strlt", SBool, y, x))
	}
	return Le(x, y)
}
func fNaN(x *Term) *Term { return App("@fnan", SBool, x) }
func fKey(x *Term) *Term { return App("@fkey", SReal, x) }

func fAdd(x, y *Term) *Term {
	switch floatMode {
	case "real":
		return Add(x, y)
	case "rnd":
		return rnd(Add(x, y))
	case "fp":
		return App("fp.add", SFP, rne, x, y)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return App("@fadd", SFlt, x, y)
}
func fSub(x, y *Term) *Term {
	switch floatMode {
	case "real":
		return Sub(x, y)
	case "rnd":
		return rnd(Sub(x, y))
	case "fp":
		return App("fp.sub", SFP, rne, x, y)
	}
	return App("@fsub", SFlt, x, y)
}
func fMul(x, y *Term) *Term {
	switch floatMode {
	case "real":
		return Mul(x, y)
	case "rnd":
		return rnd(Mul(x, y))
	case "fp":
		return App("fp.mul", SFP, rne, x, y)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return App("@fmul", SFlt, x, y)
}
func fDiv(x, y *Term) *Term {
	switch floatMode {
	case "real":
		return realDiv(x, y)
	case "rnd":
		return rnd(realDiv(x, y))
	case "fp":
		return App("fp.div", SFP, rne, x, y)
	}
	return App("@fdiv", SFlt, x, y)
}

var rne = App("RNE", "RoundingMode")

// rnd is the rounding of a real number to the nearest float64.
func rnd(x *Term) *Term {
	if x.isLit() {
		f, _ := x.Lit.Float64()
		return RealL(new(big.Rat).SetFloat64(f))
	}
	return App("@rnd", SReal, x)
}

var floatMode = "real"

func strCat(a, b *Term) *Term {
	if a == StrL("") {
		return b
	}
	if b == StrL("") {
		return a
	}
	return txtStr(txtAppStr(txtAppStr(tEmpty(), a), b))
}

func (sc *Scope) field(e *Expr) Val {
	// package-qualified name?
	if e.Args[0].Op == "id" {
		if _, isName := sc.names[e.Args[0].S]; !isName {
			if pk := sc.u.w.pkgByAlias(e.Args[0].S); pk != nil {
				o := pk.Pkg.Scope().Lookup(e.S)
				switch o := o.(type) {
				case *types.Const:
					return sc.u.constVal(o.Val(), o.Type())
				case *types.Var:
					if v, ok := sc.u.knownGlobal(sc.st, pk.Var(e.S)); ok {
						return v
					}
					return sc.u.load(sc.st, sc.u.globalPtr(pk.Var(e.S)))
				}
				sc.err(e, "unknown %s.%s", e.Args[0].S, e.S)
			}
		}
	}
	v := sc.Eval(e.Args[0])
	return sc.fieldOf(e, v, e.S)
}

func (sc *Scope) fieldOf(e *Expr, v Val, name string) Val {
	if v.T == nil {
		sc.err(e, "field %s of a spec value", name)
	}
	if len(v.Tup) > 0 {
		sc.err(e, "field of a tuple")
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		path := findField(p.Elem(), name)
		if path == nil {
			panic(specErr{fmt.Sprintf("%s:%d: no field %s in %v", e.Tok.file, e.Tok.line, name, p.Elem())})
		}
		pt := toPtr(v)
		for i, f := range path {
			pt = &Ptr{Pre: pt.Pre + "." + f.Name(), Base: pt.Base, Idx: pt.Idx, T: f.Type()}
			if i < len(path)-1 {
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					pt = toPtr(sc.u.load(sc.st, pt))
				}
			}
		}
		return sc.u.load(sc.st, pt)
	}
	path := findField(v.T, name)
	if path == nil {
		panic(specErr{fmt.Sprintf("%s:%d: no field %s in %v", e.Tok.file, e.Tok.line, name, v.T)})
	}
	for i, f := range path {
		v = projField(v, f)
		if i < len(path)-1 {
			if _, ok := f.Type().Underlying().(*types.Pointer); ok {
				v = sc.u.load(sc.st, toPtr(v))
			}
		}
	}
	return v
}

// projField extracts a direct field of a struct value.
func projField(v Val, f *types.Var) Val {
	s := v.T.Underlying().(*types.Struct)
	off := 0
	for i := 0; i < s.NumFields(); i++ {
		n := len(layout(s.Field(i).Type()))
		if s.Field(i) == f || s.Field(i).Name() == f.Name() {
			return Val{T: f.Type(), L: v.L[off : off+n]}
		}
		off += n
	}
	panic("projField")
}

func findField(t types.Type, name string) []*types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []*types.Var{s.Field(i)}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if r := findField(ft, name); r != nil {
				return append([]*types.Var{f}, r...)
			}
		}
	}
	return nil
}

func (sc *Scope) index(e *Expr) Val {
	a := sc.Eval(e.Args[0])
	i := sc.Eval(e.Args[1])
	if a.Tup != nil && a.S == "seq" {
		panic("seq")
	}
	if q, ok := seqTab[a.S]; ok {
		r := Val{T: q.Elem}
		for _, row := range q.Rows {
			r.L = append(r.L, Select(row, Add(q.Off, i.term())))
		}
		return r
	}
	if a.T == nil {
		if a.S == "map" && len(a.L) == 2 {
			t := Select(a.L[1], i.term())
			return Val{S: t.Sort, L: []*Term{t}, T: sortType(t.Sort)}
		}
		if strings.HasPrefix(a.L[0].Sort, "(Array") {
			t := Select(a.L[0], i.term())
			return Val{S: t.Sort, L: []*Term{t}, T: sortType(t.Sort)}
		}
		sc.err(e, "index of %s", a.S)
	}
	switch t := a.T.Underlying().(type) {
	case *types.Slice:
		return sc.u.loadElem(sc.st, a, i.term())
	case *types.Map:
		return sc.u.mapVal(sc.st, a.T, a.term(), i.term())
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return intVal(App("@strat", SInt, a.term(), i.term()))
		}
	}
	sc.err(e, "index of %v", a.T)
	return Val{}
}

func sortType(s Sort) types.Type {
	switch s {
	case SInt:
		return types.Typ[types.Int]
	case SBool:
		return types.Typ[types.Bool]
	case SStr:
		return types.Typ[types.String]
	case SBV:
		return types.Typ[types.Uint64]
	}
	if s == floatSort {
		return types.Typ[types.Float64]
	}
	return nil
}

// loadElem reads a slice element without bounds checks.
func (u *Unit) loadElem(st *State, a Val, i *Term) Val {
	el := a.T.Underlying().(*types.Slice).Elem()
	return u.load(st, &Ptr{Pre: "E:" + typeKey(el), Base: a.L[0], Idx: Add(a.L[1], i), T: el})
}

var seqTab = map[Sort]*SeqV{}

func mkSeq(q *SeqV) Val {
	k := "seq"
	for _, r := range q.Rows {
		k += fmt.Sprintf("/%d", r.ID)
	}
	k += fmt.Sprintf("@%d+%d:%s", q.Off.ID, q.Len.ID, typeKey(q.Elem))
	seqTab[k] = q
	return Val{S: k, L: append(append([]*Term{}, q.Rows...), q.Off, q.Len)}
}

// toSeq snapshots the contents of a slice.
func (sc *Scope) toSeq(e *Expr, v Val) *SeqV {
	if q, ok := seqTab[v.S]; ok {
		return q
	}
	if v.T == nil || !isSliceT(v.T) {
		sc.err(e, "slice expected")
	}
	el := v.T.Underlying().(*types.Slice).Elem()
	q := &SeqV{Elem: el, Off: v.L[1], Len: v.L[2]}
	for _, l := range layout(el) {
		m := sc.st.get(sc.u, "E:"+typeKey(el)+l.Path, heapSort(l.Sort, true, true))
		q.Rows = append(q.Rows, Select(m, v.L[0]))
	}
	return q
}

// flattenArg turns a spec argument into UF arguments for a declared parameter type.
func (sc *Scope) flattenArg(e *Expr, ty string, v Val) []*Term {
	if strings.HasPrefix(ty, "[]") {
		q := sc.toSeq(e, v)
		return append(append([]*Term{}, q.Rows...), q.Off, q.Len)
	}
	if strings.HasPrefix(ty, "map[") {
		if v.T == nil {
			return v.L
		}
		m, k := mapKeys(v.T)
		out := []*Term{sc.u.mapDom(sc.st, v.T, v.term())}
		for _, l := range layout(m.Elem()) {
			a := sc.st.get(sc.u, "MV:"+k+l.Path, ArrSort(SInt, ArrSort(keySort(m.Key()), l.Sort)))
			out = append(out, Select(a, v.term()))
		}
		return out
	}
	s := sc.u.w.specSort(ty)
	t := v.term()
	if s != "" && t.Sort != s {
		if v.S == "lit" || t.isLit() {
			_, b := sc.unify(Val{L: []*Term{Symb("dummy."+s, s)}}, Val{S: "lit", L: v.L})
			return b.L
		}
		if s == SReal && t.Sort == SInt {
			return []*Term{ToReal(t)}
		}
		sc.err(e, "argument sort %s, want %s (%s)", t.Sort, s, ty)
	}
	return []*Term{t}
}

func (sc *Scope) callDecl(e *Expr, d *RecDecl, args []Val) Val {
	w := sc.u.w
	if len(args) != len(d.Params) {
		sc.err(e, "%s: %d arguments, want %d", d.Name, len(args), len(d.Params))
	}
	switch d.Kind {
	case "macro":
		c := *sc
		c.names = map[string]Val{}
		for _, n := range sc.u.w.globalNames {
			if v, ok := sc.names[n]; ok {
				c.names[n] = v
			}
		}
		for i, p := range d.Params {
			v := args[i]
			if v.S == "nil" && p.Type != "" {
				if gt := w.goType(p.Type); gt != nil {
					v = zeroVal(gt)
				}
			}
			c.names[p.Name] = v
		}
		if d.Hidden && sc.u.c != nil && !sc.u.reveals(d.Name) {
			return sc.hidden(d, &c, args)
		}
		return c.Eval(d.Body)
	case "uf", "rec":
		var ts []*Term
		for i, p := range d.Params {
			ts = append(ts, sc.flattenArg(e, p.Type, args[i])...)
		}
		if d.Kind == "rec" {
			w.needRec(d)
		}
		t := App("@"+d.Name, w.specSort(d.Ret), ts...)
		return w.specVal(d.Ret, t)
	}
	sc.err(e, "%s is not callable", d.Name)
	return Val{}
}

// sealed are the recursive functions the unit being verified treats as uninterpreted.
var sealed = map[string]bool{}

// needRec compiles the definition of a recursive function once.
func (w *World) needRec(d *RecDecl) {
	n := "@" + d.Name
	if _, ok := recDefs[n]; ok || sealed[d.Name] {
		return
	}
	rd := &RecDef{Name: n}
	recDefs[n] = rd
	sc := &Scope{u: w.specUnit(), names: map[string]Val{}}
	sc.st = sc.u.entry
	sc.old = sc.u.entry
	rd.Params, sc.names = w.declParams(d)
	rd.Body = func() *Term {
		v := sc.Eval(d.Body)
		want := w.specSort(d.Ret)
		if v.term().Sort != want {
			a, _ := sc.unify(v, Val{L: []*Term{Symb("dummy."+want, want)}})
			return a.term()
		}
		return v.term()
	}()
}

// declParams creates symbols for declaration parameters.
func (w *World) declParams(d *RecDecl) ([]*Term, map[string]Val) {
	var ps []*Term
	names := map[string]Val{}
	for _, p := range d.Params {
		base := d.Name + "." + p.Name
		switch {
		case strings.HasPrefix(p.Type, "[]"):
			el := w.goType(p.Type[2:])
			if el == nil {
				panic(specErr{d.Pos + ": unknown type " + p.Type})
			}
			q := &SeqV{Elem: el}
			for _, l := range layout(el) {
				r := Symb("p:"+base+l.Path, ArrSort(SInt, l.Sort))
				q.Rows = append(q.Rows, r)
				ps = append(ps, r)
			}
			q.Off, q.Len = Symb("p:"+base+".off", SInt), Symb("p:"+base+".len", SInt)
			ps = append(ps, q.Off, q.Len)
			names[p.Name] = mkSeq(q)
		case strings.HasPrefix(p.Type, "map["):
			mt := w.goType(p.Type).Underlying().(*types.Map)
			dom := Symb("p:"+base+".dom", ArrSort(keySort(mt.Key()), SBool))
			ps = append(ps, dom)
			v := Val{S: "map", L: []*Term{dom}}
			for _, l := range layout(mt.Elem()) {
				a := Symb("p:"+base+l.Path, ArrSort(keySort(mt.Key()), l.Sort))
				ps = append(ps, a)
				v.L = append(v.L, a)
			}
			names[p.Name] = v
		default:
			s := w.specSort(p.Type)
			if s == "" {
				panic(specErr{d.Pos + ": unknown type " + p.Type})
			}
			b := Symb("p:"+base, s)
			ps = append(ps, b)
			names[p.Name] = w.specVal(p.Type, b)
		}
	}
	return ps, names
}

func (sc *Scope) call(e *Expr) Val {
	u := sc.u
	name := e.S
	arg := func(i int) Val {
		if i >= len(e.Args) {
			sc.err(e, "%s: missing argument", name)
		}
		return sc.Eval(e.Args[i])
	}
	T := func(i int) *Term { return arg(i).term() }
	switch name {
	case "old":
		if sc.old == nil {
			sc.err(e, "old not available")
		}
		return sc.with(sc.old).Eval(e.Args[0])
	case "entry":
		if sc.ent == nil {
			panic(specErr{"entry outside loop"})
		}
		c := sc.with(sc.ent)
		if len(sc.entNames) > 0 {
			c.names = make(map[string]Val, len(sc.names))
			for k, v := range sc.names {
				c.names[k] = v
			}
			for k, v := range sc.entNames {
				c.names[k] = v
			}
		}
		return c.Eval(e.Args[0])
	case "len":
		v := arg(0)
		if q, ok := seqTab[v.S]; ok {
			return intVal(q.Len)
		}
		switch v.T.Underlying().(type) {
		case *types.Slice:
			return intVal(v.L[2])
		case *types.Map:
			return intVal(Ite(Eq(v.term(), IntL(0)), IntL(0), u.mapLen(sc.st, v.T, v.term())))
		case *types.Basic:
			return intVal(App("@strlen", SInt, v.term()))
		}
		sc.err(e, "len of %v", v.T)
	case "cap":
		return intVal(arg(0).L[3])
	case "ref":
		v := arg(0)
		if v.P != nil {
			return intVal(v.P.Base)
		}
		if v.T != nil && isIface(v.T) {
			return intVal(v.L[1])
		}
		return intVal(v.L[0])
	case "off":
		return intVal(arg(0).L[1])
	case "visited", "visited1", "visited2":
		// has the (enclosing) loop over a map already visited this key?
		n := 0
		if len(e.S) > 7 {
			n = int(e.S[7] - '0')
		}
		if n >= len(sc.mits) || sc.mits[n] == nil {
			sc.err(e, "no map iteration here")
		}
		iv := sc.mits[n]
		m, k := mapKeys(iv.T)
		seenM := sc.st.get(u, "G:seen:"+k, ArrSort(SInt, ArrSort(keySort(m.Key()), SBool)))
		return boolVal(Select(Select(seenM, iv.L[0]), T(0)))
	case "tag":
		return intVal(arg(0).L[0])
	case "row":
		v := arg(0)
		q := sc.toSeq(e, v)
		if len(e.Args) > 1 {
			for i, l := range layout(q.Elem) {
				if l.Path == e.Args[1].S || l.Path == "."+e.Args[1].S {
					return Val{S: q.Rows[i].Sort, L: []*Term{q.Rows[i]}}
				}
			}
			sc.err(e, "no leaf %s", e.Args[1].S)
		}
		return Val{S: q.Rows[0].Sort, L: []*Term{q.Rows[0]}}
	case "heapof":
		// heapof("T"): contents of all slices with scalar elements T
		t := u.w.goType(e.Args[0].S)
		if t == nil {
			sc.err(e, "unknown type %s", e.Args[0].S)
		}
		l := layout(t)
		if len(l) != 1 {
			sc.err(e, "heapof of a composite type")
		}
		h := sc.st.get(u, "E:"+typeKey(t)+l[0].Path, heapSort(l[0].Sort, true, true))
		return Val{S: h.Sort, L: []*Term{h}}
	case "fieldheap":
		// fieldheap("T", "f"): the field f (one leaf) of all objects of type T
		t := u.w.goType(e.Args[0].S)
		if t == nil {
			sc.err(e, "unknown type %s", e.Args[0].S)
		}
		for _, l := range layout(t) {
			if sanitize(l.Path) == sanitize("."+e.Args[1].S) {
				key := objPrefix(t) + l.Path
				u.regLeaf(&Ptr{Pre: objPrefix(t)}, l)
				h := sc.st.get(u, key, heapSort(l.Sort, true, false))
				return Val{S: h.Sort, L: []*Term{h}}
			}
		}
		sc.err(e, "no scalar field %s", e.Args[1].S)
	case "inheap":
		// inheap(H, s): contents of slice s in heap H
		h, v := arg(0), arg(1)
		if v.T == nil || !isSliceT(v.T) {
			sc.err(e, "slice expected")
		}
		return mkSeq(&SeqV{Elem: v.T.Underlying().(*types.Slice).Elem(), Rows: []*Term{Select(h.L[0], v.L[0])}, Off: v.L[1], Len: v.L[2]})
	case "seq":
		return mkSeq(sc.toSeq(e, arg(0)))
	case "elem":
		// elem(ref-of-row array, index)
		a, i := T(0), T(1)
		t := Select(a, i)
		return Val{S: t.Sort, L: []*Term{t}, T: sortType(t.Sort)}
	case "istype":
		v := arg(0)
		if e.Args[1].Op != "str" {
			sc.err(e, "istype wants a type string")
		}
		t := u.w.goType(e.Args[1].S)
		if t == nil {
			sc.err(e, "unknown type %s", e.Args[1].S)
		}
		return boolVal(Eq(v.L[0], u.w.typeTag(t)))
	case "as":
		// the dynamic value of an interface, seen as a pointer type
		v := arg(0)
		if e.Args[1].Op != "str" {
			sc.err(e, "as wants a type string")
		}
		t := u.w.goType(e.Args[1].S)
		if t == nil || v.T == nil || !isIface(v.T) {
			sc.err(e, "as: bad use")
		}
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			sc.err(e, "as wants a pointer type")
		}
		return Val{T: t, L: []*Term{v.L[1]}}
	case "fresh":
		v := arg(0)
		r := v.leaves()[0]
		if v.T != nil && isIface(v.T) {
			r = v.L[1]
		}
		return boolVal(Le(sc.old.alloc(), r))
	case "allocated":
		v := arg(0)
		r := v.leaves()[0]
		return boolVal(And(Lt(IntL(0), r), Lt(r, sc.st.alloc())))
	case "min", "max":
		a, b := sc.unify(arg(0), arg(1))
		c := cmpLe(a.term(), b.term(), true)
		if name == "max" {
			c = cmpLe(b.term(), a.term(), true)
		}
		return Val{T: a.T, L: []*Term{Ite(c, a.term(), b.term())}}
	case "abs":
		a := arg(0)
		return Val{T: a.T, L: []*Term{absTerm(a.term())}}
	case "real":
		t := T(0)
		if t.Sort == SInt {
			t = ToReal(t)
		}
		return Val{T: types.Typ[types.Float64], S: "", L: []*Term{t}}
	case "flt":
		t := T(0)
		if t.Sort == SInt {
			return fltVal(intToFloat(t))
		}
		if t.isLit() && t.Sort == SReal && floatSort == SReal {
			// the float64 nearest to a decimal literal, as a Go constant has it
			f, _ := t.Lit.Float64()
			return fltVal(fltLit(f))
		}
		return fltVal(t)
	case "sqrt", "log", "exp":
		v := arg(0)
		t := v.term()
		if t.Sort == SInt {
			t = ToReal(t)
		}
		return fltVal(mathFn(name, t))
	case "rnd":
		v := T(0)
		if v.Sort == SInt {
			v = ToReal(v)
		}
		return fltVal(rnd(v))
	case "pow":
		return fltVal(App("@fpow", floatSort, T(0), T(1)))
	case "sel":
		a, i := T(0), T(1)
		t := Select(a, i)
		return Val{S: t.Sort, L: []*Term{t}, T: sortType(t.Sort)}
	case "upd":
		a, i, v := T(0), T(1), T(2)
		t := Store(a, i, v)
		return Val{S: t.Sort, L: []*Term{t}}
	case "isnil":
		v := arg(0)
		return boolVal(Eq(v.leaves()[0], IntL(0)))
	case "nan":
		return boolVal(fNaN(T(0)))
	case "floor":
		return intVal(App("to_int", SInt, T(0)))
	case "idiv":
		return intVal(divmod("div", T(0), T(1)))
	case "alloc0":
		return intVal(u.a0)
	case "slice4":
		v := arg(0)
		return Val{T: v.T, L: []*Term{v.L[0], Add(v.L[1], T(1)), T(2), T(2)}}
	case "ghostmap":
		// ghostmap("name","sort") -> array keyed by ref
		s := u.w.specSort(e.Args[1].S)
		t := sc.st.get(u, "G:"+e.Args[0].S, ArrSort(SInt, s))
		return Val{S: t.Sort, L: []*Term{t}}
	case "g":
		// g("name","type", ref): model state attached to an object
		s := u.w.specSort(e.Args[1].S)
		v := sc.Eval(e.Args[2])
		t := Select(sc.st.get(u, "G:"+e.Args[0].S, ArrSort(SInt, s)), identOf(v))
		u.ghostWF(e.Args[0].S, t)
		return u.w.specVal(e.Args[1].S, t)
	case "id":
		return intVal(identOf(arg(0)))
	case "string":
		return strVal(T(0))
	}
	if v, ok := sc.modelCall(e, name, arg); ok {
		return v
	}
	if d := u.w.spec.DeclByName[name]; d != nil {
		args := make([]Val, len(e.Args))
		for i := range e.Args {
			args[i] = arg(i)
		}
		return sc.callDecl(e, d, args)
	}
	sc.err(e, "unknown function %s", name)
	return Val{}
}

// identOf is the identity of a reference-like value.
func identOf(v Val) *Term {
	if v.P != nil {
		return ptrTerm(v.P)
	}
	if v.T != nil && isIface(v.T) {
		return v.L[1]
	}
	return v.L[0]
}

func absTerm(t *Term) *Term {
	switch t.Sort {
	case SFlt:
		return App("@fabs", SFlt, t)
	case SFP:
		return App("fp.abs", SFP, t)
	}
	return Ite(Le(litOf(t.Sort, new(big.Rat)), t), t, Neg(t))
}

func mathFn(name string, t *Term) *Term { return App("@f"+name, floatSort, t) }

func intToFloat(t *Term) *Term {
	if t.isLit() {
		f, _ := t.Lit.Float64()
		return fltLit(f)
	}
	switch floatMode {
	case "real", "rnd":
		return ToReal(t)
	case "ieee":
		return App("@i2f", SFlt, t)
	}
	panic(limit("int to float in fp mode"))
}

func (u *Unit) constVal(c constant.Value, t types.Type) Val {
	if t.Underlying() == types.Typ[types.UntypedNil] {
		return Val{S: "nil", L: []*Term{IntL(0)}}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []*Term{B(constant.BoolVal(c))}}
		case b.Info()&types.IsString != 0:
			return Val{T: t, L: []*Term{StrL(constant.StringVal(c))}}
		case b.Info()&types.IsInteger != 0:
			n, ok := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
			if !ok {
				panic(limit("constant " + c.String()))
			}
			if intSort == SBV {
				return Val{T: t, L: []*Term{BVL(n)}}
			}
			return Val{T: t, L: []*Term{IntBig(n)}}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c))
			return Val{T: t, L: []*Term{fltLit(f)}}
		}
	}
	panic(limit("constant of type " + t.String()))
}

func (u *Unit) reveals(n string) bool {
	for _, x := range u.c.Reveal {
		if x == n {
			return true
		}
	}
	return false
}

// hidden is an uninterpreted predicate of a macro's arguments and of the heaps its body reads.
func (sc *Scope) hidden(d *RecDecl, c *Scope, args []Val) Val {
	u := sc.u
	saved := u.reads
	u.reads = map[string]*Term{}
	c.Bool(d.Body)
	mine := u.reads
	u.reads = saved
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.L...)
	}
	var keys []string
	for k := range mine {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ts = append(ts, mine[k])
		if saved != nil {
			saved[k] = mine[k]
		}
	}
	return u.w.specVal("bool", App("@hid_"+d.Name, SBool, ts...))
}

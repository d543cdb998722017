package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt"
	SFP   Sort = "(_ FloatingPoint 11 53)"
	SBV   Sort = "(_ BitVec 64)"
	STxt  Sort = "Txt"
)

func ArrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrParts splits an array sort into key and value sorts.
func arrParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	Op    string // operator, symbol name, or "#int", "#real", "#bv", "forall", "exists"
	Args  []*Term
	Sort  Sort
	Lit   *big.Rat // literals
	Bound []*Term  // quantifiers
	Pats  [][]*Term
	ID    int
	Sym   bool // uninterpreted constant
	HasQ  bool // contains a quantifier
	fv    map[*Term]bool
	epoch int // for symbols: creation epoch; for terms: max epoch of its symbols
}

var (
	consTab  = map[string]*Term{}
	termByID = map[int]*Term{}
	termCnt  int
	symEpoch int
)

func cons(op string, sort Sort, lit *big.Rat, bound []*Term, sym bool, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	if lit != nil {
		sb.WriteString(lit.String())
	}
	if sym {
		sb.WriteByte('!')
	}
	for _, b := range bound {
		fmt.Fprintf(&sb, "^%d", b.ID)
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	k := sb.String()
	if t, ok := consTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{Op: op, Args: args, Sort: sort, Lit: lit, Bound: bound, ID: termCnt, Sym: sym}
	if op == "forall" || op == "exists" {
		t.HasQ = true
	}
	for _, a := range args {
		if a.HasQ {
			t.HasQ = true
		}
		if a.epoch > t.epoch {
			t.epoch = a.epoch
		}
	}
	if sym {
		t.epoch = symEpoch
	}
	consTab[k] = t
	termByID[t.ID] = t
	return t
}

var freshCnt = map[string]int{}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	freshCnt[base]++
	return cons(fmt.Sprintf("%s!%d", base, freshCnt[base]), s, nil, nil, true)
}
func Symb(name string, s Sort) *Term { return cons(sanitize(name), s, nil, nil, true) }

var (
	True  = cons("true", SBool, nil, nil, false)
	False = cons("false", SBool, nil, nil, false)
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntL(n int64) *Term      { return cons("#int", SInt, big.NewRat(n, 1), nil, false) }
func IntBig(n *big.Int) *Term { return cons("#int", SInt, new(big.Rat).SetInt(n), nil, false) }
func RealL(r *big.Rat) *Term  { return cons("#real", SReal, r, nil, false) }
func BVL(n *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), 64)
	v := new(big.Int).Mod(n, m)
	return cons("#bv", SBV, new(big.Rat).SetInt(v), nil, false)
}
func (t *Term) isLit() bool { return t.Lit != nil }

func App(op string, s Sort, args ...*Term) *Term { return cons(op, s, nil, nil, false, args...) }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	// canonical integer comparisons: not (a <= b)  ->  b < a is  b+1 <= a for Int
	if a.Op == "<=" && a.Args[0].Sort == SInt {
		return Le(Add(a.Args[1], IntL(1)), a.Args[0])
	}
	return App("not", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == True {
			continue
		}
		if x == False {
			return False
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x)] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == False {
			continue
		}
		if x == True {
			return True
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x)] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return App("or", SBool, out...)
}
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	return App("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
	}
	return App("ite", a.Sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts differ: %s : %s  vs %s : %s", a, a.Sort, b, b.Sort))
	}
	if a.isLit() && b.isLit() {
		return B(a.Lit.Cmp(b.Lit) == 0)
	}
	if a.Sort == SInt || a.Sort == SReal {
		d := Sub(a, b)
		if d.isLit() {
			return B(d.Lit.Sign() == 0)
		}
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if strLits[a] && strLits[b] {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

// ---- linear arithmetic normal form (Int and Real) ----

type lin struct {
	c  *big.Rat
	m  map[*Term]*big.Rat
	s  Sort
	ks []*Term
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Rat), m: map[*Term]*big.Rat{}, s: t.Sort}
	l.add(t, big.NewRat(1, 1))
	return l
}
func (l *lin) add(t *Term, k *big.Rat) {
	switch {
	case t.isLit():
		l.c.Add(l.c, new(big.Rat).Mul(t.Lit, k))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && len(t.Args) == 2 && t.Args[0].isLit():
		l.add(t.Args[1], new(big.Rat).Mul(k, t.Args[0].Lit))
	default:
		if o, ok := l.m[t]; ok {
			o.Add(o, k)
			if o.Sign() == 0 {
				delete(l.m, t)
			}
		} else if k.Sign() != 0 {
			l.m[t] = new(big.Rat).Set(k)
		}
	}
}
func litOf(s Sort, r *big.Rat) *Term {
	return cons(map[Sort]string{SInt: "#int", SReal: "#real"}[s], s, r, nil, false)
}
func (l *lin) term() *Term {
	ks := make([]*Term, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var args []*Term
	one := big.NewRat(1, 1)
	for _, k := range ks {
		co := l.m[k]
		if co.Cmp(one) == 0 {
			args = append(args, k)
		} else {
			args = append(args, App("*", l.s, litOf(l.s, co), k))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, litOf(l.s, new(big.Rat).Set(l.c)))
	}
	if len(args) == 1 {
		return args[0]
	}
	return App("+", l.s, args...)
}

func Add(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(1, 1))
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(litOf(a.Sort, new(big.Rat)), a) }
func Scale(k *big.Rat, a *Term) *Term {
	l := &lin{c: new(big.Rat), m: map[*Term]*big.Rat{}, s: a.Sort}
	l.add(a, k)
	return l.term()
}

// Mul multiplies; products of non-literals are distributed over sums and
// kept as sorted flat products, so equal polynomials are equal terms.
// mulOpaque keeps real products with a sum as they are (mode mul=opaque).
var mulOpaque bool

func Mul(a, b *Term) *Term {
	if a.isLit() {
		return Scale(a.Lit, b)
	}
	if b.isLit() {
		return Scale(b.Lit, a)
	}
	la, lb := toLin(a), toLin(b)
	wide := func(l *lin) bool { return len(l.m) > 1 || len(l.m) == 1 && l.c.Sign() != 0 }
	if len(la.m)*len(lb.m) > 64 || a.Sort == SReal && (wide(la) && wide(lb) || mulOpaque && (wide(la) || wide(lb))) {
		if a.ID > b.ID {
			a, b = b, a
		}
		return App("*", a.Sort, a, b)
	}
	out := &lin{c: new(big.Rat), m: map[*Term]*big.Rat{}, s: a.Sort}
	out.c.Mul(la.c, lb.c)
	for x, k := range la.m {
		out.add(x, new(big.Rat).Mul(k, lb.c))
		for y, k2 := range lb.m {
			out.add(prod(x, y), new(big.Rat).Mul(k, k2))
		}
	}
	for y, k := range lb.m {
		out.add(y, new(big.Rat).Mul(k, la.c))
	}
	return out.term()
}
func factors(t *Term) []*Term {
	if t.Op == "*" && !t.Args[0].isLit() {
		return t.Args
	}
	return []*Term{t}
}
func prod(x, y *Term) *Term {
	f := append(append([]*Term{}, factors(x)...), factors(y)...)
	sort.Slice(f, func(i, j int) bool { return f[i].ID < f[j].ID })
	// x * (1/x) is not cancelled (x may be 0)
	return App("*", x.Sort, f...)
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isLit() {
		return B(d.Lit.Sign() <= 0)
	}
	return App("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a.Sort == SInt {
		return Le(Add(a, IntL(1)), b)
	}
	d := Sub(a, b)
	if d.isLit() {
		return B(d.Lit.Sign() < 0)
	}
	return App("<", SBool, a, b)
}

// definitely different index terms
func distinctIdx(a, b *Term) bool {
	if a.Sort == SInt || a.Sort == SReal {
		d := Sub(a, b)
		return d.isLit() && d.Lit.Sign() != 0
	}
	if strLits[a] && strLits[b] && a != b {
		return true
	}
	if a.Sort == SBV && a.isLit() && b.isLit() {
		return a.Lit.Cmp(b.Lit) != 0
	}
	return false
}

func Select(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctIdx(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "ite" {
			x, y := Select(a.Args[1], i), Select(a.Args[2], i)
			if x == y {
				return x
			}
		}
		break
	}
	return App("select", v, a, i)
}
func Store(a, i, v *Term) *Term {
	_, vs := arrParts(a.Sort)
	if vs != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return App("store", a.Sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return App("constarr", s, v) }

func Forall(bound []*Term, body *Term) *Term {
	if body == True || body == False || len(bound) == 0 {
		return body
	}
	fv := FV(body)
	var bs []*Term
	for _, b := range bound {
		if fv[b] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	if body.Op == "forall" {
		return Forall(append(append([]*Term{}, bs...), body.Bound...), body.Args[0])
	}
	return cons("forall", SBool, nil, bs, false, body)
}
func Exists(bound []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	fv := FV(body)
	var bs []*Term
	for _, b := range bound {
		if fv[b] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	return cons("exists", SBool, nil, bs, false, body)
}

func FV(t *Term) map[*Term]bool {
	if t.fv != nil {
		return t.fv
	}
	m := map[*Term]bool{}
	if t.Sym {
		m[t] = true
	}
	for _, a := range t.Args {
		for k := range FV(a) {
			m[k] = true
		}
	}
	for _, b := range t.Bound {
		delete(m, b)
	}
	t.fv = m
	return m
}

// Subst replaces symbols.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	fv := FV(t)
	for k := range m {
		if fv[k] {
			hit = true
			break
		}
	}
	if !hit {
		memo[t] = t
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
	}
	r := Rebuild(t, args)
	memo[t] = r
	return r
}

// Rebuild re-applies the simplifying constructor of t to new arguments.
func Rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		r := args[0]
		for _, a := range args[1:] {
			r = Mul(r, a)
		}
		return r
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "forall":
		return Forall(t.Bound, args[0])
	case "exists":
		return Exists(t.Bound, args[0])
	case "div", "mod":
		return divmod(t.Op, args[0], args[1])
	case "to_real":
		return ToReal(args[0])
	}
	return cons(t.Op, t.Sort, t.Lit, t.Bound, t.Sym, args...)
}

func divmod(op string, a, b *Term) *Term {
	if a.isLit() && b.isLit() && b.Lit.Sign() != 0 {
		q, r := new(big.Int).DivMod(a.Lit.Num(), b.Lit.Num(), new(big.Int))
		if op == "div" {
			return IntBig(q)
		}
		return IntBig(r)
	}
	return App(op, SInt, a, b)
}
func ToReal(a *Term) *Term {
	if a.isLit() {
		return RealL(a.Lit)
	}
	if a.Op == "+" || (a.Op == "*" && a.Args[0].isLit()) {
		l := toLin(a)
		out := &lin{c: l.c, m: map[*Term]*big.Rat{}, s: SReal}
		for k, c := range l.m {
			out.add(App("to_real", SReal, k), c)
		}
		return out.term()
	}
	return App("to_real", SReal, a)
}

var strLits = map[*Term]bool{}
var strLitVal = map[*Term]string{}

func StrL(s string) *Term {
	t := cons("str$"+fmt.Sprintf("%x", s), SStr, nil, nil, true)
	t.epoch = 0
	strLits[t] = true
	strLitVal[t] = s
	return t
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	s := smtStr(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func litStr(t *Term) string {
	switch t.Op {
	case "#int":
		if t.Lit.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.Lit.Num()).String() + ")"
		}
		return t.Lit.Num().String()
	case "#bv":
		return "(_ bv" + t.Lit.Num().String() + " 64)"
	}
	n, d := t.Lit.Num(), t.Lit.Denom()
	neg := n.Sign() < 0
	s := new(big.Int).Abs(n).String() + ".0"
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + " " + d.String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func symName(n string) string { return "|" + n + "|" }

func smtStr(t *Term) string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}

func printTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	printTermTop(sb, t, names)
}
func printTermTop(sb *strings.Builder, t *Term, names map[*Term]string) {
	switch {
	case t.Lit != nil:
		sb.WriteString(litStr(t))
	case t.Sym:
		sb.WriteString(symName(t.Op))
	case len(t.Args) == 0:
		sb.WriteString(t.Op)
	case t.Op == "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		printTerm(sb, t.Args[0], names)
		sb.WriteByte(')')
	case t.Op == "forall" || t.Op == "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + symName(b.Op) + " " + b.Sort + ")")
		}
		sb.WriteString(") ")
		printTerm(sb, t.Args[0], names)
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.Op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTerm(sb, a, names)
		}
		sb.WriteByte(')')
	}
}

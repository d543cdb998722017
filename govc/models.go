package main

// Trusted models of the library functions the code calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mcall struct {
	u    *Unit
	fr   *Frame
	name string
	sig  *types.Signature
	args []Val
	st   *State
	pos  token.Pos
}

func (c *mcall) ret(v ...Val) []callRes { return []callRes{{c.st, v}} }
func (c *mcall) res(i int) types.Type   { return c.sig.Results().At(i).Type() }
func (c *mcall) fresh(i int) Val {
	return freshVal(c.u, c.st, "x."+c.name, c.res(i))
}

type modelFn func(c *mcall) []callRes

var errT = types.Universe.Lookup("error").Type()

func nilErr() Val { return zeroVal(errT) }

// newErr is some error value that is not nil.
func (u *Unit) newErr(st *State, base string) Val {
	v := Val{T: errT, L: []*Term{Fresh(base+".tag", SInt), Fresh(base+".dat", SInt)}}
	st.assume(Le(IntL(1), v.L[0]))
	return v
}

// maybeErr is a possibly nil error.
func (u *Unit) maybeErr(st *State, base string) Val {
	v := Val{T: errT, L: []*Term{Fresh(base+".tag", SInt), Fresh(base+".dat", SInt)}}
	st.assume(Le(IntL(0), v.L[0]))
	st.assume(Imp(Eq(v.L[0], IntL(0)), Eq(v.L[1], IntL(0))))
	return v
}
func isNilErr(v Val) *Term { return Eq(v.L[0], IntL(0)) }

func (u *Unit) external(fr *Frame, name string, sig *types.Signature, args []Val, st *State, pos token.Pos) []callRes {
	c := &mcall{u, fr, name, sig, args, st, pos}
	if m, ok := models[name]; ok {
		u.models[name] = true
		return m(c)
	}
	if strings.HasPrefix(name, "(*github.com/olekukonko/tablewriter.Table).") || strings.HasSuffix(name, ".init") && sig.Params().Len() == 0 {
		u.models[name] = true
		return u.freshResults(c)
	}
	// unknown external function: arbitrary results; slices it is given may be rewritten
	u.assumptions["external function "+name+" is assumed to change only the elements of slices passed to it and to return arbitrary values"] = true
	for _, a := range args {
		if a.T == nil {
			continue
		}
		u.havocArg(st, a)
	}
	return u.freshResults(c)
}

func (u *Unit) havocArg(st *State, a Val) {
	if a.P != nil {
		if a.P.T == nil {
			return
		}
		for _, l := range layout(a.P.T) {
			f := Fresh("ext", l.Sort)
			u.symBound[f] = st.alloc()
			u.regLeaf(a.P, l)
			u.storeLeaf(st, a.P, l.Path, f)
		}
		return
	}
	if isIface(a.T) && a.L[0].isLit() {
		if t := u.w.tagType[a.L[0].Lit.Num().Int64()]; t != nil && isSliceT(t) {
			u.havocArg(st, u.unbox(st, t, a.L[1]))
		}
		return
	}
	if isSliceT(a.T) {
		el := a.T.Underlying().(*types.Slice).Elem()
		for _, l := range layout(el) {
			key := "E:" + typeKey(el) + l.Path
			m := st.get(u, key, heapSort(l.Sort, true, true))
			f := Fresh("ext:"+key, ArrSort(SInt, l.Sort))
			u.rowBound[f] = st.alloc()
			st.set(u, key, Store(m, a.L[0], f))
		}
	}
}

func (u *Unit) freshResults(c *mcall) []callRes {
	var vals []Val
	c.st.aBase, c.st.aOff = func() (*Term, int64) {
		a := Fresh("A", SInt)
		c.st.assume(Le(c.st.alloc(), a))
		return a, 0
	}()
	for i := 0; i < c.sig.Results().Len(); i++ {
		vals = append(vals, c.fresh(i))
	}
	return c.ret(vals...)
}

// ---- texts ----

func tEmpty() *Term { return App("@tempty", STxt) }

func txtChar(t *Term, c rune) *Term { return App("@tc", STxt, t, IntL(int64(c))) }

// txtAppStr appends a string to a text.
func txtAppStr(t, s *Term) *Term {
	if lit, ok := strLitVal[s]; ok {
		for _, c := range lit {
			t = txtChar(t, c)
		}
		return t
	}
	if s.Op == "@strof" {
		return txtApp(t, s.Args[0])
	}
	return App("@ts", STxt, t, s)
}

// txtApp appends a text to a text.
func txtApp(t, x *Term) *Term {
	switch x.Op {
	case "@tempty":
		return t
	case "@tc", "@ts", "@tf6", "@td", "@tv":
		args := append([]*Term{txtApp(t, x.Args[0])}, x.Args[1:]...)
		return App(x.Op, STxt, args...)
	case "@tapp":
		return txtApp(txtApp(t, x.Args[0]), x.Args[1])
	}
	if t.Op == "@tempty" {
		return x
	}
	return App("@tapp", STxt, t, x)
}

func txtStr(t *Term) *Term {
	if t.Op == "@ts" && t.Args[0].Op == "@tempty" {
		return t.Args[1]
	}
	var cs []rune
	for x := t; ; x = x.Args[0] {
		if x.Op == "@tempty" {
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i], cs[j] = cs[j], cs[i]
			}
			return StrL(string(cs))
		}
		if x.Op != "@tc" {
			break
		}
		cs = append(cs, rune(x.Args[1].Lit.Num().Int64()))
	}
	return App("@strof", SStr, t)
}

// fmtText formats operands after a literal format.
func (u *Unit) fmtText(st *State, format *Term, ops Val) *Term {
	lit, ok := strLitVal[format]
	if !ok {
		return App("@fmt", STxt, format, ops.L[2])
	}
	t := tEmpty()
	k := int64(0)
	rs := []rune(lit)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			t = txtChar(t, rs[i])
			continue
		}
		j := i + 1
		for j < len(rs) && strings.ContainsRune("0123456789.+-# ", rs[j]) {
			j++
		}
		if j >= len(rs) {
			return App("@fmt", STxt, format, ops.L[2])
		}
		if rs[j] == '%' {
			t = txtChar(t, '%')
			i = j
			continue
		}
		verb := string(rs[i+1 : j+1])
		v := u.loadElem(st, ops, IntL(k))
		k++
		t = u.fmtOp(st, t, verb, v)
		i = j
	}
	return t
}

func (u *Unit) fmtOp(st *State, t *Term, verb string, v Val) *Term {
	v = u.resolve(st, v)
	if v.L[0].isLit() {
		ty := u.w.tagType[v.L[0].Lit.Num().Int64()]
		if ty != nil {
			switch b := ty.Underlying().(type) {
			case *types.Basic:
				x := u.unbox(st, ty, v.L[1])
				switch {
				case b.Info()&types.IsString != 0 && (verb == "v" || verb == "s"):
					return txtAppStr(t, x.term())
				case b.Info()&types.IsInteger != 0 && (verb == "v" || verb == "d") && x.term().Sort == SInt:
					return App("@td", STxt, t, x.term())
				case b.Info()&types.IsFloat != 0 && (verb == "f" || verb == ".6f"):
					return App("@tf6", STxt, t, x.term())
				}
			}
		}
	}
	return App("@tv", STxt, t, StrL(verb), v.L[0], v.L[1])
}

// ---- streams ----

func stream(u *Unit, st *State, r Val) *Term {
	id := identOf(r)
	return App("@stream", SInt, id, u.gget(st, "rpos", id, SInt))
}

const maxInt = int64(^uint64(0) >> 1)

func litInt(t *Term) (int64, bool) {
	if t.isLit() && t.Lit.IsInt() && t.Lit.Num().IsInt64() {
		return t.Lit.Num().Int64(), true
	}
	return 0, false
}

func (u *Unit) scMode(st *State, s *Term) (int64, bool) {
	m := u.gget(st, "scmode", s, SInt)
	return litInt(m)
}

var models map[string]modelFn

func (u *Unit) refNonNil(c *mcall, v Val, what string) {
	u.oblige(c.st, "safety", "nil receiver "+what, u.posOf(c.pos), Not(Eq(v.leaves()[0], IntL(0))))
}

func retNew(c *mcall) Val {
	r := c.u.newRef(c.st)
	return Val{T: c.res(0), L: []*Term{r}}
}

func floatFn(op string) modelFn {
	return func(c *mcall) []callRes {
		var ts []*Term
		for _, a := range c.args {
			ts = append(ts, a.term())
		}
		return c.ret(fltVal(App(op, floatSort, ts...)))
	}
}

func init() {
	models = map[string]modelFn{
		"(*bufio.Scanner).Buffer": func(c *mcall) []callRes {
			c.u.gset(c.st, "sclim", identOf(c.args[0]), c.args[2].term())
			return c.ret()
		},
		"(*bufio.Scanner).Split": func(c *mcall) []callRes {
			f := c.u.lookupFunc(c.args[1])
			if f == nil || f.Fn == nil {
				panic(limit("split function of a scanner"))
			}
			switch f.Fn.String() {
			case "bufio.ScanWords":
				c.u.gset(c.st, "scmode", identOf(c.args[0]), IntL(1))
			case "bufio.ScanLines":
				c.u.gset(c.st, "scmode", identOf(c.args[0]), IntL(0))
			default:
				panic(limit("split function " + f.Fn.String()))
			}
			return c.ret()
		},
		"(*bufio.Scanner).Scan": scanModel,
		"(*bufio.Scanner).Text": func(c *mcall) []callRes {
			return c.ret(strVal(c.u.gget(c.st, "sctext", identOf(c.args[0]), SStr)))
		},
		"(*bufio.Scanner).Bytes": func(c *mcall) []callRes { panic(limit("Scanner.Bytes")) },
		"(*bufio.Scanner).Err": func(c *mcall) []callRes {
			u := c.u
			f := u.gget(c.st, "scfail", identOf(c.args[0]), SBool)
			e := u.maybeErr(c.st, "scerr")
			c.st.assume(Eq(isNilErr(e), Not(f)))
			if p := u.w.tpkgs["io"]; p != nil {
				eof := u.load(c.st, &Ptr{Pre: "V:io.EOF", T: errT})
				c.st.assume(Or(Not(Eq(e.L[0], eof.L[0])), Not(Eq(e.L[1], eof.L[1]))))
			}
			return c.ret(e)
		},
		"bufio.NewScanner": func(c *mcall) []callRes {
			v := retNew(c)
			s := v.term()
			u, st := c.u, c.st
			u.gset(st, "scstream", s, stream(u, st, c.args[0]))
			u.gset(st, "scpos", s, IntL(0))
			u.gset(st, "scmode", s, IntL(0))
			u.gset(st, "sclim", s, IntL(65536))
			u.gset(st, "scfail", s, False)
			u.gset(st, "sctext", s, StrL(""))
			id := identOf(c.args[0])
			u.gset(st, "rpos", id, Fresh("rpos", SInt))
			return c.ret(v)
		},
		"(io.ReadSeeker).Seek": seekModel,
		"(io.Seeker).Seek":     seekModel,
		"(*os.File).Seek":      seekModel,

		"bufio.NewWriter": func(c *mcall) []callRes {
			v := retNew(c)
			u, st := c.u, c.st
			d := identOf(c.args[0])
			u.gset(st, "wdst", v.term(), d)
			u.gset(st, "wbase", v.term(), u.gget(st, "out", d, STxt))
			u.gset(st, "wpend", v.term(), tEmpty())
			u.gset(st, "wbad", v.term(), False)
			return c.ret(v)
		},
		"bufio.NewWriterSize": func(c *mcall) []callRes { return models["bufio.NewWriter"](c) },
		"(*bufio.Writer).WriteString": func(c *mcall) []callRes {
			e := c.u.bufWrite(c.st, identOf(c.args[0]), txtAppStr(tEmpty(), c.args[1].term()))
			return c.ret(c.fresh(0), e)
		},
		"(*bufio.Writer).WriteByte": func(c *mcall) []callRes { panic(limit("WriteByte")) },
		"(*bufio.Writer).Flush": func(c *mcall) []callRes {
			u, st := c.u, c.st
			w := identOf(c.args[0])
			d := u.gget(st, "wdst", w, SInt)
			base, pend := u.gget(st, "wbase", w, STxt), u.gget(st, "wpend", w, STxt)
			bad := u.gget(st, "wbad", w, SBool)
			e := u.maybeErr(st, "flush")
			s2 := st.clone()
			// accepted
			st.assume(isNilErr(e))
			st.assume(Not(bad))
			o := txtApp(base, pend)
			u.gset(st, "out", d, o)
			u.gset(st, "wbase", w, o)
			u.gset(st, "wpend", w, tEmpty())
			// refused
			s2.assume(Not(isNilErr(e)))
			u.gset(s2, "out", d, Fresh("out", STxt))
			u.gset(s2, "wbad", w, True)
			return []callRes{{st, []Val{e}}, {s2, []Val{e}}}
		},
		"(*bytes.Buffer).String": func(c *mcall) []callRes {
			return c.ret(strVal(txtStr(c.u.gget(c.st, "btext", identOf(c.args[0]), STxt))))
		},
		"(*bytes.Buffer).WriteString": func(c *mcall) []callRes {
			b := identOf(c.args[0])
			c.u.gset(c.st, "btext", b, txtAppStr(c.u.gget(c.st, "btext", b, STxt), c.args[1].term()))
			return c.ret(c.fresh(0), nilErr())
		},
		"(*bytes.Buffer).Reset": func(c *mcall) []callRes {
			c.u.gset(c.st, "btext", identOf(c.args[0]), tEmpty())
			return c.ret()
		},
		"(*strings.Builder).String":      func(c *mcall) []callRes { return models["(*bytes.Buffer).String"](c) },
		"(*strings.Builder).WriteString": func(c *mcall) []callRes { return models["(*bytes.Buffer).WriteString"](c) },
		"(*strings.Builder).Reset":       func(c *mcall) []callRes { return models["(*bytes.Buffer).Reset"](c) },

		"fmt.Fprintf": func(c *mcall) []callRes {
			return c.u.writeTo(c, c.args[0], c.u.fmtText(c.st, c.args[1].term(), c.args[2]))
		},
		"fmt.Fprint": func(c *mcall) []callRes {
			return c.u.writeTo(c, c.args[0], c.u.printText(c, c.args[1], false))
		},
		"fmt.Fprintln": func(c *mcall) []callRes {
			return c.u.writeTo(c, c.args[0], txtChar(c.u.printText(c, c.args[1], true), '\n'))
		},
		"io.WriteString": func(c *mcall) []callRes {
			return c.u.writeTo(c, c.args[0], txtAppStr(tEmpty(), c.args[1].term()))
		},
		"fmt.Sprintf": func(c *mcall) []callRes {
			return c.ret(strVal(txtStr(c.u.fmtText(c.st, c.args[0].term(), c.args[1]))))
		},
		"fmt.Errorf":                      func(c *mcall) []callRes { return c.ret(c.u.newErr(c.st, "errorf")) },
		"github.com/pkg/errors.Errorf":    func(c *mcall) []callRes { return c.ret(c.u.newErr(c.st, "errorf")) },
		"github.com/pkg/errors.New":       func(c *mcall) []callRes { return c.ret(c.u.newErr(c.st, "errorf")) },
		"errors.New":                      func(c *mcall) []callRes { return c.ret(c.u.newErr(c.st, "errorf")) },
		"github.com/pkg/errors.Wrapf":     wrapModel,
		"github.com/pkg/errors.Wrap":      wrapModel,
		"github.com/pkg/errors.WithStack": wrapModel,

		"math.Sqrt": func(c *mcall) []callRes { return c.ret(fltVal(mathFn("sqrt", c.args[0].term()))) },
		"math.Log":  func(c *mcall) []callRes { return c.ret(fltVal(mathFn("log", c.args[0].term()))) },
		"math.Exp":  func(c *mcall) []callRes { return c.ret(fltVal(mathFn("exp", c.args[0].term()))) },
		"math.Pow":  floatFn("@fpow"),
		"math.Abs":  func(c *mcall) []callRes { return c.ret(fltVal(absTerm(c.args[0].term()))) },
		"math.Max": func(c *mcall) []callRes {
			return c.ret(fltVal(Ite(cmpLe(c.args[0].term(), c.args[1].term(), false), c.args[1].term(), c.args[0].term())))
		},
		"math.Min": func(c *mcall) []callRes {
			return c.ret(fltVal(Ite(cmpLe(c.args[0].term(), c.args[1].term(), false), c.args[0].term(), c.args[1].term())))
		},
		"math.Trunc": func(c *mcall) []callRes {
			t := c.args[0].term()
			if t.Sort != SReal {
				panic(limit("math.Trunc outside real arithmetic"))
			}
			z := litOf(SReal, new(big.Rat))
			return c.ret(fltVal(Ite(Le(z, t), App("to_real", SReal, App("to_int", SInt, t)), Neg(App("to_real", SReal, App("to_int", SInt, Neg(t)))))))
		},
		"math.Floor": func(c *mcall) []callRes {
			return c.ret(fltVal(App("to_real", SReal, App("to_int", SInt, c.args[0].term()))))
		},
		"math.IsNaN": func(c *mcall) []callRes {
			if c.args[0].term().Sort == SReal {
				return c.ret(boolVal(False))
			}
			return c.ret(boolVal(fNaN(c.args[0].term())))
		},
		"math/rand.Float64": func(c *mcall) []callRes {
			v := c.fresh(0)
			if v.term().Sort == SReal {
				c.st.assume(And(Le(RealL(new(big.Rat)), v.term()), Lt(v.term(), RealL(big.NewRat(1, 1)))))
			}
			return c.ret(v)
		},
		"math/rand.Intn": func(c *mcall) []callRes {
			n := c.args[0].term()
			c.u.oblige(c.st, "safety", "rand.Intn argument", c.u.posOf(c.pos), Lt(IntL(0), n))
			v := c.fresh(0)
			c.st.assume(inRange(v.term(), n))
			return c.ret(v)
		},
		"strings.ToLower": func(c *mcall) []callRes { return c.ret(strVal(App("@lower", SStr, c.args[0].term()))) },
		"strings.HasPrefix": func(c *mcall) []callRes {
			return c.ret(boolVal(App("@hasprefix", SBool, c.args[0].term(), c.args[1].term())))
		},
		"strings.Fields": func(c *mcall) []callRes {
			v := retNew(c)
			s := c.args[0].term()
			n := App("@nfields", SInt, s)
			key := "E:string"
			m := c.st.get(c.u, key, heapSort(SStr, true, true))
			row := Fresh("fields", ArrSort(SInt, SStr))
			j := Symb("fr.j", SInt)
			c.st.assume(Le(IntL(0), n))
			c.st.assume(Forall([]*Term{j}, Imp(inRange(j, n), And(Eq(Select(row, j), App("@field", SStr, s, j)), Not(Eq(Select(row, j), StrL("")))))))
			c.st.set(c.u, key, Store(m, v.L[0], row))
			return c.ret(Val{T: c.res(0), L: []*Term{v.L[0], IntL(0), n, n}})
		},
		"strconv.ParseFloat": func(c *mcall) []callRes {
			s := c.args[0].term()
			e := c.u.maybeErr(c.st, "parsefloat")
			c.st.assume(Eq(isNilErr(e), App("@isfloat", SBool, s)))
			r := Fresh("pf", floatSort)
			c.st.assume(Imp(App("@isfloat", SBool, s), Eq(r, App("@parsefloat", floatSort, s))))
			return c.ret(fltVal(r), e)
		},
		"sort.SliceStable": sortModel,
		"sort.Slice":       sortModel,
		"sort.Search":      searchModel,

		"context.Background":                      func(c *mcall) []callRes { v := c.fresh(0); c.st.assume(Le(IntL(1), v.L[0])); return c.ret(v) },
		"golang.org/x/sync/semaphore.NewWeighted": func(c *mcall) []callRes { return c.ret(retNew(c)) },
		"(*golang.org/x/sync/semaphore.Weighted).Acquire": func(c *mcall) []callRes {
			return c.ret(nilErr()) // Background is never cancelled
		},
		"(*golang.org/x/sync/semaphore.Weighted).Release": func(c *mcall) []callRes { return c.ret() },
		"(*sync.WaitGroup).Add":                           func(c *mcall) []callRes { return c.ret() },
		"(*sync.WaitGroup).Done":                          func(c *mcall) []callRes { return c.ret() },
		"(*sync.WaitGroup).Wait":                          func(c *mcall) []callRes { return c.ret() },
		"(*sync.Mutex).Lock":                              func(c *mcall) []callRes { return c.ret() },
		"(*sync.Mutex).Unlock":                            func(c *mcall) []callRes { return c.ret() },
		"(*sync.RWMutex).Lock":                            func(c *mcall) []callRes { return c.ret() },
		"(*sync.RWMutex).Unlock":                          func(c *mcall) []callRes { return c.ret() },
		"(*sync.RWMutex).RLock":                           func(c *mcall) []callRes { return c.ret() },
		"(*sync.RWMutex).RUnlock":                         func(c *mcall) []callRes { return c.ret() },
		"runtime.NumCPU": func(c *mcall) []callRes {
			v := c.fresh(0)
			c.st.assume(Le(IntL(1), v.term()))
			return c.ret(v)
		},
		"time.Now":        func(c *mcall) []callRes { return c.ret(c.fresh(0)) },
		"(time.Time).Sub": func(c *mcall) []callRes { return c.ret(c.fresh(0)) },
		"fmt.Printf":      pureModel,
		"fmt.Println":     pureModel,
		"fmt.Print":       pureModel,

		"go/parser.ParseExpr": func(c *mcall) []callRes {
			e := c.u.maybeErr(c.st, "parse")
			v := c.fresh(0)
			c.st.assume(Imp(isNilErr(e), Le(IntL(1), v.L[0])))
			c.st.assume(Imp(Le(IntL(1), v.L[0]), Le(IntL(1), v.L[1])))
			// the tree depends on the text only
			c.st.assume(Eq(isNilErr(e), App("@exprok", SBool, c.args[0].term())))
			return c.ret(v, e)
		},
		"(*go/ast.Ident).String": func(c *mcall) []callRes {
			p := toPtr(c.args[0])
			return c.ret(strVal(c.u.loadLeaf(c.st, p, ".Name", SStr)))
		},
		"(go/token.Token).String": func(c *mcall) []callRes {
			return c.ret(strVal(App("@tokstr", SStr, c.args[0].term())))
		},

		"os.Stat": func(c *mcall) []callRes {
			e := c.u.maybeErr(c.st, "stat")
			ex := Select(c.st.get(c.u, "GS:exists", ArrSort(SStr, SBool)), c.args[0].term())
			c.st.assume(Eq(isNilErr(e), ex))
			return c.ret(c.fresh(0), e)
		},
		"os.IsNotExist": func(c *mcall) []callRes { return c.ret(c.fresh(0)) },
		"os.Create": func(c *mcall) []callRes {
			u, st := c.u, c.st
			s2 := st.clone()
			e := u.newErr(s2, "create")
			// failed: whether the file exists now is not known
			f2 := Fresh("exists", ArrSort(SStr, SBool))
			s2.set(u, "GS:exists", f2)
			v := retNew(c)
			m := st.get(u, "GS:exists", ArrSort(SStr, SBool))
			st.set(u, "GS:exists", Store(m, c.args[0].term(), True))
			u.gset(st, "fname", v.term(), c.args[0].term())
			return []callRes{{st, []Val{v, nilErr()}}, {s2, []Val{zeroVal(c.res(0)), e}}}
		},
		"os.Open": func(c *mcall) []callRes {
			u, st := c.u, c.st
			s2 := st.clone()
			e := u.newErr(s2, "open")
			v := retNew(c)
			u.gset(st, "fname", v.term(), c.args[0].term())
			u.gset(st, "rpos", v.term(), IntL(0))
			return []callRes{{st, []Val{v, nilErr()}}, {s2, []Val{zeroVal(c.res(0)), e}}}
		},
		"os.MkdirAll": func(c *mcall) []callRes {
			f := Fresh("exists", ArrSort(SStr, SBool))
			c.st.set(c.u, "GS:exists", f)
			return c.ret(c.u.maybeErr(c.st, "mkdir"))
		},
		"(*os.File).Close":              func(c *mcall) []callRes { return c.ret(c.u.maybeErr(c.st, "close")) },
		"path/filepath.Dir":             func(c *mcall) []callRes { return c.ret(strVal(App("@dirof", SStr, c.args[0].term()))) },
		"runtime/pprof.StartCPUProfile": func(c *mcall) []callRes { return c.ret(c.u.maybeErr(c.st, "pprof")) },
		"runtime/pprof.StopCPUProfile":  func(c *mcall) []callRes { return c.ret() },
		"(error).Error":                 pureModel,
	}
	for _, k := range []string{"Bool", "Float64", "Int", "String", "Int64", "Uint"} {
		models["(*github.com/spf13/pflag.FlagSet)."+k+"Var"] = flagModel
		models["(*github.com/spf13/pflag.FlagSet)."+k+"VarP"] = flagModelP
	}
	models["(*github.com/spf13/cobra.Command).Flags"] = func(c *mcall) []callRes {
		// one flag set per command
		r := App("@flagset", SInt, identOf(c.args[0]))
		c.st.assume(Le(IntL(1), r))
		v := Val{T: c.res(0), L: []*Term{r}}
		c.u.wfFacts[r] = nil
		return c.ret(v)
	}
}

func pureModel(c *mcall) []callRes {
	var vals []Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		vals = append(vals, c.fresh(i))
	}
	return c.ret(vals...)
}

func wrapModel(c *mcall) []callRes {
	e := c.u.maybeErr(c.st, "wrap")
	c.st.assume(Eq(isNilErr(e), isNilErr(c.args[0])))
	return c.ret(e)
}

func seekModel(c *mcall) []callRes {
	u, st := c.u, c.st
	id := identOf(c.args[0])
	o, w := c.args[1].term(), c.args[2].term()
	if o == IntL(0) && w == IntL(0) {
		u.gset(st, "rpos", id, IntL(0))
	} else {
		u.gset(st, "rpos", id, Fresh("rpos", SInt))
	}
	u.assumptions["Seek(0, SeekStart) on the input succeeds and makes the same bytes readable again"] = true
	return c.ret(c.fresh(0), u.maybeErr(st, "seek"))
}

func scanModel(c *mcall) []callRes {
	u, st := c.u, c.st
	s := identOf(c.args[0])
	u.refNonNil(c, c.args[0], "Scan")
	strm := u.gget(st, "scstream", s, SInt)
	pos := u.gget(st, "scpos", s, SInt)
	lim := u.gget(st, "sclim", s, SInt)
	mode := u.gget(st, "scmode", s, SInt)
	m, ok := litInt(mode)
	if !ok {
		if t := u.litOfTerm(st, mode); t != nil {
			m, ok = litInt(t)
		}
	}
	if !ok {
		panic(limit("scanner of unknown mode"))
	}
	nf, wf := "@nlines", "@line"
	if m == 1 {
		nf, wf = "@nwords", "@word"
	}
	n := App(nf, SInt, strm)
	fails := Or(App("@rfails", SBool, strm), App("@toolong", SBool, strm, IntL(m), lim))
	if k, ok := litInt(lim); ok && k == maxInt {
		fails = App("@rfails", SBool, strm)
	}
	bad := u.gget(st, "scfail", s, SBool)
	s1, s2 := st, st.clone()
	s3 := st.clone()
	// a token
	s1.assume(Lt(pos, n))
	s1.assume(Not(bad))
	u.gset(s1, "sctext", s, App(wf, SStr, strm, pos))
	u.gset(s1, "scpos", s, Add(pos, IntL(1)))
	// end of input
	s2.assume(Le(n, pos))
	s2.assume(Not(fails))
	s2.assume(Not(bad))
	u.gset(s2, "sctext", s, StrL(""))
	// failure
	s3.assume(Or(fails, bad))
	u.gset(s3, "scfail", s, True)
	u.gset(s3, "sctext", s, StrL(""))
	return []callRes{{s1, []Val{boolVal(True)}}, {s2, []Val{boolVal(False)}}, {s3, []Val{boolVal(False)}}}
}

func (u *Unit) bufWrite(st *State, w *Term, t *Term) Val {
	e := u.maybeErr(st, "bw")
	u.gset(st, "wpend", w, txtApp(u.gget(st, "wpend", w, STxt), t))
	bad := u.gget(st, "wbad", w, SBool)
	nb := Fresh("wbad", SBool)
	st.assume(Eq(nb, Or(bad, Not(isNilErr(e)))))
	u.gset(st, "wbad", w, nb)
	// part of the text may already have reached the destination
	u.gset(st, "out", u.gget(st, "wdst", w, SInt), Fresh("out", STxt))
	return e
}

// writeTo models formatted output to an io.Writer.
func (u *Unit) writeTo(c *mcall, w Val, t *Term) []callRes {
	st := c.st
	w = u.resolve(st, w)
	if w.L[0].isLit() {
		ty := u.w.tagType[w.L[0].Lit.Num().Int64()]
		if ty != nil {
			switch types.TypeString(ty, nil) {
			case "*bytes.Buffer", "*strings.Builder":
				b := w.L[1]
				u.gset(st, "btext", b, txtApp(u.gget(st, "btext", b, STxt), t))
				return c.ret(c.fresh(0), nilErr())
			case "*bufio.Writer":
				return c.ret(c.fresh(0), u.bufWrite(st, w.L[1], t))
			}
		}
	}
	id := w.L[1]
	e := u.maybeErr(st, "write")
	s2 := st.clone()
	st.assume(isNilErr(e))
	u.gset(st, "out", id, txtApp(u.gget(st, "out", id, STxt), t))
	s2.assume(Not(isNilErr(e)))
	u.gset(s2, "out", id, Fresh("out", STxt))
	n := c.fresh(0)
	return []callRes{{st, []Val{n, e}}, {s2, []Val{n, e}}}
}

func (u *Unit) printText(c *mcall, ops Val, spaces bool) *Term {
	n, ok := litInt(ops.L[2])
	if !ok {
		return App("@print", STxt, ops.L...)
	}
	t := tEmpty()
	for i := int64(0); i < n; i++ {
		if i > 0 && spaces {
			t = txtChar(t, ' ')
		}
		t = u.fmtOp(c.st, t, "v", u.loadElem(c.st, ops, IntL(i)))
	}
	return t
}

// evalPred evaluates a boolean closure on symbolic arguments as one term.
func (u *Unit) evalPred(f Val, args []Val, st *State, pos token.Pos) *Term {
	fv := u.lookupFunc(u.resolve(st, f))
	if fv == nil || fv.Fn == nil {
		panic(limit("unknown predicate closure"))
	}
	base := st.pc
	s := st.clone()
	rs := u.runFunction(fv.Fn, fv.Binds, args, s, pos)
	var alts []*Term
	for _, r := range rs {
		alts = append(alts, And(append(delta(base, r.st.pc), r.vals[0].term())...))
	}
	return Or(alts...)
}

func sortModel(c *mcall) []callRes {
	u, st := c.u, c.st
	x := u.resolve(st, c.args[0])
	if !x.L[0].isLit() {
		panic(limit("sort of an unknown slice type"))
	}
	ty := u.w.tagType[x.L[0].Lit.Num().Int64()]
	sl := u.unbox(st, ty, x.L[1])
	el := ty.Underlying().(*types.Slice).Elem()
	n := sl.L[2]
	P, Q := Fresh("perm", ArrSort(SInt, SInt)), Fresh("perminv", ArrSort(SInt, SInt))
	j := Symb("fr.j", SInt)
	st.assume(Forall([]*Term{j}, Imp(inRange(j, n), And(inRange(Select(P, j), n), Eq(Select(Q, Select(P, j)), j)))))
	st.assume(Forall([]*Term{j}, Imp(inRange(j, n), And(inRange(Select(Q, j), n), Eq(Select(P, Select(Q, j)), j)))))
	for _, l := range layout(el) {
		key := "E:" + typeKey(el) + l.Path
		u.regLeaf(&Ptr{Pre: "E:" + typeKey(el)}, l)
		m := st.get(u, key, heapSort(l.Sort, true, true))
		old := Select(m, sl.L[0])
		f := Fresh("sorted", old.Sort)
		u.rowBound[f] = st.alloc()
		st.assume(Forall([]*Term{j}, Imp(And(Le(sl.L[1], j), Lt(j, Add(sl.L[1], n))), Eq(Select(f, j), Select(old, Add(sl.L[1], Select(P, Sub(j, sl.L[1]))))))))
		st.assume(Forall([]*Term{j}, Imp(Not(And(Le(sl.L[1], j), Lt(j, Add(sl.L[1], n)))), Eq(Select(f, j), Select(old, j)))))
		st.set(u, key, Store(m, sl.L[0], f))
	}
	a, b := Fresh("si", SInt), Fresh("sj", SInt)
	s := st.clone()
	s.assume(And(Le(IntL(0), a), Lt(a, b), Lt(b, n)))
	p := u.evalPred(c.args[1], []Val{intVal(b), intVal(a)}, s, c.pos)
	q1, q2 := Symb("fr.i", SInt), Symb("fr.j", SInt)
	body := Subst(p, map[*Term]*Term{a: q1, b: q2})
	st.assume(Forall([]*Term{q1, q2}, Imp(And(Le(IntL(0), q1), Lt(q1, q2), Lt(q2, n)), Not(body))))
	return c.ret()
}

func searchModel(c *mcall) []callRes {
	u, st := c.u, c.st
	n := c.args[0].term()
	r := Fresh("found", SInt)
	st.assume(Or(And(Le(IntL(0), r), Le(r, n)), And(Lt(n, IntL(0)), Eq(r, IntL(0)))))
	a := Fresh("probe", SInt)
	s := st.clone()
	s.assume(inRange(a, n))
	p := u.evalPred(c.args[1], []Val{intVal(a)}, s, c.pos)
	at := func(x *Term) *Term { return Subst(p, map[*Term]*Term{a: x}) }
	st.assume(Imp(Lt(IntL(0), r), Not(at(Sub(r, IntL(1))))))
	st.assume(Imp(Lt(r, n), at(r)))
	return c.ret(intVal(r))
}

func flagBind(c *mcall, name, def Val, p Val) []callRes {
	u, st := c.u, c.st
	pt := toPtr(p)
	u.store(st, pt, Val{T: pt.T, L: def.leaves()})
	key := "GS:flagptr"
	m := st.get(u, key, ArrSort(SStr, SInt))
	st.set(u, key, Store(m, name.term(), ptrTerm(pt)))
	k2 := "GS:flagdup"
	d := st.get(u, k2, ArrSort(SStr, SBool))
	u.eventHooks("flag", "", []Val{name, p}, st, u.posOf(c.pos))
	st.set(u, k2, Store(d, name.term(), True))
	return c.ret()
}
func flagModel(c *mcall) []callRes  { return flagBind(c, c.args[2], c.args[3], c.args[1]) }
func flagModelP(c *mcall) []callRes { return flagBind(c, c.args[2], c.args[4], c.args[1]) }

func (u *Unit) initOpaque(st *State, t types.Type, r *Term) {
	switch types.TypeString(t, nil) {
	case "bytes.Buffer", "strings.Builder":
		u.gset(st, "btext", r, tEmpty())
	}
}

// modelCall: contract builtins over the models' state.
func (sc *Scope) modelCall(e *Expr, name string, arg func(int) Val) (Val, bool) {
	u := sc.u
	T := func(i int) *Term { return arg(i).term() }
	txt := func(t *Term) (Val, bool) { return Val{S: STxt, L: []*Term{t}}, true }
	switch name {
	case "tempty":
		return txt(tEmpty())
	case "tstr":
		return txt(txtAppStr(T(0), T(1)))
	case "tchar":
		return txt(txtAppStr(T(0), T(1)))
	case "tf6":
		return txt(App("@tf6", STxt, T(0), T(1)))
	case "tint":
		return txt(App("@td", STxt, T(0), T(1)))
	case "tapp":
		return txt(txtApp(T(0), T(1)))
	case "textof":
		return txt(txtAppStr(tEmpty(), T(0)))
	case "out":
		return txt(u.gget(sc.st, "out", identOf(arg(0)), STxt))
	case "stream":
		return intVal(stream(u, sc.st, arg(0))), true
	case "stream0":
		// the bytes of a reader from its start
		return intVal(App("@stream", SInt, identOf(arg(0)), IntL(0))), true
	case "isfloat":
		return boolVal(App("@isfloat", SBool, T(0))), true
	case "parsefloat":
		return fltVal(App("@parsefloat", floatSort, T(0))), true
	case "fieldat":
		return strVal(App("@field", SStr, T(0), T(1))), true
	case "nwords", "nlines", "nfields":
		return intVal(App("@"+name, SInt, T(0))), true
	case "wordat":
		return strVal(App("@word", SStr, T(0), T(1))), true
	case "lineat":
		return strVal(App("@line", SStr, T(0), T(1))), true
	case "rfails":
		return boolVal(App("@rfails", SBool, T(0))), true
	case "toolong":
		return boolVal(App("@toolong", SBool, T(0), T(1), T(2))), true
	case "flagptr":
		return intVal(Select(sc.st.get(u, "GS:flagptr", ArrSort(SStr, SInt)), T(0))), true
	case "flagdup":
		return boolVal(Select(sc.st.get(u, "GS:flagdup", ArrSort(SStr, SBool)), T(0))), true
	case "exists_file":
		return boolVal(Select(sc.st.get(u, "GS:exists", ArrSort(SStr, SBool)), T(0))), true
	case "addr":
		return intVal(ptrTerm(u.lvalPtr(sc, e.Args[0]))), true
	case "lower":
		return strVal(App("@lower", SStr, T(0))), true
	case "hasprefix":
		return boolVal(App("@hasprefix", SBool, T(0), T(1))), true
	case "strlen":
		return intVal(strLen(T(0))), true
	case "dirof":
		return strVal(App("@dirof", SStr, T(0))), true
	case "tokstr":
		return strVal(App("@tokstr", SStr, T(0))), true
	case "funcid":
		// funcid("alias.Func"): the value of a function
		f, err := u.w.resolveFunc(e.Args[0].S)
		if err != "" {
			sc.err(e, "%s", err)
		}
		return u.funcVal(&FuncVal{Fn: f, Sig: f.Signature}, f.Signature), true
	}
	return Val{}, false
}

// builtinFacts are background facts about particular model functions.
func builtinFacts(ix *termIndex) []*Term {
	var out []*Term
	z := IntL(0)
	rz := RealL(new(big.Rat))
	one := RealL(big.NewRat(1, 1))
	for _, op := range []string{"@nwords", "@nlines", "@nfields", "@strlen"} {
		for _, t := range ix.byOp[op] {
			out = append(out, Le(z, t))
		}
	}
	for _, t := range ix.byOp["@fsqrt"] {
		if t.Sort != SReal {
			continue
		}
		x := t.Args[0]
		out = append(out, Imp(Le(rz, x), And(Le(rz, t), Eq(Mul(t, t), x))))
		out = append(out, Imp(Lt(rz, x), Lt(rz, t)))
	}
	for _, t := range ix.byOp["@fexp"] {
		if t.Sort == SReal {
			out = append(out, Lt(rz, t))
		}
	}
	for _, t := range ix.byOp["@flog"] {
		if t.Sort == SReal {
			x := t.Args[0]
			out = append(out, Imp(Eq(x, one), Eq(t, rz)))
		}
	}
	return out
}

var _ = fmt.Sprint
var _ = ssa.BuilderMode(0)

package main

// Contract language: lexer, parser.

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

type tok struct {
	k    byte // i ident, n number, s string, o operator, e eof
	s    string
	line int
	file string
}

type Expr struct {
	Op   string // num str ident call field index slice unop binop quant cond assert old
	S    string
	Args []*Expr
	Vars []Param
	Type string
	Trig [][]*Expr
	Tok  tok
}

type Param struct {
	Name, Type string
}

type Clause struct {
	Kind  string
	Label string
	E     *Expr
	Roles []Param
	Lvals []*Expr
	Props []string
	Pos   string
	Opt   map[string]bool
	Local bool // proved, but not known at the callers
}

type Hook struct {
	Event  string // call, go, send, recv, close, alloc
	Target string
	Params []string
	Res    []string
	Acts   []Act
	Pos    string
	Must   bool
}
type Act struct {
	Kind  string // assert, set, assume, havoc
	Label string
	Name  string
	E     *Expr
	When  *Expr
}

type Ghost struct {
	Name, Type string
	Init       *Expr
}

type Contract struct {
	Target   string
	As       string
	Params   []string
	Results  []string
	Props    []string
	Modes    map[string]string
	Requires []Clause
	Ensures  []Clause
	Invs     []Clause
	Modifies []*Expr
	ModAny   bool
	Lets     []struct {
		Name string
		E    *Expr
	}
	Hooks            []Hook
	Ghosts           []Ghost
	Reveal, Seal     []string
	Given            []Param // arbitrary constants: ensures clauses hold for all of them
	Trusted          string  // reason
	Inline           bool    // verified, but inlined at call sites
	Iface            bool
	Refines          string
	Opaque           map[string]*Contract // contracts of function-typed parameters
	Pos              string
	NoSafety         bool
	Unroll           bool
	MayNil           map[string]bool
	OnlyFor          map[string]bool // use at calls only from these
	Note             string
	Bounded          bool
	NoLoopCandidates bool
	Pure             bool
	Timeout          int
	UseLemmas        []string
	Impl             []string
	NoAuto           map[string]bool
	Apply            []string // the result is a function: apply it to these fresh arguments
	HasApply         bool
	FuncType         bool
}

type RecDecl struct {
	Hidden  bool // opaque outside the contracts that reveal it
	Name    string
	Params  []Param
	Ret     string
	Body    *Expr
	Macro   bool
	UF      bool
	Kind    string // rec, macro, uf, axiom, lemma
	Ind     string
	IndFrom *Expr
	Trig    [][]*Expr
	Props   []string
	Pos     string
	Modes   map[string]string
	Uses    []string
	Hints   []*Expr
	Manual  bool // used in contracts only where a contract names it
}

type SpecFile struct {
	Aliases    map[string]string
	Contracts  []*Contract
	Decls      []*RecDecl
	DeclByName map[string]*RecDecl
}

type parser struct {
	toks []tok
	p    int
	file string
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "<=", ">=", "==", "!=", "&&", "||", ":=", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{'i', src[i:j], line, file})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' || src[j] == 'e' || (src[j] == '-' && src[j-1] == 'e')) {
				j++
			}
			out = append(out, tok{'n', src[i:j], line, file})
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					case 'r':
						sb.WriteByte('\r')
					default:
						sb.WriteByte(src[j])
					}
				} else {
					sb.WriteByte(src[j])
				}
				j++
			}
			out = append(out, tok{'s', sb.String(), line, file})
			i = j + 1
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{'o', o, line, file})
					i += len(o)
					hit = true
					break
				}
			}
			if !hit {
				out = append(out, tok{'o', string(c), line, file})
				i++
			}
		}
	}
	out = append(out, tok{'e', "", line, file})
	return out
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) fail(f string, a ...any) {
	t := p.peek()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", t.file, t.line, fmt.Sprintf(f, a...), t.s))
}
func (p *parser) is(s string) bool { t := p.peek(); return t.k != 's' && t.k != 'e' && t.s == s }
func (p *parser) eat(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) want(s string) {
	if !p.eat(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *parser) pos() string { t := p.peek(); return fmt.Sprintf("%s:%d", t.file, t.line) }

// parseType returns the text of a type.
func (p *parser) parseType() string {
	switch {
	case p.eat("*"):
		return "*" + p.parseType()
	case p.eat("["):
		p.want("]")
		return "[]" + p.parseType()
	case p.is("map"):
		p.next()
		p.want("[")
		k := p.parseType()
		p.want("]")
		return "map[" + k + "]" + p.parseType()
	case p.is("arr"):
		p.next()
		p.want("(")
		k := p.parseType()
		p.want(",")
		v := p.parseType()
		p.want(")")
		return "arr(" + k + "," + v + ")"
	case p.is("chan"):
		p.next()
		return "chan " + p.parseType()
	case p.is("func"):
		p.next()
		return "func"
	}
	s := p.ident()
	if p.eat(".") {
		s += "." + p.ident()
	}
	return s
}

func (p *parser) params() []Param {
	p.want("(")
	var out []Param
	for !p.is(")") {
		n := p.ident()
		t := ""
		if !p.is(",") && !p.is(")") {
			t = p.parseType()
		}
		out = append(out, Param{n, t})
		if !p.eat(",") {
			break
		}
	}
	p.want(")")
	// a, b T
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}

func (p *parser) names() []string {
	var out []string
	p.want("(")
	for !p.is(")") {
		out = append(out, p.ident())
		if !p.eat(",") {
			break
		}
	}
	p.want(")")
	return out
}

var binPrec = map[string]int{"<==>": 1, "==>": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "in": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func (p *parser) expr() *Expr {
	e := p.bin(1)
	if p.is("?") {
		t := p.next()
		a := p.expr()
		p.want(":")
		b := p.expr()
		return &Expr{Op: "cond", Args: []*Expr{e, a, b}, Tok: t}
	}
	return e
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if !ok || t.k == 's' || t.k == 'e' || pr < min {
			return l
		}
		p.next()
		if pr == 1 {
			r := p.bin(1) // right associative
			l = &Expr{Op: "bin", S: t.s, Args: []*Expr{l, r}, Tok: t}
			continue
		}
		r := p.bin(pr + 1)
		if pr == 4 {
			res := &Expr{Op: "bin", S: t.s, Args: []*Expr{l, r}, Tok: t}
			prev := r
			for {
				t2 := p.peek()
				if t2.k == 'o' && binPrec[t2.s] == 4 {
					p.next()
					r2 := p.bin(5)
					res = &Expr{Op: "bin", S: "&&", Args: []*Expr{res, {Op: "bin", S: t2.s, Args: []*Expr{prev, r2}, Tok: t2}}, Tok: t}
					prev = r2
					continue
				}
				break
			}
			l = res
			continue
		}
		l = &Expr{Op: "bin", S: t.s, Args: []*Expr{l, r}, Tok: t}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == 'o' {
		switch t.s {
		case "!", "-":
			p.next()
			return &Expr{Op: "un", S: t.s, Args: []*Expr{p.unary()}, Tok: t}
		case "*":
			p.next()
			return &Expr{Op: "deref", Args: []*Expr{p.unary()}, Tok: t}
		}
	}
	if t.k == 'i' && (t.s == "forall" || t.s == "exists") {
		p.next()
		var vs []Param
		for {
			n := p.ident()
			ty := ""
			if !p.is(",") && !p.is(":") && !p.is("{") {
				ty = p.parseType()
			}
			vs = append(vs, Param{n, ty})
			if !p.eat(",") {
				break
			}
		}
		for i := len(vs) - 1; i >= 0; i-- {
			if vs[i].Type == "" {
				if i+1 < len(vs) {
					vs[i].Type = vs[i+1].Type
				} else {
					vs[i].Type = "int"
				}
			}
		}
		p.want(":")
		return &Expr{Op: t.s, Vars: vs, Args: []*Expr{p.expr()}, Tok: t}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch t.k {
	case 'n':
		e = &Expr{Op: "num", S: t.s, Tok: t}
	case 's':
		e = &Expr{Op: "str", S: t.s, Tok: t}
	case 'i':
		e = &Expr{Op: "id", S: t.s, Tok: t}
	case 'o':
		if t.s == "(" {
			e = p.expr()
			p.want(")")
			break
		}
		fallthrough
	default:
		p.p--
		p.fail("expression expected")
	}
	for {
		tk := p.peek()
		if tk.k != 'o' {
			return e
		}
		switch tk.s {
		case "(":
			if e.Op != "id" && e.Op != "field" {
				return e
			}
			p.next()
			c := &Expr{Op: "call", S: e.S, Args: nil, Tok: tk}
			if e.Op == "field" {
				c.S = "." + e.S
				c.Args = append(c.Args, e.Args[0])
			}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.want(")")
			e = c
		case ".":
			p.next()
			if p.eat("(") {
				ty := p.parseType()
				p.want(")")
				e = &Expr{Op: "tassert", Type: ty, Args: []*Expr{e}, Tok: tk}
				continue
			}
			e = &Expr{Op: "field", S: p.ident(), Args: []*Expr{e}, Tok: tk}
		case "[":
			p.next()
			if p.eat("*") {
				if p.eat("*") {
					p.want("]")
					e = &Expr{Op: "allrow", Args: []*Expr{e}, Tok: tk}
				} else {
					p.want("]")
					e = &Expr{Op: "all", Args: []*Expr{e}, Tok: tk}
				}
				continue
			}
			if p.eat(":") {
				hi := p.expr()
				p.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, {Op: "num", S: "0"}, hi}, Tok: tk}
				continue
			}
			i := p.expr()
			if p.eat(":") {
				var hi *Expr
				if p.is("]") {
					hi = &Expr{Op: "call", S: "len", Args: []*Expr{e}}
				} else {
					hi = p.expr()
				}
				p.want("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}, Tok: tk}
				continue
			}
			p.want("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}, Tok: tk}
		default:
			return e
		}
	}
}

func (p *parser) label() string {
	l := ""
	if p.eat("[") {
		for !p.is("]") {
			l += p.next().s
		}
		p.want("]")
	}
	return l
}

func (p *parser) triggers() [][]*Expr {
	var out [][]*Expr
	for p.eat("{") {
		var mp []*Expr
		for !p.is("}") {
			mp = append(mp, p.expr())
			if !p.eat(",") {
				break
			}
		}
		p.want("}")
		out = append(out, mp)
	}
	return out
}

func parseSpecs(files []string) *SpecFile {
	sf := &SpecFile{Aliases: map[string]string{}, DeclByName: map[string]*RecDecl{}}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p := &parser{toks: lexSpec(f, string(b)), file: f}
		p.parseFile(sf)
	}
	return sf
}

func (p *parser) parseFile(sf *SpecFile) {
	for p.peek().k != 'e' {
		pos := p.pos()
		switch kw := p.ident(); kw {
		case "alias":
			n := p.ident()
			p.want("=")
			path := p.ident()
			for p.eat("/") {
				path += "/" + p.ident()
			}
			sf.Aliases[n] = path
		case "uf", "rec", "macro", "omacro", "axiom", "lemma":
			d := &RecDecl{Kind: kw, Pos: pos, Modes: map[string]string{}}
			if kw == "omacro" {
				kw, d.Kind, d.Hidden = "macro", "macro", true
			}
			d.Name = p.ident()
			d.Params = p.params()
			if kw == "uf" || kw == "rec" {
				d.Ret = p.parseType()
			}
			for {
				switch {
				case p.is("induction"):
					p.next()
					d.Ind = p.ident()
					if p.eat("from") {
						d.IndFrom = p.expr()
					}
					continue
				case p.is("trigger"):
					p.next()
					d.Trig = append(d.Trig, p.triggers()...)
					continue
				case p.is("props"):
					p.next()
					for p.peek().k == 'i' && strings.HasPrefix(p.peek().s, "C") {
						d.Props = append(d.Props, p.ident())
					}
					continue
				case p.is("mode"):
					p.next()
					k := p.ident()
					p.want("=")
					d.Modes[k] = p.ident()
					continue
				case p.is("manual"):
					p.next()
					d.Manual = true
					continue
				case p.is("hint"):
					p.next()
					d.Hints = append(d.Hints, p.expr())
					continue
				}
				break
			}
			switch kw {
			case "rec", "macro":
				p.want("=")
				d.Body = p.expr()
			case "axiom", "lemma":
				p.want(":")
				d.Body = p.expr()
			}
			if old := sf.DeclByName[d.Name]; old != nil {
				panic(pos + ": duplicate " + d.Name + " (" + old.Pos + ")")
			}
			sf.DeclByName[d.Name] = d
			sf.Decls = append(sf.Decls, d)
		case "contract", "iface", "functype":
			c := &Contract{Pos: pos, Modes: map[string]string{}, Opaque: map[string]*Contract{}, MayNil: map[string]bool{}, NoAuto: map[string]bool{}}
			c.Iface = kw == "iface" || kw == "functype"
			c.FuncType = kw == "functype"
			c.Target = p.target()
			if p.eat("as") {
				c.As = p.ident()
			}
			p.contractBody(c)
			sf.Contracts = append(sf.Contracts, c)
		default:
			p.p--
			p.fail("unknown declaration")
		}
	}
}

// target: alias.Func, alias.(*T).M, alias.(T).M, alias.Iface.M
func (p *parser) target() string {
	s := p.ident()
	for {
		if p.eat(".") {
			s += "."
			if p.eat("(") {
				s += "("
				if p.eat("*") {
					s += "*"
				}
				s += p.ident()
				p.want(")")
				s += ")"
				continue
			}
			s += p.ident()
			continue
		}
		return s
	}
}

func (p *parser) contractBody(c *Contract) {
	c.Params = p.names()
	if p.is("(") {
		c.Results = p.names()
	}
	p.want("{")
	for !p.eat("}") {
		pos := p.pos()
		switch kw := p.ident(); kw {
		case "props":
			for p.peek().k == 'i' && strings.HasPrefix(p.peek().s, "C") && len(p.peek().s) == 3 {
				c.Props = append(c.Props, p.ident())
			}
		case "mode":
			k := p.ident()
			p.want("=")
			c.Modes[k] = p.ident()
		case "uses":
			c.UseLemmas = append(c.UseLemmas, p.ident())
			for p.eat(",") {
				c.UseLemmas = append(c.UseLemmas, p.ident())
			}
		case "seal":
			for {
				c.Seal = append(c.Seal, p.ident())
				if !p.eat(",") {
					break
				}
			}
		case "reveal":
			for {
				c.Reveal = append(c.Reveal, p.ident())
				if !p.eat(",") {
					break
				}
			}
		case "note":
			c.Note = p.next().s
		case "requires", "ensures", "checks":
			cl := Clause{Kind: kw, Pos: pos, Label: p.label()}
			cl.E = p.expr()
			cl.Local = kw == "checks"
			if kw == "requires" {
				c.Requires = append(c.Requires, cl)
			} else {
				c.Ensures = append(c.Ensures, cl)
			}
		case "inv":
			cl := Clause{Kind: kw, Pos: pos}
			if p.eat("[") {
				for !p.is("]") {
					t := ""
					n := p.ident()
					if !p.is(",") && !p.is("]") {
						t = p.parseType()
					}
					cl.Roles = append(cl.Roles, Param{n, t})
					if !p.eat(",") {
						break
					}
				}
				p.want("]")
			}
			cl.E = p.expr()
			c.Invs = append(c.Invs, cl)
		case "let":
			n := p.ident()
			p.want("=")
			c.Lets = append(c.Lets, struct {
				Name string
				E    *Expr
			}{n, p.expr()})
		case "modifies":
			for {
				if p.eat("any") {
					c.ModAny = true
				} else if !p.eat("nothing") {
					c.Modifies = append(c.Modifies, p.postfixLval())
				}
				if !p.eat(",") {
					break
				}
			}
		case "ghost":
			n := p.ident()
			t := p.parseType()
			var in *Expr
			if p.eat("=") {
				in = p.expr()
			}
			c.Ghosts = append(c.Ghosts, Ghost{n, t, in})
		case "given":
			for {
				n := p.ident()
				c.Given = append(c.Given, Param{n, p.parseType()})
				if !p.eat(",") {
					break
				}
			}
		case "on":
			h := Hook{Pos: pos}
			h.Event = p.ident()
			if p.peek().k == 'i' {
				h.Target = p.target()
			}
			if p.is("(") {
				h.Params = p.names()
			}
			if p.is("(") {
				h.Res = append([]string{}, p.names()...)
			}
			p.want("{")
			for !p.eat("}") {
				a := Act{Kind: p.ident()}
				switch a.Kind {
				case "assert", "assume":
					a.Label = p.label()
					a.E = p.expr()
				case "set":
					a.Name = p.ident()
					p.want("=")
					a.E = p.expr()
				default:
					p.fail("unknown hook action")
				}
				h.Acts = append(h.Acts, a)
			}
			c.Hooks = append(c.Hooks, h)
		case "trusted":
			c.Trusted = p.next().s
		case "inline":
			c.Inline = true
		case "pure":
			c.Pure = true
		case "bounded":
			c.Bounded = true
		case "refines":
			c.Refines = p.target()
		case "maynil":
			for _, n := range p.names() {
				c.MayNil[n] = true
			}
		case "noauto":
			for _, n := range p.names() {
				c.NoAuto[n] = true
			}
		case "apply":
			// apply (o): the postcondition is about calling the returned function with o
			c.HasApply = true
			p.want("(")
			for !p.eat(")") {
				c.Apply = append(c.Apply, p.ident())
				p.eat(",")
			}
		case "timeout":
			fmt.Sscan(p.next().s, &c.Timeout)
		case "opaque":
			n := p.ident()
			oc := &Contract{Target: n, Pos: pos, Modes: map[string]string{}, Opaque: map[string]*Contract{}, MayNil: map[string]bool{}, NoAuto: map[string]bool{}}
			p.contractBody(oc)
			c.Opaque[n] = oc
		default:
			p.p--
			p.fail("unknown clause")
		}
	}
}

func (p *parser) postfixLval() *Expr { return p.unary() }

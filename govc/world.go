package main

// Loading the code under verification and resolving names of contracts.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	hints       map[string]map[string]map[string]bool
	prog        *ssa.Program
	root        string
	spec        *SpecFile
	funcIDs     map[string]int64
	tags        map[string]int64
	tagType     map[int64]types.Type
	globalNames []string

	pkgs       map[string]*ssa.Package   // by path, source packages
	tpkgs      map[string]*types.Package // every package known, by path
	byName     map[string]*types.Package
	goTypes    map[string]types.Type
	contract   map[*ssa.Function]*Contract
	all        map[*ssa.Function][]*Contract
	ifaces     map[string]*Contract
	functypes  map[string]*Contract
	unresolved map[*Contract]string
	su         *Unit
	constGlob  map[*ssa.Global]*ssa.Const
	loadErrs   []string
}

func loadWorld(root string, specFiles []string) *World {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:  root,
		Env:  append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	// types of dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	initial, err := packages.Load(cfg, "./...")
	w := &World{root: root, funcIDs: map[string]int64{}, tags: map[string]int64{}, tagType: map[int64]types.Type{},
		pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, byName: map[string]*types.Package{}, goTypes: map[string]types.Type{},
		contract: map[*ssa.Function]*Contract{}, all: map[*ssa.Function][]*Contract{}, ifaces: map[string]*Contract{}, functypes: map[string]*Contract{}, unresolved: map[*Contract]string{}}
	if err != nil {
		w.loadErrs = append(w.loadErrs, err.Error())
		return w
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			w.loadErrs = append(w.loadErrs, e.Error())
		}
	}
	if len(w.loadErrs) > 0 {
		return w
	}
	prog, pkgs := ssautil.Packages(initial, ssa.BuilderMode(0))
	prog.Build()
	w.prog = prog
	for _, p := range pkgs {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if w.tpkgs[p.Path()] != nil {
			return
		}
		w.tpkgs[p.Path()] = p
		if o := w.byName[p.Name()]; o == nil || !isRepo(o) && isRepo(p) || len(p.Path()) < len(o.Path()) && isRepo(o) == isRepo(p) {
			w.byName[p.Name()] = p
		}
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range pkgs {
		if p != nil {
			visit(p.Pkg)
		}
	}
	w.scanGlobals()
	w.spec = parseSpecs(specFiles)
	for _, c := range w.spec.Contracts {
		if c.FuncType {
			w.functypes[w.canon(c.Target)] = c
			continue
		}
		if c.Iface {
			w.ifaces[w.ifaceKey(c.Target)] = c
			continue
		}
		fn, err := w.resolveFunc(c.Target)
		if err != "" {
			w.unresolved[c] = err
			continue
		}
		w.all[fn] = append(w.all[fn], c)
		if c.As == "" && w.contract[fn] == nil {
			w.contract[fn] = c
		}
	}
	return w
}

// scanGlobals finds package variables that are written once, in init, with a constant.
func (w *World) scanGlobals() {
	w.constGlob = map[*ssa.Global]*ssa.Const{}
	writes := map[*ssa.Global]int{}
	escaped := map[*ssa.Global]bool{}
	val := map[*ssa.Global]*ssa.Const{}
	for _, fn := range w.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							writes[g]++
							if c, ok := x.Val.(*ssa.Const); ok && fn.Name() == "init" && fn.Synthetic != "" {
								val[g] = c
							} else {
								escaped[g] = true
							}
							if x.Val == ssa.Value(g) {
								escaped[g] = true
							}
							continue
						}
						escaped[g] = true
					case *ssa.UnOp:
					case *ssa.DebugRef:
					default:
						escaped[g] = true
					}
				}
			}
		}
	}
	for g, c := range val {
		if writes[g] == 1 && !escaped[g] {
			w.constGlob[g] = c
		}
	}
}

func (w *World) functions() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := types.Unalias(m.Type()).(*types.Named)
				if !ok || types.IsInterface(n) {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(w.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// typesPkg resolves a package alias.
func (w *World) typesPkg(a string) *types.Package {
	if p, ok := w.spec.Aliases[a]; ok {
		if p == "wego" {
			return w.tpkgs[modPath]
		}
		return w.tpkgs[modPath+"/"+p]
	}
	return w.byName[a]
}

func (w *World) pkgByAlias(a string) *ssa.Package {
	if w.spec == nil {
		return nil
	}
	p, ok := w.spec.Aliases[a]
	if !ok {
		return nil
	}
	return w.pkgs[modPath+"/"+p]
}

func (w *World) resolveFunc(target string) (*ssa.Function, string) {
	parts := strings.Split(target, ".")
	pk := w.pkgByAlias(parts[0])
	if pk == nil {
		return nil, "no package for alias " + parts[0]
	}
	switch len(parts) {
	case 2:
		name := parts[1]
		if f := pk.Func(name); f != nil {
			return f, ""
		}
		return nil, "no function " + target
	case 3:
		r, m := parts[1], parts[2]
		ptr := strings.HasPrefix(r, "(*")
		tn := strings.Trim(r, "(*)")
		o := pk.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil, "no type " + target
		}
		t := o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := w.prog.MethodSets.MethodSet(t).Lookup(pk.Pkg, m)
		if sel == nil {
			return nil, "no method " + target
		}
		f := w.prog.MethodValue(sel)
		if f == nil {
			return nil, "no method value " + target
		}
		return f, ""
	}
	return nil, "bad target " + target
}

func (w *World) ifaceKey(target string) string {
	parts := strings.Split(target, ".")
	p := w.typesPkg(parts[0])
	if p == nil || len(parts) != 3 {
		return target
	}
	return p.Path() + "." + parts[1] + "." + parts[2]
}

// canon gives the canonical name of a contract or hook target.
func (w *World) canon(target string) string {
	parts := strings.Split(target, ".")
	p := w.typesPkg(parts[0])
	if p == nil {
		return target
	}
	switch len(parts) {
	case 2:
		return p.Path() + "." + parts[1]
	case 3:
		r := parts[1]
		if strings.HasPrefix(r, "(*") {
			return "(*" + p.Path() + "." + strings.Trim(r, "(*)") + ")." + parts[2]
		}
		return "(" + p.Path() + "." + strings.Trim(r, "()") + ")." + parts[2]
	}
	return target
}

func (w *World) goType(ty string) types.Type {
	if t, ok := w.goTypes[ty]; ok {
		return t
	}
	t := w.goType0(ty)
	w.goTypes[ty] = t
	return t
}
func (w *World) goType0(ty string) types.Type {
	switch {
	case strings.HasPrefix(ty, "[]"):
		if e := w.goType(ty[2:]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	case strings.HasPrefix(ty, "*"):
		if e := w.goType(ty[1:]); e != nil {
			return types.NewPointer(e)
		}
		return nil
	case strings.HasPrefix(ty, "chan "):
		if e := w.goType(ty[5:]); e != nil {
			return types.NewChan(types.SendRecv, e)
		}
		return nil
	case strings.HasPrefix(ty, "map["):
		d := 0
		for i := 3; i < len(ty); i++ {
			if ty[i] == '[' {
				d++
			}
			if ty[i] == ']' {
				d--
				if d == 0 {
					k, v := w.goType(ty[4:i]), w.goType(ty[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	}
	switch ty {
	case "float":
		return types.Typ[types.Float64]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type()
	}
	if o := types.Universe.Lookup(ty); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
		return nil
	}
	if i := strings.IndexByte(ty, '.'); i > 0 {
		p := w.typesPkg(ty[:i])
		if p == nil {
			return nil
		}
		if o, ok := p.Scope().Lookup(ty[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

// specUnit is a dummy unit for evaluating declarations.
func (w *World) specUnit() *Unit {
	if w.su == nil {
		u := newUnit(w, nil, nil)
		u.entry = &State{heap: map[string]*Term{}, aBase: u.a0}
		w.su = u
	}
	return w.su
}

func (w *World) describe(c *Contract) string {
	if c.As != "" {
		return c.Target + " as " + c.As
	}
	return c.Target
}

func newUnit(w *World, c *Contract, fn *ssa.Function) *Unit {
	u := &Unit{w: w, c: c, fn: fn,
		init: map[string]*Term{}, mapBound: map[*Term]*Term{}, wfFacts: map[*Term][]*Term{},
		ghostType: map[string]string{}, params: map[string]Val{}, lets: map[string]Val{}, scopeNames: map[string]Val{},
		notes: map[string]bool{}, assumptions: map[string]bool{}, usedContracts: map[string]bool{}, inlined: map[string]bool{}, models: map[string]bool{},
		funcs: map[int64]*FuncVal{}, hookHits: map[string]int{}, kept: map[string]map[string]bool{}, symBound: map[*Term]*Term{}, rowBound: map[*Term]*Term{}, keyLeaf: map[string]Leaf{},
		loopOrd: map[*ssa.BasicBlock]int{}, dropCache: map[string]map[string]bool{}, invHit: map[*Clause]bool{}, invMs: 6000, opaque: map[string]*Contract{}}
	ep := symEpoch
	symEpoch = 0
	u.a0 = Symb("A0", SInt)
	symEpoch = ep
	return u
}

// externs lists the external functions the repository calls.
func (w *World) externs() {
	m := map[string]map[string]bool{}
	for _, fn := range w.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				if c.Common().IsInvoke() {
					name = "iface " + c.Common().Value.Type().String() + "." + c.Common().Method.Name()
				} else if f := c.Common().StaticCallee(); f != nil {
					if f.Pkg != nil && isRepo(f.Pkg.Pkg) || len(f.Blocks) > 0 {
						continue
					}
					name = f.String()
				} else if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				} else {
					name = "dynamic " + c.Common().Value.String()
				}
				if m[name] == nil {
					m[name] = map[string]bool{}
				}
				m[name][strings.ReplaceAll(fn.String(), modPath+"/", "")] = true
			}
		}
	}
	for _, k := range sortedKeys(m) {
		fmt.Println(k, "  <-", strings.Join(sortedKeys(m[k]), ", "))
	}
}

package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-latex/latex"

// Prog is the loaded program.
type Prog struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by short path: "tex", "font/ttf", "latex"
	funcs    map[string]*ssa.Function
	named    []*types.Named // module types, sorted by name
	deps     map[string]*types.Package
	boxed    map[string]bool // types converted to interfaces
	implMu   sync.Mutex
	impl     map[string][]types.Type
	badOwned map[string]string
	frozen   map[string]bool // packages whose variables only initialisation writes
}

func shortPkg(path string) string {
	if path == modPath {
		return "latex"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func Load(dir string, pats []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir: dir,
		Env: os.Environ(),
	}
	// dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, deps: map[string]*types.Package{}, impl: map[string][]types.Type{}}
	for _, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("package without SSA")
		}
		sp.Build()
		p.pkgs[shortPkg(sp.Pkg.Path())] = sp
	}
	for _, sp := range p.pkgs {
		p.addDeps(sp.Pkg)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.addFunc(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				p.named = append(p.named, n)
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							p.addFunc(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.named, func(i, j int) bool { return p.named[i].String() < p.named[j].String() })
	return p, nil
}

func (p *Prog) addDeps(tp *types.Package) {
	if _, ok := p.deps[tp.Path()]; ok {
		return
	}
	p.deps[tp.Path()] = tp
	for _, i := range tp.Imports() {
		p.addDeps(i)
	}
}

func (p *Prog) addFunc(f *ssa.Function) {
	n := funcName(f)
	if g, ok := p.funcs[n]; ok && (g.Synthetic == "" || f.Synthetic != "") {
		return
	}
	p.funcs[n] = f
	for _, a := range f.AnonFuncs {
		p.addFunc(a)
	}
}

// typeName names a type with short package paths.
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

// funcName is the contract key of a function: pkg.F, pkg.T.M, pkg.(*T).M.
func funcName(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + f.Name()
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			tn := typeName(pt.Elem())
			i := strings.LastIndex(tn, ".")
			return tn[:i+1] + "(*" + tn[i+1:] + ")." + f.Name()
		}
		return typeName(t) + "." + f.Name()
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg.Path()) + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return shortPkg(f.Object().Pkg().Path()) + "." + f.Name()
	}
	return f.Name()
}

// implementers lists the module types (T or *T, the smallest method set that
// fits) implementing interface it.
func (p *Prog) implementers(it *types.Interface, key string) []types.Type {
	p.implMu.Lock()
	defer p.implMu.Unlock()
	if r, ok := p.impl[key]; ok {
		return r
	}
	var out []types.Type
	for _, n := range p.named {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(n, it) && p.boxable(n, n) {
			out = append(out, n)
		}
		pt := types.NewPointer(n)
		if types.Implements(pt, it) && p.boxable(pt, n) {
			out = append(out, pt)
		}
	}
	p.impl[key] = out
	return out
}

// boxable says whether a value of type t (n or *n) can be in an interface: no
// code outside the module can name an unexported type, so one the module never
// converts cannot.
func (p *Prog) boxable(t types.Type, n *types.Named) bool {
	if n.Obj().Exported() {
		return true
	}
	if p.boxed == nil {
		p.boxed = map[string]bool{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok {
						p.boxed[typeName(m.X.Type())] = true
					}
				}
			}
		}
	}
	return p.boxed[typeName(t)]
}

// lookupType resolves a type expression such as *tex.Char, []tex.Node,
// font.Metrics, float64.
func (p *Prog) lookupType(s string, cur *types.Package) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := p.lookupType(s[1:], cur)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := p.lookupType(s[2:], cur)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "["):
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return nil, fmt.Errorf("bad type %s", s)
		}
		k, err := strconv.Atoi(s[1:i])
		if err != nil {
			return nil, err
		}
		t, err := p.lookupType(s[i+1:], cur)
		if err != nil {
			return nil, err
		}
		return types.NewArray(t, int64(k)), nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, err := p.lookupType(s[4:i], cur)
					if err != nil {
						return nil, err
					}
					v, err := p.lookupType(s[i+1:], cur)
					if err != nil {
						return nil, err
					}
					return types.NewMap(k, v), nil
				}
			}
		}
	}
	if s == "struct{}" {
		return types.NewStruct(nil, nil), nil
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		pk, n := s[:i], s[i+1:]
		path := pk
		if sp, ok := p.pkgs[pk]; ok {
			path = sp.Pkg.Path()
		}
		tp, ok := p.deps[path]
		if !ok {
			for k, v := range p.deps {
				if strings.HasSuffix(k, "/"+pk) || v.Name() == pk && strings.HasPrefix(k, modPath) {
					tp, ok = v, true
					break
				}
			}
		}
		if !ok {
			return nil, fmt.Errorf("unknown package %q in type %q", pk, s)
		}
		o := tp.Scope().Lookup(n)
		if o == nil {
			return nil, fmt.Errorf("unknown type %q", s)
		}
		return o.Type(), nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	if cur != nil {
		if o := cur.Scope().Lookup(s); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
	}
	return nil, fmt.Errorf("unknown type %q", s)
}

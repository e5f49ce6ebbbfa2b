package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame obligations: no function outside package initialisation writes to
// memory that a package-level variable holds. Every instruction that may write
// is an obligation; it is discharged when the written location was allocated
// in the function itself (or by a callee that returns only what it allocated),
// or when its type is none of those reachable from a package-level variable.

// FrameSpec is a frame clause of the contracts.
type FrameSpec struct {
	Props    []string
	Skip     []string // packages not held to the frame
	ReadOnly []string // external functions that do not write what they are given
	File     string
}

type framer struct {
	P     *Prog
	sp    *FrameSpec
	reach map[string]string // class -> one variable that holds it
	ext   map[string]bool   // external types held by package variables
	fresh map[*ssa.Function]int
	own   map[string]bool
}

func fieldClass(t types.Type, i int) string {
	return "field " + typeName(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// addType notes the locations a value of type t leads to; at says whether the
// value is itself somewhere that can be written to in parts: what a map or an
// interface holds is not.
func (f *framer) addType(t types.Type, at bool, from string, seen map[string]bool) {
	key := fmt.Sprint(at, typeName(t))
	if seen[key] {
		return
	}
	seen[key] = true
	key = typeName(t)
	add := func(c string) {
		if f.reach[c] == "" {
			f.reach[c] = from
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg()) && !types.IsInterface(t) {
		f.ext[key] = true
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		if _, ok := el.Underlying().(*types.Struct); !ok {
			add("cell " + typeName(el))
		}
		f.addType(el, true, from, seen)
	case *types.Slice:
		add("elem " + typeName(u.Elem()))
		f.addType(u.Elem(), true, from, seen)
	case *types.Array:
		if at {
			add("elem " + typeName(u.Elem()))
		}
		f.addType(u.Elem(), at, from, seen)
	case *types.Map:
		add("map " + typeName(t.Underlying()))
		f.addType(u.Key(), false, from, seen)
		f.addType(u.Elem(), false, from, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if at {
				add(fieldClass(t, i))
			}
			f.addType(u.Field(i).Type(), at, from, seen)
		}
	case *types.Interface:
		if !isModuleType(t) {
			return
		}
		for _, m := range f.P.implementers(u, typeName(t)) {
			f.addType(m, false, from, seen)
		}
	}
}

func newFramer(p *Prog, sp *FrameSpec) *framer {
	f := &framer{P: p, sp: sp, reach: map[string]string{}, ext: map[string]bool{}, fresh: map[*ssa.Function]int{}}
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var gs []string
		for m, x := range p.pkgs[n].Members {
			if _, ok := x.(*ssa.Global); ok && m != "_" && m != "init$guard" {
				gs = append(gs, m)
			}
		}
		sort.Strings(gs)
		for _, m := range gs {
			g := p.pkgs[n].Members[m].(*ssa.Global)
			f.addType(g.Type().(*types.Pointer).Elem(), true, globName(g), map[string]bool{})
		}
	}
	return f
}

// local says whether v can only be something made in its function.
func (f *framer) local(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan:
		return true
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !f.local(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return f.local(v.X, seen)
	case *ssa.ChangeType:
		return f.local(v.X, seen)
	case *ssa.Convert:
		// a conversion between strings and slices copies
		_, s := v.X.Type().Underlying().(*types.Basic)
		return s
	case *ssa.FieldAddr:
		return f.local(v.X, seen)
	case *ssa.IndexAddr:
		return f.local(v.X, seen)
	case *ssa.UnOp:
		// a variable of the function, read back: look at what is stored in it
		if v.Op != token.MUL {
			return false
		}
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return f.ownField(fa)
		}
		a, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != a || !f.local(r.Val, seen) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && f.local(v.Call.Args[0], seen)
		}
		if fn := v.Call.StaticCallee(); fn != nil && v.Call.Signature().Results().Len() == 1 {
			return f.freshRet(fn)
		}
	}
	return false
}

// ownField says whether whatever is stored in a field, anywhere in the module,
// was made by the function that stores it.
func (f *framer) ownField(fa *ssa.FieldAddr) bool {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	c := fieldClass(t, fa.Field)
	if f.own == nil {
		f.own = map[string]bool{}
	}
	if r, ok := f.own[c]; ok {
		return r
	}
	f.own[c] = false
	if isArray(t.Underlying().(*types.Struct).Field(fa.Field).Type()) || isStruct(t.Underlying().(*types.Struct).Field(fa.Field).Type()) {
		return false
	}
	for _, fn := range f.P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !contains(classesAt(in.Addr, in.Addr.Type().Underlying().(*types.Pointer).Elem()), c) {
						continue
					}
					if isStruct(in.Val.Type()) || !f.local(in.Val, map[ssa.Value]bool{}) {
						return false
					}
				case *ssa.FieldAddr:
					// a pointer to the field that is more than read or written through
					if fieldClass(in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field) != c {
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr != ssa.Value(in) {
								return false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return false
						}
					}
				}
			}
		}
	}
	f.own[c] = true
	return true
}

// freshRet says whether everything fn returns was made by it.
func (f *framer) freshRet(fn *ssa.Function) bool {
	if r, ok := f.fresh[fn]; ok {
		return r == 1
	}
	f.fresh[fn] = 0
	if len(fn.Blocks) == 0 {
		switch fn.String() {
		case "image/color.RGBAModel":
		}
		return false
	}
	ok := true
	for _, b := range fn.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			for _, v := range r.Results {
				if !f.local(v, map[ssa.Value]bool{}) {
					ok = false
				}
			}
		}
	}
	if ok {
		f.fresh[fn] = 1
	}
	return ok
}

// classes of the locations an address of element type t stands for.
func classesAt(addr ssa.Value, t types.Type) []string {
	if u, ok := t.Underlying().(*types.Struct); ok {
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, fieldClass(t, i))
			if isStruct(u.Field(i).Type()) {
				out = append(out, classesAt(nil, u.Field(i).Type())...)
			}
		}
		if _, ok := addr.(*ssa.IndexAddr); ok {
			out = append(out, "elem "+typeName(t))
		}
		return out
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return []string{fieldClass(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)}
	case *ssa.IndexAddr:
		return []string{"elem " + typeName(t)}
	}
	out := []string{"cell " + typeName(t)}
	// a pointer of this type may point into structs and arrays as well
	out = append(out, "elem "+typeName(t), "any "+typeName(t))
	return out
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (f *framer) held(c string) (string, bool) {
	if strings.HasPrefix(c, "any ") {
		// a field of that type held by a package variable whose address is taken
		return "", false
	}
	g, ok := f.reach[c]
	return g, ok
}

// hold finds a package variable that may hold what a value of type t leads to.
func (f *framer) holds(t types.Type) (string, bool) {
	g := &framer{P: f.P, reach: map[string]string{}, ext: map[string]bool{}}
	g.addType(t, false, "x", map[string]bool{})
	for c := range g.reach {
		if x, ok := f.reach[c]; ok {
			return x, true
		}
	}
	for c := range g.ext {
		if f.ext[c] {
			return c, true
		}
	}
	return "", false
}

// initOnly lists the functions that run only during package initialisation.
func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

func (f *framer) check(fn *ssa.Function) (res []*Obl) {
	add := func(in ssa.Instruction, label, why string) {
		o := &Obl{Kind: "frame", Label: label, Status: "proved", By: "frame"}
		if in.Pos().IsValid() {
			p := f.P.prog.Fset.Position(in.Pos())
			o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repo+"/"), p.Line)
		}
		if why != "" {
			o.Status, o.Why = "failed", why
		}
		res = append(res, o)
	}
	write := func(in ssa.Instruction, base ssa.Value, cs []string) {
		if g, ok := rootOf(base).(*ssa.Global); ok {
			add(in, "writes no package variable", "writes to "+globName(g))
			return
		}
		if f.local(base, map[ssa.Value]bool{}) {
			add(in, "writes to its own memory", "")
			return
		}
		for _, c := range cs {
			if g, ok := f.held(c); ok {
				add(in, "writes no package data", "may write to "+c+", which "+g+" holds")
				return
			}
		}
		add(in, "writes "+cs[0]+", held by no package variable", "")
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				write(in, in.Addr, classesAt(in.Addr, in.Addr.Type().Underlying().(*types.Pointer).Elem()))
			case *ssa.MapUpdate:
				write(in, in.Map, []string{"map " + typeName(in.Map.Type().Underlying())})
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy":
						if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
							write(in, cc.Args[0], []string{"elem " + typeName(sl.Elem())})
						}
					case "delete", "clear":
						if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
							write(in, cc.Args[0], []string{"map " + typeName(cc.Args[0].Type().Underlying())})
						}
					}
					continue
				}
				name := ""
				args := cc.Args
				if cc.IsInvoke() {
					if isModuleType(cc.Value.Type()) {
						continue // module code: held to the same frame
					}
					name = typeName(cc.Value.Type()) + "." + cc.Method.Name()
					args = append([]ssa.Value{cc.Value}, args...)
				} else if s := cc.StaticCallee(); s != nil {
					if len(s.Blocks) > 0 {
						continue
					}
					name = funcName(s)
				} else {
					continue // a function value: made in the module or given by the caller
				}
				ro := false
				for _, r := range f.sp.ReadOnly {
					if r == name || strings.HasSuffix(r, "*") && strings.HasPrefix(name, r[:len(r)-1]) {
						ro = true
					}
				}
				if ro {
					add(in, name+" writes nothing (assumed)", "")
					continue
				}
				why := ""
				for _, a := range args {
					if g, ok := rootOf(a).(*ssa.Global); ok {
						why = "passes " + globName(g) + " to " + name
						break
					}
					if f.local(a, map[ssa.Value]bool{}) {
						if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
							continue
						}
					}
					if g, ok := f.holds(a.Type()); ok && !f.local(a, map[ssa.Value]bool{}) {
						why = "passes a value that may lead to " + g + " to " + name
					}
				}
				add(in, name+" is given no package data", why)
			}
		}
	}
	return
}

// run checks every function of the module against the frame.
func (f *framer) run() []*Result {
	var out []*Result
	var names []string
	for n := range f.P.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := f.P.funcs[n]
		if len(fn.Blocks) == 0 || isInit(fn) || fn.Pkg == nil && fn.Parent() == nil {
			continue
		}
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil && contains(f.sp.Skip, shortPkg(p.Pkg.Pkg.Path())) {
			continue
		}
		t0 := time.Now()
		r := &Result{Target: "frame of " + n, Props: f.sp.Props, ByBack: map[string]int{}, Paths: 1}
		for _, o := range f.check(fn) {
			r.Total++
			r.Obls = append(r.Obls, o)
			if o.Status == "proved" {
				r.Proved++
				r.ByBack[o.By]++
			} else {
				r.Failed = append(r.Failed, fmt.Sprintf("%s: %s at %s: %s", o.Kind, o.Label, o.Pos, o.Why))
			}
		}
		r.Assumed = nil
		r.Time = time.Since(t0).Seconds()
		out = append(out, r)
	}
	return out
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// writers [Cxx] F, G by f, g; the fields (with the maps they hold) and package
// variables F, G are written by the functions f and g only, or by functions
// that only those call. A mapinv speaks about the entries of the map a field
// holds, and is what its writers keep.

type WriteSpec struct {
	Props []string
	Vars  []string
	By    []string
	File  string
}

// MapInv: every entry k, v of the map that the field of b holds satisfies Body.
type MapInv struct {
	Field   string
	B, K, V string
	Body    *Expr
	File    string
}

// insiders are the functions that run only on behalf of the listed ones.
func (p *Prog) insiders(by []string) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	for _, n := range by {
		if f := p.funcs[n]; f != nil {
			in[f] = true
		}
	}
	type use struct {
		from *ssa.Function
		call bool
	}
	uses := map[*ssa.Function][]use{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee ssa.Value
				if ci, ok := i.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						uses[g] = append(uses[g], use{f, *o == callee})
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range p.funcs {
			if in[f] {
				continue
			}
			ok := false
			if q := f.Parent(); q != nil {
				ok = in[q]
			} else if o := f.Object(); o != nil && !o.Exported() && len(uses[f]) > 0 {
				ok = true
				for _, u := range uses[f] {
					ok = ok && u.call && in[u.from]
				}
			}
			if ok {
				in[f], again = true, true
			}
		}
	}
	return in
}

func (p *Prog) checkWriters(w *WriteSpec) *Result {
	t0 := time.Now()
	r := &Result{Target: "writers of " + strings.Join(w.Vars, ", "), Props: w.Props, ByBack: map[string]int{}, Paths: 1}
	in := p.insiders(w.By)
	var names []string
	for n := range p.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	fields := map[string]*types.Var{} // not shared by name with another
	for _, v := range w.Vars {
		fields[v] = nil
	}
	maps := map[string]string{}
	for _, v := range w.Vars {
		i := strings.LastIndexByte(v, '.')
		t, err := p.lookupType(v[:i], nil)
		if err != nil {
			// a package variable
			if pk := p.pkgs[v[:i]]; pk == nil || pk.Members[v[i+1:]] == nil {
				r.Err = "no field or variable " + v
			}
			continue
		}
		path := findField(t, v[i+1:])
		if len(path) != 1 {
			r.Err = "no field " + v
			continue
		}
		if m, ok := t.Underlying().(*types.Struct).Field(path[0]).Type().Underlying().(*types.Map); ok {
			maps[typeName(m)] = v
		}
	}
	isField := func(t types.Type, i int) (string, bool) {
		n := fieldRefName(t, i)
		_, ok := fields[n]
		return n, ok
	}
	bad := func(fn *ssa.Function, i ssa.Instruction, what string) {
		r.Failed = append(r.Failed, fmt.Sprintf("writers: %s at %s: outside %s", what, p.prog.Fset.Position(i.Pos()), strings.Join(w.By, ", ")))
	}
	for _, n := range names {
		fn := p.funcs[n]
		if in[fn] || isInit(fn) {
			continue
		}
		r.Total++
		was := len(r.Failed)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.FieldAddr:
					st := i.X.Type().Underlying().(*types.Pointer).Elem()
					if f, ok := isField(st, i.Field); ok && !onlyRead(i) {
						bad(fn, i, "address of "+f)
					}
				case *ssa.Store:
					if u, ok := i.Val.Type().Underlying().(*types.Struct); ok {
						if a, ok := i.Addr.(*ssa.Alloc); ok && !a.Heap {
							break
						}
						for k := 0; k < u.NumFields(); k++ {
							if f, ok := isField(i.Val.Type(), k); ok {
								bad(fn, i, "write of the object holding "+f)
							}
						}
					}
				case *ssa.MapUpdate:
					if f, ok := maps[typeName(i.Map.Type().Underlying())]; ok {
						bad(fn, i, "write to a map like that of "+f)
					}
				case ssa.CallInstruction:
					if bi, ok := i.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if f, ok := maps[typeName(i.Common().Args[0].Type().Underlying())]; ok {
							bad(fn, i, "write to a map like that of "+f)
						}
					}
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok {
						if _, ok := fields[strings.TrimPrefix(globName(g), "@")]; ok {
							if u, ok := i.(*ssa.UnOp); !ok || u.X != g {
								bad(fn, i, "use of the address of "+globName(g))
							}
						}
					}
				}
			}
		}
		if len(r.Failed) == was {
			r.Proved++
			r.ByBack["writers"]++
		}
	}
	r.Time = time.Since(t0).Seconds()
	return r
}

// onlyRead: the address is used to read what is there, and for nothing else.
func onlyRead(a ssa.Value) bool {
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if !onlyRead(u) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// mapOwner is the object whose field holds the map m, with the invariant.
func (e *Engine) mapOwner(s *State, m *Term) (*MapInv, *Term) {
	if m.Op != "select" {
		return nil, nil
	}
	for _, iv := range e.S.mapInv {
		h := e.getMap(s, "F:"+iv.Field+"#0", SRef)
		if e.simp(s, e.C.Select(h, m.Args[1])) == m {
			return iv, m.Args[1]
		}
	}
	return nil, nil
}

func (e *Engine) mapInvTerm(s *State, iv *MapInv, owner *Term, mt types.Type, k, v Value) *Term {
	m := mt.Underlying().(*types.Map)
	ot, err := e.P.lookupType(iv.Field[:strings.LastIndexByte(iv.Field, '.')], nil)
	if err != nil {
		fail("mapinv: %v", err)
	}
	n := &Env{e: e, st: s, old: s, file: iv.File, vars: map[string]SV{
		iv.B: {v: Value{owner}, t: &STyp{t: types.NewPointer(ot)}},
		iv.K: {v: k, t: &STyp{t: m.Key()}},
		iv.V: {v: v, t: &STyp{t: m.Elem()}},
	}}
	return n.bool(iv.Body)
}

// mapRead assumes the invariant of an entry found in a map.
func (e *Engine) mapRead(s *State, mt types.Type, m *Term, k, v Value, has *Term) {
	if iv, o := e.mapOwner(s, m); iv != nil && !o.Fresh && has.Op != "false" {
		e.learn(s, e.C.Or(e.C.Not(has), e.mapInvTerm(s, iv, o, mt, k, v)))
	}
}

// mapWritten demands it of an entry about to be made.
func (e *Engine) mapWritten(s *State, in ssa.Instruction, mt types.Type, m *Term, k, v Value) {
	iv, o := e.mapOwner(s, m)
	if iv == nil {
		for _, x := range e.S.mapInv {
			i := strings.LastIndexByte(x.Field, '.')
			t, err := e.P.lookupType(x.Field[:i], nil)
			if err != nil {
				fail("mapinv: %v", err)
			}
			p := findField(t, x.Field[i+1:])
			if len(p) == 1 && types.Identical(t.Underlying().(*types.Struct).Field(p[0]).Type().Underlying(), mt.Underlying()) {
				e.oblige(s, "inv", "write to a map of a known "+x.Field, nil, e.pos(s, in), e.C.False)
			}
		}
		return
	}
	e.oblige(s, "inv", "invariant of the entries of "+iv.Field, nil, e.pos(s, in), e.mapInvTerm(s, iv, o, mt, k, v))
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	// unwinding
	panicking  *Term
	recovered  bool
	recovering bool // running the recover block
	deferOf    int  // frame index this deferred call runs for, or -1
	unroll     map[*ssa.BasicBlock]int
	discard    bool // the result is not stored
}

type deferred struct {
	fn   *ssa.Function
	args []Value
	bind []Value
	inv  *ssa.CallCommon
	recv Value
	bi   *ssa.Builtin
}

// State is a symbolic state.
type State struct {
	heap     map[string]*Term
	facts    []*Term
	known    map[*Term]bool
	eqc      map[*Term]*Term
	rw       map[*Term]*Term // what loops did, see tails.go
	frames   []*Frame
	clos     map[*Term]*closure
	iters    map[*Term]*iter
	trail    []string
	inits    map[string]bool // packages already initialised
	moved    map[*Term]bool  // arrays given up by append
	opaqueSB bool
}

type closure struct {
	fn   *ssa.Function
	bind []Value
}

type iter struct {
	kind string // "str", "map"
	x    Value
	seq  *Term
	typ  types.Type
}

func (st *State) clone() *State {
	n := &State{facts: st.facts[:len(st.facts):len(st.facts)], trail: st.trail[:len(st.trail):len(st.trail)], inits: st.inits, moved: st.moved, opaqueSB: st.opaqueSB}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.known = make(map[*Term]bool, len(st.known))
	for k, v := range st.known {
		n.known[k] = v
	}
	n.eqc = make(map[*Term]*Term, len(st.eqc))
	for k, v := range st.eqc {
		n.eqc[k] = v
	}
	n.rw = st.rw
	n.clos = make(map[*Term]*closure, len(st.clos))
	for k, v := range st.clos {
		n.clos[k] = v
	}
	n.iters = make(map[*Term]*iter, len(st.iters))
	for k, v := range st.iters {
		n.iters[k] = v
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// getMap returns the current heap map of a name.
func (e *Engine) getMap(st *State, name string, leaf Sort) *Term {
	if m, ok := st.heap[name]; ok {
		return m
	}
	var s Sort
	switch {
	case strings.HasPrefix(name, "$"):
		s = leaf
	case strings.HasPrefix(name, "M"):
		s = leaf // Go maps give their full sort
	default:
		s = mapSortOf(name, leaf)
	}
	m := e.C.Sym("H:"+name, s, 0)
	if e.baseMaps != nil {
		if b, ok := e.baseMaps[name]; ok {
			m = b
		}
	}
	st.heap[name] = m
	e.initMaps[name] = m
	return m
}

// load reads a value of type t at address a.
func (e *Engine) load(st *State, a *Term, t types.Type) Value {
	if a.Op == "ite" {
		x, y := e.load(st, a.Args[1], t), e.load(st, a.Args[2], t)
		v := make(Value, len(x))
		for i := range x {
			v[i] = e.C.Ite(a.Args[0], x[i], y[i])
		}
		return v
	}
	if fs := e.frozenState(a); fs != nil {
		st = fs
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		var v Value
		for i := 0; i < u.NumFields(); i++ {
			v = append(v, e.load(st, e.C.Fld(fieldRefName(t, i), a), u.Field(i).Type())...)
		}
		return v
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		if isStruct(u.Elem()) || isArray(u.Elem()) {
			fail("load of array of %s", u.Elem())
		}
		l := scalarLoc(e.C.Idx(a, e.C.Zero), u.Elem())
		var v Value
		for i, m := range l.maps {
			v = append(v, e.C.Select(e.getMap(st, m, l.sort[i]), a))
		}
		return v
	}
	if el := e.ownedField(a, t); el != nil {
		return e.loadOwned(st, a, el)
	}
	if a.Op == "idx" && isOwned(a.Args[0]) {
		return Value{e.C.SeqAt(a.Args[0].Args[0], a.Args[1])}
	}
	l := scalarLoc(a, t)
	var v Value
	for i, m := range l.maps {
		x := e.C.Select(e.getMap(st, m, l.sort[i]), l.key)
		if l.idx != nil {
			x = e.C.At(x, l.idx)
		}
		v = append(v, x)
	}
	return v
}

// store writes a value of type t at address a.
func (e *Engine) store(st *State, a *Term, t types.Type, v Value) {
	if a.Op == "ite" {
		x, y := e.load(st, a.Args[1], t), e.load(st, a.Args[2], t)
		vx, vy := make(Value, len(v)), make(Value, len(v))
		for i := range v {
			vx[i] = e.C.Ite(a.Args[0], v[i], x[i])
			vy[i] = e.C.Ite(a.Args[0], y[i], v[i])
		}
		e.store(st, a.Args[1], t, vx)
		e.store(st, a.Args[2], t, vy)
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(leaves(u.Field(i).Type()))
			e.store(st, e.C.Fld(fieldRefName(t, i), a), u.Field(i).Type(), v[k:k+n])
			k += n
		}
		return
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		if isStruct(u.Elem()) || isArray(u.Elem()) {
			if u.Len() <= 64 { // only zero values get here
				n := len(leaves(u.Elem()))
				for i := int64(0); i < u.Len(); i++ {
					var x Value
					for j := 0; j < n; j++ {
						x = append(x, e.C.At(v[j], e.C.Int(i)))
					}
					e.store(st, e.C.Idx(a, e.C.Int(i)), u.Elem(), x)
				}
				return
			}
			fail("store of array of %s", u.Elem())
		}
		l := scalarLoc(e.C.Idx(a, e.C.Zero), u.Elem())
		for i, m := range l.maps {
			st.heap[m] = e.C.Store(e.getMap(st, m, l.sort[i]), a, v[i])
		}
		return
	}
	if el := e.ownedField(a, t); el != nil {
		e.storeOwned(st, a, el, v)
		return
	}
	l := scalarLoc(a, t)
	for i, m := range l.maps {
		hm := e.getMap(st, m, l.sort[i])
		x := v[i]
		if l.idx != nil {
			x = e.C.Write(e.C.Select(hm, l.key), l.idx, x)
		}
		st.heap[m] = e.C.Store(hm, l.key, x)
	}
}

// view is the content of a slice as one sequence per element leaf.
func (e *Engine) view(st *State, v Value, el types.Type) []*Term {
	if isStruct(el) || isArray(el) {
		fail("view of []%s", el)
	}
	if fs := e.frozenState(v[0]); fs != nil {
		st = fs
	}
	ss := leaves(el)
	var out []*Term
	for i, s := range ss {
		m := e.getMap(st, fmt.Sprintf("E:%s#%d", elemName(el), i), s)
		out = append(out, e.C.SubSeq(e.C.Select(m, v[0]), v[1], v[2]))
	}
	return out
}

// newSlice allocates a slice holding the given sequences.
func (e *Engine) newSlice(st *State, el types.Type, qs []*Term, cap *Term) Value {
	arr := e.freshRef("arr")
	n := e.C.SeqLen(qs[0])
	if cap == nil {
		cap = n
	}
	for i, s := range leaves(el) {
		name := fmt.Sprintf("E:%s#%d", elemName(el), i)
		m := e.getMap(st, name, s)
		con := e.C.CopyIn(e.C.Zeros(s, e.C.zeroOf(s)), e.C.Zero, qs[i])
		st.heap[name] = e.C.Store(m, arr, con)
	}
	return Value{arr, e.C.Zero, n, cap}
}

// ---------- facts

func (e *Engine) learn(st *State, f *Term) {
	switch f.Op {
	case "true":
		return
	case "and":
		for _, a := range f.Args {
			e.learn(st, a)
		}
		return
	}
	if st.known[f] {
		return
	}
	st.facts = append(st.facts, f)
	st.known[f] = true
	switch f.Op {
	case "not":
		st.known[f.Args[0]] = false
		if g := e.C.geNeg(f.Args[0]); g != nil {
			st.known[g] = true
		}
	case ">=":
		if g := e.C.geNeg(f); g != nil {
			st.known[g] = false
		}
	case "=":
		a, b := f.Args[0], f.Args[1]
		if b.isConst() {
			st.eqc[a] = b
		} else if a.isConst() {
			st.eqc[b] = a
		}
	}
}

// decide: 1 true, -1 false, 0 unknown, without the solver.
func (e *Engine) decide(st *State, f *Term) int {
	switch f.Op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -e.decide(st, f.Args[0])
	case "and":
		r := 1
		for _, a := range f.Args {
			switch e.decide(st, a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		if r == 1 {
			return 1
		}
	}
	if v, ok := st.known[f]; ok {
		if v {
			return 1
		}
		return -1
	}
	if f.Op == "=" {
		for i := range f.Args {
			if k, ok := st.eqc[f.Args[i]]; ok {
				if f.Args[1-i].isConst() {
					if k == f.Args[1-i] {
						return 1
					}
					return -1
				}
			}
		}
	}
	if f.Op == ">=" {
		if k, ok := st.eqc[f.Args[0]]; ok {
			x, ok1 := k.intVal()
			y, ok2 := f.Args[1].intVal()
			if ok1 && ok2 {
				if x >= y {
					return 1
				}
				return -1
			}
		}
	}
	return 0
}

// simp rewrites a term with what is known on the path.
func (e *Engine) simp(st *State, t *Term) *Term {
	for i := 0; i < 4; i++ {
		m := map[*Term]*Term{}
		for f, v := range st.known {
			m[f] = e.C.Bool(v)
		}
		for f, v := range st.eqc {
			m[f] = v
		}
		for f, v := range st.rw {
			m[f] = v
		}
		r := e.C.Subst(t, m)
		if r == t {
			return r
		}
		t = r
	}
	return t
}

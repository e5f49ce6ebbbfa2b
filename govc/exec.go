package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine verifies one function at a time.
type Engine struct {
	tails []tailHint
	P     *Prog
	C     *Ctx
	S     *SpecDB
	sv    []*Solver

	initMaps map[string]*Term
	baseMaps map[string]*Term
	sink     []*Obl
	target   *Target
	only     string  // the property being checked, if one
	hints    []*Term // spec terms guiding loop definitions
	depth    int
	steps    int
	quick    bool
	deadline time.Time
	loops    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	initing  bool
	initPk   string
	frz      *State // what package initialisation made
	frzDone  map[string]bool
	inline   map[string]bool // functions inlined in this run
	used     map[string]bool // contracts used
	assumed  map[string]bool // assumptions used
	trialN   int
	noSolve  bool
	log      func(string, ...any)
	ghostN   int
	record   map[string]Sort // map reads recorded while sizing a spec function
	ownPanic bool

	sizing     bool
	macroDepth int
	unfolding  int
	specTop    int
	tables     map[string]table
	specTyp    map[*Term]types.Type // of the objects the specification makes
	unfMemo    map[string]map[string]*Term
	freshMemo  map[*Term]*freshInfo
	tagTypes   map[string]types.Type
	ifaceOf    map[*ssa.Function]*ifaceUse
	realized   map[*Term]*Term
	cut        map[string]int
	stats      Stats
	unfDepth   map[*Term]int
	unfLevel   int
	proveTime  time.Duration
	skTypes    map[string]types.Type
}

type Stats struct {
	paths, cuts int
}

// Obl is one proof obligation.
type Obl struct {
	Kind   string // post, frame, pre, safety, inv, term
	Label  string
	Props  []string
	Pos    string
	Facts  []*Term
	Goal   *Term
	Why    string
	Status string // proved, failed
	By     string
	Time   time.Duration
	known  map[*Term]bool
	eqc    map[*Term]*Term
	rw     map[*Term]*Term
}

type outKind int

const (
	outRet outKind = iota
	outPanic
	outBack
	outExit
)

// Outcome is how a run ended.
type Outcome struct {
	kind outKind
	st   *State
	ret  Value
	pan  *Term
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
}

// loopCtl says where a run stops.
type loopCtl struct {
	depth  int
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Engine) pos(st *State, in ssa.Instruction) string {
	if in == nil || st == nil {
		return ""
	}
	p := in.Pos()
	for i := len(st.frames) - 1; !p.IsValid() && i >= 0; i-- {
		f := st.frames[i]
		if f.fn.Pos().IsValid() {
			p = f.fn.Pos()
		}
	}
	ps := e.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

// oblige records an obligation unless it is plainly true.
func (e *Engine) oblige(st *State, kind, label string, props []string, pos string, goal *Term) {
	if e.decide(st, goal) == 1 {
		if e.sink != nil || true {
			e.sink = append(e.sink, &Obl{Kind: kind, Label: label, Props: props, Pos: pos, Goal: e.C.True, Status: "proved", By: "simplifier"})
		}
		return
	}
	o := &Obl{Kind: kind, Label: label, Props: props, Pos: pos, Facts: st.facts[:len(st.facts):len(st.facts)], Goal: goal, known: st.known, eqc: st.eqc, rw: st.rw}
	k := make(map[*Term]bool, len(st.known))
	for a, b := range st.known {
		k[a] = b
	}
	o.known = k
	q := make(map[*Term]*Term, len(st.eqc))
	for a, b := range st.eqc {
		q[a] = b
	}
	o.eqc = q
	e.sink = append(e.sink, o)
}

// run executes st until every path ends or stops at the loop control.
func (e *Engine) run(st *State, base int, ctl *loopCtl) []*Outcome {
	var outs []*Outcome
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			e.steps++
			if e.steps > 400000 {
				fail("too many steps")
			}
			if e.steps%64 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
				fail("out of time")
			}
			next, out, more := e.step(s, base, ctl)
			if out != nil {
				outs = append(outs, out...)
			}
			work = append(work, more...)
			if len(work)+len(outs) > 20000 {
				fail("too many paths")
			}
			if next == nil {
				break
			}
			s = next
		}
	}
	return outs
}

// unwind continues a panic with value v from the top frame.
func (e *Engine) unwind(s *State, v *Term, base int, ctl *loopCtl) (*State, []*Outcome) {
	for {
		f := s.top()
		if f.deferOf >= 0 && f.panicking == nil && f.fn == nil {
			_ = f
		}
		f.panicking = v
		f.recovered = false
		if len(f.defers) > 0 {
			return s, nil // step will run them
		}
		n, out, cont := e.popPanic(s, base, ctl)
		if !cont {
			return n, out
		}
	}
}

// popPanic drops the top frame, which panics with no defers left.
func (e *Engine) popPanic(s *State, base int, ctl *loopCtl) (*State, []*Outcome, bool) {
	v := s.top().panicking
	f := s.top()
	if len(s.frames) <= base || ctl != nil && len(s.frames) <= ctl.depth {
		return nil, []*Outcome{{kind: outPanic, st: s, pan: v}}, false
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.deferOf >= 0 {
		// a deferred call panics: replaces the panic of the frame it ran for
		s.top().panicking = v
		if len(s.top().defers) > 0 {
			return s, nil, false
		}
		return s, nil, true
	}
	s.top().panicking = v
	if len(s.top().defers) > 0 {
		return s, nil, false
	}
	return s, nil, true
}

func (e *Engine) canPanic(st *State) bool {
	if e.target != nil && e.target.mayPanic() || e.ownPanic {
		return true
	}
	for _, f := range st.frames {
		for _, d := range f.defers {
			if d.fn != nil && usesRecover(d.fn) {
				return true
			}
		}
	}
	return false
}

func usesRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// require demands cond (a runtime check); returns the states that continue
// and, when the check may fail where panics are allowed, a panicking one.
func (e *Engine) guard(st *State, in ssa.Instruction, what string, cond *Term) (ok bool, pst *State) {
	switch e.decide(st, cond) {
	case 1:
		return true, nil
	}
	if e.canPanic(st) {
		if e.feasible(st, e.C.Not(cond)) {
			p := st.clone()
			e.learn(p, e.C.Not(cond))
			if e.decide(st, cond) == -1 || !e.feasible(st, cond) {
				return false, p
			}
			e.learn(st, cond)
			return true, p
		}
		e.learn(st, cond)
		return true, nil
	}
	e.oblige(st, "safety", what, nil, e.pos(st, in), cond)
	if e.decide(st, cond) == -1 {
		return false, nil
	}
	e.learn(st, cond)
	return true, nil
}

func (e *Engine) rtPanic(what string) *Term {
	return e.C.VBox("runtime.Error", e.C.Str(what))
}

// branch decides a condition on a path; returns the states for true and false.
func (e *Engine) branch(st *State, cond *Term) (t, f *State) {
	cond = e.simp(st, cond)
	switch e.decide(st, cond) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	ft := e.feasible(st, cond)
	ff := true
	if ft {
		ff = e.feasible(st, e.C.Not(cond))
	}
	switch {
	case ft && ff:
		g := st.clone()
		e.learn(st, cond)
		e.learn(g, e.C.Not(cond))
		return st, g
	case ft:
		e.learn(st, cond)
		return st, nil
	case ff:
		e.learn(st, e.C.Not(cond))
		return nil, st
	}
	return nil, nil
}

func (e *Engine) feasible(st *State, cond *Term) bool {
	switch e.decide(st, cond) {
	case 1:
		return true
	case -1:
		return false
	}
	if e.noSolve {
		return true
	}
	as := append(append([]*Term(nil), st.facts...), cond)
	scr := e.C.Script(relevant(as, cond), false, e.unfoldNone)
	return e.sv[0].Check(scr, 400*time.Millisecond) != "unsat"
}

// relevant keeps the facts connected to the condition by shared symbols.
func relevant(as []*Term, goal *Term) []*Term {
	syms := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		collect([]*Term{t}, map[*Term]bool{}, func(x *Term) {
			if x.Op == "sym" && !x.Sort.isMap() {
				m[x] = true
			}
		})
		return m
	}
	want := syms(goal)
	done := make([]bool, len(as))
	var out []*Term
	ss := make([]map[*Term]bool, len(as))
	for i, a := range as {
		ss[i] = syms(a)
	}
	for ch := true; ch; {
		ch = false
		for i := range as {
			if done[i] {
				continue
			}
			hit := as[i] == goal || len(ss[i]) == 0
			for s := range ss[i] {
				if want[s] {
					hit = true
				}
			}
			if hit {
				done[i], ch = true, true
				out = append(out, as[i])
				for s := range ss[i] {
					want[s] = true
				}
			}
		}
	}
	return out
}

func (e *Engine) unfoldNone(*Term) []*Term { return nil }

// ---------- stepping

func (e *Engine) goTo(s *State, from, to *ssa.BasicBlock, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	f := s.top()
	if ctl != nil && len(s.frames) == ctl.depth {
		if to == ctl.header && ctl.blocks[from] {
			return nil, []*Outcome{{kind: outBack, st: s, blk: to, prev: from}}, nil
		}
		if !ctl.blocks[to] {
			return nil, []*Outcome{{kind: outExit, st: s, blk: to, prev: from}}, nil
		}
	}
	if lb := e.loopOf(f.fn, to); lb != nil {
		back := lb[from]
		if !back {
			f.unroll[to] = 0
		} else {
			f.unroll[to]++
		}
		lim := 70
		if e.initing {
			lim = 5000
		}
		if f.unroll[to] > lim || !e.headerDecided(s, from, to) {
			ends, exits := e.cutLoop(s, from, to, lb)
			var outs []*Outcome
			var more []*State
			for _, x := range ends {
				n, o, m := e.resume(x, base, ctl)
				outs = append(outs, o...)
				if n != nil {
					more = append(more, n)
				}
				more = append(more, m...)
			}
			for _, x := range exits {
				n, o, m := e.goTo(x.st, x.prev, x.blk, base, ctl)
				outs = append(outs, o...)
				if n != nil {
					more = append(more, n)
				}
				more = append(more, m...)
			}
			return nil, outs, more
		}
	}
	e.enter(s, from, to)
	return s, nil, nil
}

// resume continues, outside a loop that was cut, a path that left the function
// from inside it.
func (e *Engine) resume(x *Outcome, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	switch x.kind {
	case outRet:
		return e.ret(x.st, x.ret, base, ctl)
	case outPanic:
		x.st.top().panicking = x.pan
		n, out, cont := e.popPanic(x.st, base, ctl)
		if cont {
			n, out = e.unwind(n, n.top().panicking, base, ctl)
		}
		return n, out, nil
	}
	fail("loop outcome")
	return nil, nil, nil
}

// enter moves to a block, evaluating its phis.
func (e *Engine) enter(s *State, from, to *ssa.BasicBlock) {
	f := s.top()
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	pc := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.val(s, p.Edges[k]))
		pc++
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.prev, f.block, f.pc = from, to, pc
}

func (e *Engine) step(s *State, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	f := s.top()
	// unwinding with pending defers
	if f.panicking != nil && !f.recovering {
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.callDeferred(s, d, base, ctl)
		}
		if f.recovered {
			f.panicking = nil
			return e.recovered(s, base, ctl)
		}
		n, out, cont := e.popPanic(s, base, ctl)
		if cont {
			n2, out2 := e.unwind(n, n.top().panicking, base, ctl)
			return n2, out2, nil
		}
		return n, out, nil
	}
	if f.recovered && f.panicking == nil && !f.recovering && f.block == nil {
		return e.recovered(s, base, ctl)
	}
	in := f.block.Instrs[f.pc]
	f.pc++
	return e.instr(s, in, base, ctl)
}

func (e *Engine) recovered(s *State, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	f := s.top()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.callDeferred(s, d, base, ctl)
	}
	f.panicking = nil
	f.recovered = false
	if f.fn.Recover == nil {
		var v Value
		res := f.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			v = append(v, e.C.zeroValue(res.At(i).Type())...)
		}
		return e.ret(s, v, base, ctl)
	}
	f.recovering = true
	f.block, f.pc = f.fn.Recover, 0
	return s, nil, nil
}

func (e *Engine) callDeferred(s *State, d deferred, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	idx := len(s.frames) - 1
	n, outs, more := e.call(s, nil, d.inv, d.fn, d.bi, d.recv, d.args, d.bind, base, ctl, nil)
	// mark frames pushed for the deferred call
	mark := func(x *State) {
		if x != nil && len(x.frames) > idx+1 && x.frames[idx+1].deferOf < 0 {
			x.frames[idx+1].deferOf = idx
			x.frames[idx+1].discard = true
		}
	}
	mark(n)
	for _, m := range more {
		mark(m)
	}
	return n, outs, more
}

// ret leaves the top frame with a result.
func (e *Engine) ret(s *State, v Value, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	if len(s.frames) <= base || ctl != nil && len(s.frames) <= ctl.depth {
		return nil, []*Outcome{{kind: outRet, st: s, ret: v}}, nil
	}
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if f.deferOf >= 0 || f.discard {
		return s, nil, nil
	}
	c := s.top()
	if in, ok := c.block.Instrs[c.pc-1].(ssa.Value); ok {
		c.env[in] = v
	}
	return s, nil, nil
}

func (e *Engine) val(s *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constant(v)
	case *ssa.Global:
		return Value{e.glob(v)}
	case *ssa.Function:
		return Value{e.C.mk("func", funcName(v), SRef)}
	case *ssa.Builtin:
		return nil
	}
	for i := len(s.frames) - 1; i >= 0; i-- {
		if x, ok := s.frames[i].env[v]; ok {
			return x
		}
		break
	}
	fail("no value for %s (%T) in %s", v.Name(), v, s.top().fn)
	return nil
}

func globName(v *ssa.Global) string { return shortPkg(v.Pkg.Pkg.Path()) + "." + v.Name() }

func (e *Engine) glob(v *ssa.Global) *Term {
	return e.C.mk("glob", globName(v), SRef)
}

func (e *Engine) constant(v *ssa.Const) Value {
	c := e.C
	if v.Value == nil {
		return c.zeroValue(v.Type())
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Value{c.Bool(constant.BoolVal(v.Value))}
		case u.Info()&types.IsInteger != 0:
			i, ok := constant.Int64Val(constant.ToInt(v.Value))
			if !ok {
				b := constant.ToInt(v.Value).ExactString()
				return Value{c.mk("int", b, SInt)}
			}
			return Value{c.Int(i)}
		case u.Info()&types.IsFloat != 0:
			x, _ := constant.Float64Val(constant.ToFloat(v.Value))
			return Value{c.Flt(x)}
		case u.Info()&types.IsString != 0:
			return Value{c.Str(constant.StringVal(v.Value))}
		}
	}
	fail("constant %s", v)
	return nil
}

func (e *Engine) nonNil(s *State, in ssa.Instruction, r *Term) (bool, *State) {
	return e.guard(s, in, "nil dereference", e.C.Not(e.C.Eq(r, e.C.NilRef)))
}

// panicState starts a panic in state p (if any) and returns its continuation.
func (e *Engine) startPanic(p *State, v *Term, base int, ctl *loopCtl) ([]*Outcome, []*State) {
	if p == nil {
		return nil, nil
	}
	n, out := e.unwind(p, v, base, ctl)
	if n != nil {
		return out, []*State{n}
	}
	return out, nil
}

func addrOf(r *Term) *Term {
	for r.Op == "fld" {
		r = r.Args[0]
	}
	if r.Op == "idx" {
		return r.Args[0]
	}
	return r
}

func (e *Engine) instr(s *State, in ssa.Instruction, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	c := e.C
	f := s.top()
	var outs []*Outcome
	var more []*State
	// check runs a runtime check; false means this path is dead
	check := func(what string, cond *Term) bool {
		ok, p := e.guard(s, in, what, cond)
		if p != nil {
			o, m := e.startPanic(p, e.rtPanic(what), base, ctl)
			outs = append(outs, o...)
			more = append(more, m...)
		}
		return ok
	}
	nonnil := func(a *Term) bool {
		return check("nil dereference", c.Not(c.Eq(addrOf(a), c.NilRef)))
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		r := e.freshRef("new")
		t := in.Type().Underlying().(*types.Pointer).Elem()
		f.env[in] = Value{r}
		e.store(s, r, t, c.zeroValue(t))
	case *ssa.FieldAddr:
		x := e.val(s, in.X)[0]
		if !nonnil(x) {
			return nil, outs, more
		}
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		f.env[in] = Value{c.Fld(fieldRefName(t, in.Field), x)}
	case *ssa.Field:
		x := e.val(s, in.X)
		u := in.X.Type().Underlying().(*types.Struct)
		k := 0
		for i := 0; i < in.Field; i++ {
			k += len(leaves(u.Field(i).Type()))
		}
		f.env[in] = x[k : k+len(leaves(u.Field(in.Field).Type()))]
	case *ssa.IndexAddr:
		x := e.val(s, in.X)
		i := e.val(s, in.Index)[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Pointer:
			if !nonnil(x[0]) {
				return nil, outs, more
			}
			n := t.Elem().Underlying().(*types.Array).Len()
			if !check("index out of range", c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(n)))) {
				return nil, outs, more
			}
			f.env[in] = Value{c.Idx(x[0], i)}
		case *types.Slice:
			if !check("index out of range", c.And(c.Le(c.Zero, i), c.Lt(i, x[2]))) {
				return nil, outs, more
			}
			f.env[in] = Value{c.Idx(x[0], c.Add(x[1], i))}
		default:
			fail("IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		x := e.val(s, in.X)
		i := e.val(s, in.Index)[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			if !check("index out of range", c.And(c.Le(c.Zero, i), c.Lt(i, c.Int(t.Len())))) {
				return nil, outs, more
			}
			var v Value
			for _, l := range x {
				v = append(v, c.At(l, i))
			}
			f.env[in] = v
		case *types.Basic:
			if !check("index out of range", c.And(c.Le(c.Zero, i), c.Lt(i, c.SLen(x[0])))) {
				return nil, outs, more
			}
			f.env[in] = Value{c.SAt(x[0], i)}
		default:
			fail("Index on %s", in.X.Type())
		}
	case *ssa.Lookup:
		x := e.val(s, in.X)
		k := e.val(s, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			v, has := e.mapGet(s, in.X.Type(), x[0], k)
			if len(e.S.mapInv) > 0 && !e.initing {
				e.mapRead(s, in.X.Type(), x[0], k, v, has)
			}
			if in.CommaOk {
				v = append(append(Value(nil), v...), has)
			}
			f.env[in] = v
			break
		}
		if !check("index out of range", c.And(c.Le(c.Zero, k[0]), c.Lt(k[0], c.SLen(x[0])))) {
			return nil, outs, more
		}
		f.env[in] = Value{c.SAt(x[0], k[0])}
	case *ssa.MapUpdate:
		m := e.val(s, in.Map)[0]
		if !check("assignment to nil map", c.Not(c.Eq(m, c.NilRef))) {
			return nil, outs, more
		}
		if len(e.S.mapInv) > 0 && !e.initing {
			e.mapWritten(s, in, in.Map.Type(), m, e.val(s, in.Key), e.val(s, in.Value))
		}
		e.mapSet(s, in.Map.Type(), m, e.val(s, in.Key), e.val(s, in.Value))
	case *ssa.MakeMap:
		f.env[in] = Value{e.newMap(s, in.Type())}
	case *ssa.MakeSlice:
		t := in.Type().Underlying().(*types.Slice)
		n, cp := e.val(s, in.Len)[0], e.val(s, in.Cap)[0]
		if !check("makeslice: len out of range", c.And(c.Le(c.Zero, n), c.Le(n, cp))) {
			return nil, outs, more
		}
		arr := e.freshRef("arr")
		if !isStruct(t.Elem()) {
			for i, srt := range leaves(t.Elem()) {
				name := fmt.Sprintf("E:%s#%d", elemName(t.Elem()), i)
				s.heap[name] = c.Store(e.getMap(s, name, srt), arr, c.Zeros(srt, c.zeroOf(srt)))
			}
		}
		f.env[in] = Value{arr, c.Zero, n, cp}
	case *ssa.Slice:
		return e.sliceOp(s, in, outs, more, check)
	case *ssa.UnOp:
		x := e.val(s, in.X)
		switch in.Op {
		case token.MUL:
			t := in.X.Type().Underlying().(*types.Pointer).Elem()
			if !nonnil(x[0]) {
				return nil, outs, more
			}
			v := e.load(s, x[0], t)
			e.typeInv(s, x[0], t, v)
			f.env[in] = v
		case token.NOT:
			f.env[in] = Value{c.Not(x[0])}
		case token.SUB:
			if x[0].Sort == SF {
				f.env[in] = Value{c.FNeg(x[0])}
			} else {
				f.env[in] = Value{c.Sub(c.Zero, x[0])}
			}
		default:
			fail("unary %s", in.Op)
		}
	case *ssa.Store:
		a := e.val(s, in.Addr)[0]
		if !nonnil(a) {
			return nil, outs, more
		}
		t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		v := e.val(s, in.Val)
		e.checkInv(s, in, a, t, v)
		e.store(s, a, t, v)
	case *ssa.BinOp:
		x, y := e.val(s, in.X), e.val(s, in.Y)
		if (in.Op == token.QUO || in.Op == token.REM) && x[0].Sort == SInt {
			if !check("division by zero", c.Not(c.Eq(y[0], c.Zero))) {
				return nil, outs, more
			}
		}
		f.env[in] = e.binop(s, in, x, y)
	case *ssa.Convert:
		f.env[in] = e.convert(s, in.X.Type(), in.Type(), e.val(s, in.X))
	case *ssa.ChangeType:
		f.env[in] = e.val(s, in.X)
	case *ssa.ChangeInterface:
		f.env[in] = e.val(s, in.X)
	case *ssa.MakeInterface:
		f.env[in] = Value{e.mkIface(in.X.Type(), e.val(s, in.X))}
	case *ssa.TypeAssert:
		x := e.val(s, in.X)[0]
		ok := e.implTerm(x, in.AssertedType, in.X.Type())
		ok = e.simp(s, ok)
		get := func() Value {
			if _, i := in.AssertedType.Underlying().(*types.Interface); i {
				return Value{x}
			}
			return e.unbox(in.AssertedType, x)
		}
		if !in.CommaOk {
			if !check("type assertion", ok) {
				return nil, outs, more
			}
			f.env[in] = get()
			break
		}
		t, g := e.branch(s, ok)
		if t != nil {
			t.top().env[in] = append(append(Value(nil), get()...), c.True)
		}
		if g != nil {
			g.top().env[in] = append(append(Value(nil), c.zeroValue(in.AssertedType)...), c.False)
		}
		if t == nil {
			return g, outs, more
		}
		if g != nil {
			more = append(more, g)
		}
		return t, outs, more
	case *ssa.Extract:
		x := e.val(s, in.Tuple)
		tt := in.Tuple.Type().(*types.Tuple)
		k := 0
		for i := 0; i < in.Index; i++ {
			k += tupLeaves(tt.At(i).Type())
		}
		f.env[in] = x[k : k+tupLeaves(tt.At(in.Index).Type())]
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range in.Bindings {
			b = append(b, e.val(s, x))
		}
		r := e.freshRef("closure")
		s.clos[r] = &closure{fn: in.Fn.(*ssa.Function), bind: b}
		f.env[in] = Value{r}
	case *ssa.Range:
		x := e.val(s, in.X)
		it := e.freshRef("iter")
		r := &iter{x: x, typ: in.X.Type()}
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			r.kind = "map"
			r.seq = e.mapEnum(s, in.X.Type(), x[0])
		} else {
			r.kind = "str"
			r.seq = c.Runes(x[0])
		}
		s.iters[it] = r
		s.heap["$it"] = c.Store(e.ghost(s, "$it", MapOf(SRef, SInt)), it, c.Zero)
		f.env[in] = Value{it}
	case *ssa.Next:
		it := e.val(s, in.Iter)[0]
		r := s.iters[it]
		if r == nil {
			fail("unknown iterator")
		}
		k := c.Select(e.ghost(s, "$it", MapOf(SRef, SInt)), it)
		cond := c.Lt(k, c.SeqLen(r.seq))
		t, g := e.branch(s, cond)
		// an unused key or value is no part of the tuple
		nt := in.Type().(*types.Tuple)
		part := func(i int, v Value) Value {
			if tupLeaves(nt.At(i).Type()) == 0 {
				return nil
			}
			return v
		}
		next := func(ok *Term, k, v Value) Value {
			return append(append(Value{ok}, part(1, k)...), part(2, v)...)
		}
		if t != nil {
			x := c.SeqAt(r.seq, k)
			if r.kind == "str" {
				t.top().env[in] = next(c.True, Value{c.RunePos(r.x[0], k)}, Value{x})
			} else {
				mt := r.typ.Underlying().(*types.Map)
				kv := c.untup(x)
				vv, has := e.mapGet(t, r.typ, r.x[0], kv)
				e.learn(t, has)
				_ = mt
				t.top().env[in] = next(c.True, kv, vv)
			}
			t.heap["$it"] = c.Store(e.ghost(t, "$it", MapOf(SRef, SInt)), it, c.Add(k, c.One))
		}
		if g != nil {
			if r.kind == "str" {
				g.top().env[in] = next(c.False, Value{c.Zero}, Value{c.Zero})
			} else {
				mt := r.typ.Underlying().(*types.Map)
				g.top().env[in] = next(c.False, c.zeroValue(mt.Key()), c.zeroValue(mt.Elem()))
			}
		}
		if t == nil {
			return g, outs, more
		}
		if g != nil {
			more = append(more, g)
		}
		return t, outs, more
	case *ssa.Call:
		return e.callInstr(s, in, &in.Call, base, ctl)
	case *ssa.Defer:
		d := deferred{}
		if in.Call.IsInvoke() {
			d.inv = &in.Call
			d.recv = e.val(s, in.Call.Value)
		} else {
			switch v := in.Call.Value.(type) {
			case *ssa.Function:
				d.fn = v
			case *ssa.Builtin:
				d.bi = v
			default:
				r := e.val(s, v)[0]
				cl := s.clos[r]
				if cl == nil {
					fail("defer of unknown function value")
				}
				d.fn, d.bind = cl.fn, cl.bind
			}
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(s, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.pc-- // come back until none is left
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.callDeferred(s, d, base, ctl)
		}
	case *ssa.Panic:
		v := e.val(s, in.X)[0]
		if !e.canPanic(s) {
			e.oblige(s, "safety", "explicit panic reachable", nil, e.pos(s, in), c.False)
			return nil, outs, more
		}
		o, m := e.startPanic(s, v, base, ctl)
		return nil, append(outs, o...), append(more, m...)
	case *ssa.Return:
		var v Value
		for _, r := range in.Results {
			v = append(v, e.val(s, r)...)
		}
		return e.ret(s, v, base, ctl)
	case *ssa.Jump:
		return e.goTo(s, f.block, f.block.Succs[0], base, ctl)
	case *ssa.If:
		cond := e.val(s, in.Cond)[0]
		t, g := e.branch(s, cond)
		if t == nil && g == nil {
			return nil, nil, nil
		}
		blk := f.block
		var res *State
		if t != nil {
			n, o, m := e.goTo(t, blk, blk.Succs[0], base, ctl)
			outs = append(outs, o...)
			more = append(more, m...)
			res = n
		}
		if g != nil {
			n, o, m := e.goTo(g, blk, blk.Succs[1], base, ctl)
			outs = append(outs, o...)
			more = append(more, m...)
			if res == nil {
				res = n
			} else if n != nil {
				more = append(more, n)
			}
		}
		return res, outs, more
	default:
		fail("instruction %T %s", in, in)
	}
	return s, outs, more
}

func tupLeaves(t types.Type) int {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return 0
	}
	return len(leaves(t))
}

func (e *Engine) ghost(s *State, name string, srt Sort) *Term {
	return e.getMap(s, name, srt)
}

func (e *Engine) sliceOp(s *State, in *ssa.Slice, outs []*Outcome, more []*State, check func(string, *Term) bool) (*State, []*Outcome, []*State) {
	c := e.C
	f := s.top()
	x := e.val(s, in.X)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return e.val(s, v)[0]
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		lo := get(in.Low, c.Zero)
		hi := get(in.High, c.SLen(x[0]))
		if !check("slice bounds out of range", c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, c.SLen(x[0])))) {
			return nil, outs, more
		}
		f.env[in] = Value{c.SSub(x[0], lo, hi)}
	case *types.Pointer:
		n := c.Int(t.Elem().Underlying().(*types.Array).Len())
		lo, hi := get(in.Low, c.Zero), get(in.High, n)
		mx := get(in.Max, n)
		if !check("slice bounds out of range", c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n))) {
			return nil, outs, more
		}
		f.env[in] = Value{x[0], lo, c.Sub(hi, lo), c.Sub(mx, lo)}
	case *types.Slice:
		lo, hi := get(in.Low, c.Zero), get(in.High, x[2])
		mx := get(in.Max, x[3])
		if !check("slice bounds out of range", c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, x[3]))) {
			return nil, outs, more
		}
		f.env[in] = Value{x[0], c.Add(x[1], lo), c.Sub(hi, lo), c.Sub(mx, lo)}
	default:
		fail("slice of %s", in.X.Type())
	}
	return s, outs, more
}

// ---------- operators

func (e *Engine) binop(s *State, in *ssa.BinOp, x, y Value) Value {
	c := e.C
	a, b := x[0], y[0]
	switch in.Op {
	case token.EQL, token.NEQ:
		r := e.goEq(in.X.Type(), x, y)
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		return Value{r}
	}
	switch a.Sort {
	case SInt:
		switch in.Op {
		case token.ADD:
			return Value{c.Add(a, b)}
		case token.SUB:
			return Value{c.Sub(a, b)}
		case token.MUL:
			return Value{c.Mul(a, b)}
		case token.LSS:
			return Value{c.Lt(a, b)}
		case token.LEQ:
			return Value{c.Le(a, b)}
		case token.GTR:
			return Value{c.Lt(b, a)}
		case token.GEQ:
			return Value{c.Le(b, a)}
		case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.QUO, token.REM, token.AND_NOT:
			u, ok1 := a.intVal()
			v, ok2 := b.intVal()
			if ok1 && ok2 {
				switch in.Op {
				case token.SHL:
					return Value{c.Int(u << uint(v))}
				case token.SHR:
					return Value{c.Int(u >> uint(v))}
				case token.AND:
					return Value{c.Int(u & v)}
				case token.OR:
					return Value{c.Int(u | v)}
				case token.XOR:
					return Value{c.Int(u ^ v)}
				case token.QUO:
					return Value{c.Int(u / v)}
				case token.REM:
					return Value{c.Int(u % v)}
				case token.AND_NOT:
					return Value{c.Int(u &^ v)}
				}
			}
			return Value{c.App("int"+in.Op.String(), SInt, a, b)}
		}
	case SF:
		switch in.Op {
		case token.ADD:
			return Value{c.FOp("fadd", a, b)}
		case token.SUB:
			return Value{c.FOp("fsub", a, b)}
		case token.MUL:
			return Value{c.FOp("fmul", a, b)}
		case token.QUO:
			return Value{c.FOp("fdiv", a, b)}
		case token.LSS:
			return Value{c.FLt(a, b)}
		case token.LEQ:
			return Value{c.FLe(a, b)}
		case token.GTR:
			return Value{c.FLt(b, a)}
		case token.GEQ:
			return Value{c.FLe(b, a)}
		}
	case SStr:
		switch in.Op {
		case token.ADD:
			return Value{c.SCat(a, b)}
		case token.LSS:
			return Value{c.App("strless", SBool, a, b)}
		case token.GTR:
			return Value{c.App("strless", SBool, b, a)}
		case token.LEQ:
			return Value{c.Not(c.App("strless", SBool, b, a))}
		case token.GEQ:
			return Value{c.Not(c.App("strless", SBool, a, b))}
		}
	}
	fail("operator %s on %s", in.Op, in.X.Type())
	return nil
}

// goEq is the Go comparison of two values of one type.
func (e *Engine) goEq(t types.Type, x, y Value) *Term {
	c := e.C
	r := c.True
	if _, ok := t.Underlying().(*types.Slice); ok {
		// only comparison with nil
		return c.Eq(x[0], y[0])
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return c.Eq(x[0], y[0])
	}
	for i := range x {
		if x[i].Sort == SF {
			r = c.And(r, c.FEq(x[i], y[i]))
		} else {
			r = c.And(r, c.Eq(x[i], y[i]))
		}
	}
	return r
}

func (e *Engine) convert(s *State, from, to types.Type, x Value) Value {
	c := e.C
	fu, tu := from.Underlying(), to.Underlying()
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return x
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return Value{c.I2F(x[0])}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return Value{c.F2I(x[0])}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return x
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return Value{c.RuneStr(x[0])}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		}
	}
	if sl, ok := tu.(*types.Slice); ok && ok1 && fb.Info()&types.IsString != 0 {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.newSlice(s, sl.Elem(), []*Term{c.App("strbytes", SeqOf(SInt), x[0])}, nil)
		}
	}
	if sl, ok := fu.(*types.Slice); ok && ok2 && tb.Info()&types.IsString != 0 {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			q := e.view(s, x, sl.Elem())[0]
			return Value{c.BytesStr(q)}
		}
	}
	fail("conversion %s to %s", from, to)
	return nil
}

func (c *Ctx) I2F(x *Term) *Term {
	if v, ok := x.intVal(); ok {
		return c.Flt(float64(v))
	}
	return c.mk("i2f", "", SF, x)
}
func (c *Ctx) F2I(x *Term) *Term {
	if v, ok := x.fltVal(); ok && math.Abs(v) < 1e15 {
		return c.Int(int64(v))
	}
	return c.mk("f2i", "", SInt, x)
}
func (c *Ctx) RuneStr(x *Term) *Term {
	if v, ok := x.intVal(); ok {
		return c.Str(string(rune(v)))
	}
	return c.App("runestr", SStr, x)
}
func (c *Ctx) BytesStr(q *Term) *Term {
	if q.Op == "app" && q.Name == "strbytes" {
		return q.Args[0]
	}
	return c.App("bytesstr", SStr, q)
}
func (c *Ctx) Runes(x *Term) *Term {
	if x.Op == "str" {
		q := c.SeqNil(SInt)
		for _, r := range x.Name {
			q = c.Snoc(q, c.Int(int64(r)))
		}
		return q
	}
	return c.App("runes", SeqOf(SInt), x)
}
func (c *Ctx) RunePos(x, k *Term) *Term {
	if v, ok := k.intVal(); ok && x.Op == "str" {
		n := int64(0)
		for i := range x.Name {
			if n == v {
				return c.Int(int64(i))
			}
			n++
		}
	}
	if k == c.Zero {
		return c.Zero
	}
	return c.App("nat:runepos", SInt, x, k)
}

// ---------- interfaces

func tagName(t types.Type) string {
	return typeName(types.Unalias(t))
}

func (e *Engine) mkIface(t types.Type, v Value) *Term {
	c := e.C
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v[0]
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return c.VPtr(tagName(t), v[0])
	}
	return c.VBox(tagName(t), v...)
}

func (e *Engine) unbox(t types.Type, x *Term) Value {
	c := e.C
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return Value{c.Ptr(tagName(t), x)}
	}
	var v Value
	ss := leaves(t)
	c.boxSort[c.TagID(tagName(t))] = ss
	for i, srt := range ss {
		v = append(v, c.Unbox(tagName(t), i, srt, x))
	}
	return v
}

func isModuleType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return false
}

// implTerm says the dynamic type of x is (or implements) t.
func (e *Engine) implTerm(x *Term, t, static types.Type) *Term {
	c := e.C
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		id := c.TagID(tagName(t))
		if _, p := t.Underlying().(*types.Pointer); p {
			c.ptrTags[id] = true
		} else {
			c.boxSort[id] = leaves(t)
		}
		return c.Eq(c.Tag(x), c.Int(int64(id)))
	}
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(c.Tag(x), c.Zero))
	}
	r := c.False
	for _, m := range e.P.implementers(it, typeName(t)) {
		r = c.Or(r, c.Eq(c.Tag(x), c.Int(int64(c.TagID(tagName(m))))))
	}
	if x.Op == "vptr" || x.Op == "vbox" || x.Op == "vnil" {
		return r
	}
	// a static type whose implementations are all in the module needs no
	// more; others may hold foreign types
	if types.Identical(static.Underlying(), it) {
		return c.Not(c.Eq(c.Tag(x), c.Zero))
	}
	if si, ok := static.Underlying().(*types.Interface); ok && si.NumMethods() > 0 && isModuleType(static) {
		if types.Implements(static, it) {
			return c.Not(c.Eq(c.Tag(x), c.Zero))
		}
		return r
	}
	return c.Or(r, c.And(c.Not(c.Eq(c.Tag(x), c.Zero)), c.App("impl:"+typeName(t), SBool, x)))
}

// ---------- Go maps

func mapNames(t types.Type) (dom string, vals []string, ks Sort, vs []Sort) {
	mt := t.Underlying().(*types.Map)
	n := elemName(mt.Key()) + "," + elemName(mt.Elem())
	ks = tupSort(leaves(mt.Key()))
	vs = leaves(mt.Elem())
	for i := range vs {
		vals = append(vals, fmt.Sprintf("MV:%s#%d", n, i))
	}
	return "MD:" + n, vals, ks, vs
}

func (e *Engine) mapDom(s *State, t types.Type, m *Term) *Term {
	d, _, ks, _ := mapNames(t)
	if m.Op == "glob" {
		if fs := e.frozenState(m); fs != nil {
			return e.frozenDom(t, m)
		}
	}
	return e.C.Select(e.getMap(s, d, MapOf(SRef, MapOf(ks, SBool))), m)
}

func (e *Engine) mapGet(s *State, t types.Type, m *Term, k Value) (Value, *Term) {
	c := e.C
	_, vals, ks, vs := mapNames(t)
	key := c.tup(k)
	if m == c.NilRef {
		return c.zeroValue(t.Underlying().(*types.Map).Elem()), c.False
	}
	if v, has, ok := e.frozenMap(t, m, key); ok {
		return v, has
	}
	has := c.And(c.Not(c.Eq(m, c.NilRef)), c.Select(e.mapDom(s, t, m), key))
	if m.Op == "ite" {
		has = c.Select(e.mapDom(s, t, m), key)
	}
	var v Value
	for i, n := range vals {
		x := c.Select(c.Select(e.getMap(s, n, MapOf(SRef, MapOf(ks, vs[i]))), m), key)
		v = append(v, c.Ite(has, x, c.zeroOf(vs[i])))
	}
	return v, has
}

func (e *Engine) mapSet(s *State, t types.Type, m *Term, k, v Value) {
	c := e.C
	d, vals, ks, vs := mapNames(t)
	key := c.tup(k)
	dm := e.getMap(s, d, MapOf(SRef, MapOf(ks, SBool)))
	s.heap[d] = c.Store(dm, m, c.Store(c.Select(dm, m), key, c.True))
	for i, n := range vals {
		vm := e.getMap(s, n, MapOf(SRef, MapOf(ks, vs[i])))
		s.heap[n] = c.Store(vm, m, c.Store(c.Select(vm, m), key, v[i]))
	}
}

func (e *Engine) newMap(s *State, t types.Type) *Term {
	c := e.C
	d, vals, ks, vs := mapNames(t)
	r := e.freshRef("map")
	s.heap[d] = c.Store(e.getMap(s, d, MapOf(SRef, MapOf(ks, SBool))), r, c.ConstMap(MapOf(ks, SBool), c.False))
	for i, n := range vals {
		s.heap[n] = c.Store(e.getMap(s, n, MapOf(SRef, MapOf(ks, vs[i]))), r, c.ConstMap(MapOf(ks, vs[i]), c.zeroOf(vs[i])))
	}
	return r
}

// mapEnum is the (unknown) order in which a map is ranged over.
func (e *Engine) mapEnum(s *State, t types.Type, m *Term) *Term {
	_, _, ks, _ := mapNames(t)
	c := e.C
	if e.initing {
		// the order cannot matter for what initialisation makes (assumed)
		if ks2, ok := literalKeys(e.mapDom(s, t, m)); ok {
			sort.Slice(ks2, func(i, j int) bool { return ks2[i].Name < ks2[j].Name })
			q := c.SeqNil(ks)
			for _, k := range ks2 {
				q = c.Snoc(q, k)
			}
			return q
		}
	}
	c.symN["enum"]++
	return c.App(fmt.Sprintf("enum!%d", c.symN["enum"]), SeqOf(ks), e.mapDom(s, t, m))
}

func debugf(format string, a ...any) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

var _ = strconv.Itoa

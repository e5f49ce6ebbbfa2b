package main

import (
	"fmt"
	"go/types"
	"os"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Target is the function being verified.
type Target struct {
	fn    *ssa.Function
	ct    *Contract
	recv  types.Type // interface contracts: the implementing type
	init  *State
	args  []Value
	ts    []types.Type
	split int // which case of the contract's split, 1 up; 0 for none; len+1 for coverage
}

func (t *Target) mayPanic() bool { return t.ct != nil && t.ct.MayPanic }

func (t *Target) name() string {
	n := funcName(t.fn)
	if t.split > 0 {
		n += fmt.Sprintf(" [case %d]", t.split)
	}
	if t.ct.Kind == "iface" {
		return n + " (" + t.ct.Name + ")"
	}
	return n
}

// Result is the outcome of verifying one function.
type Result struct {
	Target  string   `json:"function"`
	Props   []string `json:"properties"`
	Obls    []*Obl   `json:"-"`
	Err     string   `json:"error,omitempty"`
	Paths   int      `json:"paths"`
	Loops   int      `json:"loops"`
	Inlined []string `json:"inlined,omitempty"`
	Uses    []string `json:"uses,omitempty"`
	Assumed []string `json:"assumed,omitempty"`
	Time    float64  `json:"seconds"`
	Solver  float64  `json:"solver_seconds"`
	Queries int      `json:"queries"`
	Total   int      `json:"obligations"`
	Proved  int      `json:"proved"`
	ByBack  map[string]int
	Failed  []string `json:"failed,omitempty"`
}

func (r *Result) ok() bool { return r.Err == "" && r.Total == r.Proved }

func newEngine(p *Prog, db *SpecDB, sv []*Solver) *Engine {
	e := &Engine{P: p, C: NewCtx(), S: db, sv: sv}
	e.reset()
	return e
}

func (e *Engine) reset() {
	e.C = NewCtx()
	e.C.foldApp, e.C.recApp = e.foldApp, e.recApp
	e.C.kept = e.kept
	e.initMaps = map[string]*Term{}
	e.loops = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	e.inline, e.used, e.assumed = map[string]bool{}, map[string]bool{}, map[string]bool{}
	e.unfMemo = map[string]map[string]*Term{}
	e.specTyp = map[*Term]types.Type{}
	e.tables = map[string]table{}
	e.freshMemo = map[*Term]*freshInfo{}
	e.realized = map[*Term]*Term{}
	e.unfDepth = map[*Term]int{}
	e.ifaceOf = nil
	e.frz, e.frzDone, e.initing = nil, nil, false
	e.sink, e.hints, e.tails = nil, nil, nil
	e.steps, e.trialN = 0, 0
	e.stats = Stats{}
}

// initValue is the value of a parameter.
func (e *Engine) initValue(s *State, name string, t types.Type) Value {
	c := e.C
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v := Value{c.Sym(name+".arr", SRef, 0), c.Sym("nat:"+name+".off", SInt, 0), c.Sym("nat:"+name+".len", SInt, 0), c.Sym("nat:"+name+".cap", SInt, 0)}
		e.sliceFacts(s, v)
		return v
	case *types.Struct:
		var v Value
		for i := 0; i < u.NumFields(); i++ {
			v = append(v, e.initValue(s, name+"."+u.Field(i).Name(), u.Field(i).Type())...)
		}
		return v
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return Value{c.Sym("nat:"+name, SInt, 0)}
		}
	}
	var v Value
	for i, srt := range leaves(t) {
		n := name
		if i > 0 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		v = append(v, c.Sym(n, srt, 0))
	}
	return v
}

// Verify checks one function against its contract.
func (e *Engine) Verify(t *Target, limit time.Duration) (res *Result) {
	t0 := time.Now()
	e.reset()
	e.target = t
	e.deadline = t0.Add(limit)
	res = &Result{Target: t.name(), Props: t.ct.Props, ByBack: map[string]int{}}
	q0, s0 := e.queries()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVC_TRACE") != "" {
					panic(r)
				}
				debugf("%s", rdebug.Stack())
				u = unsupported{fmt.Sprint("internal error: ", r)}
			}
			res.Err = u.msg
		}
		q1, s1 := e.queries()
		res.Queries, res.Solver = q1-q0, (s1 - s0).Seconds()
		res.Time = time.Since(t0).Seconds()
		res.Paths, res.Loops = e.stats.paths, e.stats.cuts
		res.Inlined, res.Uses, res.Assumed = keys(e.inline), keys(e.used), keys(e.assumed)
		if e.only != "" {
			var mine []*Obl
			for _, o := range e.sink {
				if len(o.Props) == 0 || contains(o.Props, e.only) {
					mine = append(mine, o)
				}
			}
			e.sink = mine
		}
		for _, o := range e.sink {
			res.Total++
			if o.Status == "proved" {
				res.Proved++
				res.ByBack[o.By]++
			} else {
				res.Failed = append(res.Failed, fmt.Sprintf("%s: %s at %s: %s", o.Kind, o.Label, o.Pos, o.Why))
			}
		}
		res.Obls = e.sink
	}()
	e.obligations(t)
	var lost time.Duration
	for _, o := range e.sink {
		if o.Status == "" && (e.only == "" || len(o.Props) == 0 || contains(o.Props, e.only)) {
			if lost > 45*time.Second {
				o.Status, o.Why = "failed", "not attempted after the failures before it"
				continue
			}
			e.prove(o)
			if o.Status == "failed" {
				lost += o.Time
			}
		}
	}
	return res
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) queries() (n int, d time.Duration) {
	for _, s := range e.sv {
		n += s.Queries
		d += s.Time
	}
	return
}

// obligations runs the function and its specification side by side.
func (e *Engine) obligations(t *Target) {
	c := e.C
	ct, fn := t.ct, t.fn
	st := newState()
	st.moved = map[*Term]bool{}
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, deferOf: -1, unroll: map[*ssa.BasicBlock]int{}}
	var args []Value
	var sargs []Value
	var ts []types.Type
	for i, p := range fn.Params {
		nm := p.Name()
		if nm == "_" || nm == "" {
			nm = fmt.Sprintf("p%d", i)
		}
		v := e.initValue(st, nm, p.Type())
		f.env[p] = v
		args = append(args, v)
		if i == 0 && t.recv != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				e.assumeNonNil(st, v[0])
			}
			sargs = append(sargs, Value{e.mkIface(t.recv, v)})
			j := strings.LastIndex(ct.Name, ".")
			it, err := e.P.lookupType(ct.Name[:j], nil)
			if err != nil {
				fail("%v", err)
			}
			ts = append(ts, it)
			continue
		}
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				e.assumeNonNil(st, v[0])
			}
		}
		sargs = append(sargs, v)
		ts = append(ts, p.Type())
	}
	if !sigFits(ct, fn.Signature) && t.recv == nil {
		fail("the signature of %s changed", funcName(fn))
	}
	if len(fn.Blocks) == 0 {
		fail("%s has no body", funcName(fn))
	}
	n := e.env(ct, st, sargs, ts)
	n.old = st
	for _, r := range ct.Requires {
		e.learn(st, n.bool(r.E))
	}
	if t.split > len(ct.Split) {
		all := c.False
		for _, x := range ct.Split {
			all = c.Or(all, n.bool(x))
		}
		e.oblige(st, "split", "the cases cover the precondition", nil, e.P.prog.Fset.Position(fn.Pos()).String(), all)
		return
	} else if t.split > 0 {
		e.learn(st, n.bool(ct.Split[t.split-1]))
	}
	// the specification
	init := st.clone()
	t.init, t.args, t.ts = init, sargs, ts
	spec := st.clone()
	n = e.env(ct, spec, sargs, ts)
	n.old = init
	if !ct.Closed {
		e.specTop = 1
	}
	n.exec(ct.Body)
	e.specTop = 0
	var sret []Value
	res := fn.Signature.Results()
	if n.has {
		if len(n.ret) != res.Len() {
			fail("contract of %s returns %d values, want %d", ct.Name, len(n.ret), res.Len())
		}
		for i := range n.ret {
			sret = append(sret, n.coerce(nil, n.ret[i], &STyp{t: res.At(i).Type()}).v)
		}
	}
	// hints for loops
	var hs []*Term
	for _, m := range spec.heap {
		hs = append(hs, m)
	}
	for _, v := range sret {
		hs = append(hs, v...)
	}
	for _, h := range ct.Hints {
		hs = append(hs, n.ev(h).v...)
	}
	hn := e.env(ct, init.clone(), sargs, ts)
	for _, q := range ct.Ensures {
		func() {
			defer func() { recover() }()
			hs = append(hs, hn.bool(q.E))
		}()
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].id < hs[j].id })
	collect(hs, map[*Term]bool{}, func(x *Term) {
		if x.Op == "fold" {
			e.hints = append(e.hints, x)
		}
	})
	e.tailHints(hs)
	sort.Slice(e.hints, func(i, j int) bool { return e.hints[i].id < e.hints[j].id })

	mark := c.clock
	f.block = fn.Blocks[0]
	st.frames = []*Frame{f}
	outs := e.run(st, 1, nil)
	e.stats.paths = len(outs)
	pos := e.P.prog.Fset.Position(fn.Pos())
	ps := fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, "/repo/"), pos.Line)
	var pcond *Term
	if ct.Panics != nil {
		pn := e.env(ct, init.clone(), sargs, ts)
		pcond = pn.bool(ct.Panics)
	}
	var fcond *Term
	if ct.Fails != nil {
		fcond = n.bool(ct.Fails)
	}
	rets := 0
	for _, o := range outs {
		if !e.feasible(o.st, c.True) {
			continue
		}
		switch o.kind {
		case outPanic:
			switch {
			case !ct.MayPanic:
				e.oblige(o.st, "safety", "the function may panic", nil, ps, c.False)
			case pcond != nil:
				e.oblige(o.st, "panic", "panics only when specified", nil, ps, pcond)
			case fcond != nil:
				e.oblige(o.st, "panic", "fails only when specified", ct.Props, ps, e.simp(o.st, fcond))
			}
		case outRet:
			rets++
			if ct.Never {
				e.oblige(o.st, "post", "does not return", nil, ps, c.False)
				continue
			}
			if pcond != nil {
				e.oblige(o.st, "panic", "panics when specified", nil, ps, c.Not(pcond))
				e.learn(o.st, c.Not(pcond))
			}
			if fcond != nil {
				g := e.simp(o.st, fcond)
				e.oblige(o.st, "panic", "fails when specified", ct.Props, ps, c.Not(g))
				e.learn(o.st, c.Not(g))
			}
			e.compare(t, o, spec, sret, n, mark, ps, sargs, ts)
		}
	}
	if rets == 0 && !ct.Never && !ct.MayPanic {
		fail("no path returns: the contract of %s is vacuous", ct.Name)
	}
}

// ---------- comparison of an outcome with the specification

type binder struct {
	e    *Engine
	o    *Outcome
	spec *State
	b    map[*Term]*Term // spec object -> code object
	used map[*Term]*Term // code object -> spec object
	mark int
	todo bool
	sk   []*Term // objects made with new@, bound in order
}

func (e *Engine) compare(t *Target, o *Outcome, spec *State, sret []Value, n *Env, mark int, ps string, sargs []Value, ts []types.Type) {
	c := e.C
	ct := t.ct
	st := o.st
	sg := t.fn.Signature
	b := &binder{e: e, o: o, spec: spec.clone(), b: map[*Term]*Term{}, used: map[*Term]*Term{}, mark: mark}
	if b.bindRecs(sret) {
		for k, v := range b.spec.heap {
			b.spec.heap[k] = b.sub(v)
		}
		var rs []Value
		for _, v := range sret {
			var r Value
			for _, x := range v {
				r = append(r, b.sub(x))
			}
			rs = append(rs, r)
		}
		sret = rs
	}
	simp := func(x *Term) *Term { return e.simp(st, x) }
	for k, v := range b.spec.heap {
		b.spec.heap[k] = simp(v)
	}
	code := st
	for k, v := range code.heap {
		code.heap[k] = simp(v)
	}
	k := 0
	type goal struct {
		label string
		g     *Term
	}
	var goals []goal
	final := false
	add := func(label string, g *Term) {
		if final {
			goals = append(goals, goal{label, g})
		}
	}
	var rets []Value
	for i := 0; i < sg.Results().Len(); i++ {
		l := len(leaves(sg.Results().At(i).Type()))
		rets = append(rets, o.ret[k:k+l])
		k += l
	}
	round := func() {
		for i, sv := range sret {
			ty := sg.Results().At(i).Type()
			var a, w Value
			for j := range sv {
				a = append(a, simp(rets[i][j]))
				w = append(w, b.sub(simp(sv[j])))
			}
			add(fmt.Sprintf("result %d", i), b.same(ty, a, w))
		}
		if ct.Assumed {
			return
		}
		for _, w := range b.sk {
			b.skSame(w, add)
		}
		b.heaps(add)
	}
	rounds := func() {
		for i := 0; i < 12; i++ {
			b.todo = false
			round()
			if !b.todo {
				break
			}
		}
	}
	rounds()
	if e.decideGuards(st, b, sret, o.ret) {
		for k, v := range b.spec.heap {
			b.spec.heap[k] = simp(v)
		}
		for k, v := range code.heap {
			code.heap[k] = simp(v)
		}
		rounds()
	}
	final = true
	round()
	props := ct.Props
	for _, g := range goals {
		e.oblige(st, "post", g.label, props, ps, g.g)
	}
	if len(ct.Ensures) > 0 {
		m := e.env(ct, st, sargs, ts)
		m.old = t.init
		for kk, v := range n.vars {
			if _, ok := m.vars[kk]; !ok {
				m.vars[kk] = v
			}
		}
		e.bindResults(m, sg, o.ret)
		for _, q := range ct.Ensures {
			e.oblige(st, "post", "ensures "+q.Label, q.Props, ps, m.bool(q.E))
		}
	}
	_ = c
}

// bindRecs matches the objects the specification makes with the code's where
// both are passed on to the same effect.
func (b *binder) bindRecs(sret []Value) bool {
	recs := func(ts []*Term, spec bool) map[string][]*Term {
		r := map[string][]*Term{}
		collect(ts, map[*Term]bool{}, func(t *Term) {
			if t.Op != "rec" || len(t.Args) == 0 {
				return
			}
			fresh := false
			for _, a := range t.Args {
				if a.Op == "sym" && a.Fresh && a.Sort == SRef && b.specFresh(a) == spec {
					fresh = true
				}
			}
			if fresh {
				r[t.Name] = append(r[t.Name], t)
			}
		})
		return r
	}
	var ws, as []*Term
	for _, v := range b.spec.heap {
		ws = append(ws, v)
	}
	for _, v := range sret {
		ws = append(ws, v...)
	}
	as = append(append(as, b.o.st.facts...), b.o.ret...)
	w := recs(ws, true)
	if len(w) == 0 {
		return false
	}
	a := recs(as, false)
	var names []string
	for n := range w {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		debugf("recs %s: %d in the specification, %d in the code", n, len(w[n]), len(a[n]))
		if len(w[n]) == 1 && len(a[n]) == 1 {
			if traceLoop {
				debugf("  %s", termDiff(b.e.simp(b.o.st, a[n][0]), b.e.simp(b.o.st, w[n][0])))
			}
			for i := 0; i < 3; i++ {
				for j, x := range w[n][0].Args {
					b.bind(b.e.simp(b.o.st, a[n][0].Args[j]), b.sub(b.e.simp(b.o.st, x)))
				}
			}
		}
	}
	if traceLoop {
		for _, n := range names {
			if len(w[n]) == 1 && len(a[n]) == 1 {
				debugf("  then %s", termDiff(b.e.simp(b.o.st, a[n][0]), b.sub(b.e.simp(b.o.st, w[n][0]))))
			}
		}
	}
	return len(b.b) > 0
}

// decideGuards settles the cases of the specification a path belongs to, as
// far as they decide which objects are meant.
func (e *Engine) decideGuards(st *State, b *binder, sret []Value, oret Value) (any bool) {
	var roots []*Term
	for _, v := range b.spec.heap {
		roots = append(roots, v)
	}
	for _, v := range sret {
		roots = append(roots, v...)
	}
	seen := map[*Term]bool{}
	var gs []*Term
	// a case both sides leave open is the same case
	var own []*Term
	for _, v := range st.heap {
		own = append(own, v)
	}
	own = append(own, oret...)
	collect(own, map[*Term]bool{}, func(t *Term) {
		if t.Op == "ite" {
			seen[t.Args[0]] = true
		}
	})
	collect(roots, map[*Term]bool{}, func(t *Term) {
		if t.Op != "ite" || !(t.Sort == SRef || t.Sort == SVal || t.Sort.isMap() || t.Sort.isSeq()) {
			return
		}
		g := b.sub(t.Args[0])
		if seen[g] || seen[e.C.Not(g)] {
			return
		}
		seen[g] = true
		gs = append(gs, g)
	})
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for i, g := range gs {
		if i >= 40 {
			break
		}
		if time.Now().After(e.deadline) {
			fail("out of time")
		}
		g = e.simp(st, g)
		if e.decide(st, g) != 0 {
			any = true
			continue
		}
		if x := g; x.Op == "feq" || x.Op == "fless" || x.Op == "not" && (x.Args[0].Op == "feq" || x.Args[0].Op == "fless") {
			continue // known or not known; nothing follows about numbers
		}
		switch {
		case e.quickProve(st, g, 500*time.Millisecond):
			e.learn(st, g)
			any = true
		case e.quickProve(st, e.C.Not(g), 500*time.Millisecond):
			e.learn(st, e.C.Not(g))
			any = true
		}
	}
	return any
}

// sub replaces the objects of the specification by the code's.
func (b *binder) sub(t *Term) *Term {
	if len(b.b) == 0 {
		return t
	}
	return b.e.C.Subst(t, b.b)
}

// isSome is a value the specification leaves open.
func isSome(t *Term) bool { return t.Op == "sym" && strings.HasPrefix(t.Name, "some:") }

func (b *binder) specFresh(t *Term) bool {
	return t.Op == "sym" && t.Fresh && t.Stamp <= b.mark && strings.HasPrefix(t.Name, "spec") || t.Op == "sym" && t.Fresh && t.Stamp <= b.mark
}

// bind tries to match terms of the specification with the code's.
func (b *binder) bind(a, w *Term) {
	if a == w {
		return
	}
	if w.Op == "skref" && a.Op != "skref" {
		if _, ok := b.b[w]; !ok && a.Sort == SRef && a.Fresh && a.Stamp > b.mark && b.used[a] == nil {
			b.b[w] = a
			b.used[a] = w
			b.sk = append(b.sk, w)
			b.todo = true
		}
		return
	}
	if isSome(w) {
		if _, ok := b.b[w]; !ok {
			b.b[w] = a
			b.todo = true
		}
		return
	}
	if b.specFresh(w) {
		if _, ok := b.b[w]; ok {
			return
		}
		if a.Sort == SRef && b.used[a] == nil && a.Fresh && a.Stamp > b.mark {
			b.b[w] = a
			b.used[a] = w
			b.todo = true
		}
		return
	}
	if a.Op == w.Op && a.Name == w.Name && len(a.Args) == len(w.Args) {
		for i := range a.Args {
			b.bind(a.Args[i], w.Args[i])
		}
	}
}

// same is the goal that two values of a type agree.
func (b *binder) same(t types.Type, a, w Value) *Term {
	c := b.e.C
	if sl, ok := t.Underlying().(*types.Slice); ok && len(a) == 4 {
		eq := true
		for i := range a {
			eq = eq && a[i] == w[i]
		}
		if eq {
			return c.True
		}
		if !b.wFresh(w[0]) && w[0] != c.NilRef {
			g := c.True
			for i := range a {
				g = c.And(g, c.Eq(a[i], w[i]))
			}
			return g
		}
		if b.specFresh(w[0]) && b.b[w[0]] == nil && a[0].Fresh && a[0].Stamp > b.mark && b.used[a[0]] == nil {
			b.b[w[0]] = a[0]
			b.used[a[0]] = w[0]
			b.todo = true
		}
		if isStruct(sl.Elem()) || isArray(sl.Elem()) {
			fail("comparison of []%s", sl.Elem())
		}
		// a new slice with the same content
		va := b.e.view(b.o.st, a, sl.Elem())
		if x := b.used[w[0]]; x != nil {
			w = append(Value{x}, w[1:]...)
		}
		vw := b.e.view(b.spec, w, sl.Elem())
		g := c.True
		for i := range va {
			x, y := b.e.simp(b.o.st, va[i]), b.sub(b.e.simp(b.o.st, vw[i]))
			b.bind(x, y)
			g = c.And(g, c.Eq(x, b.sub(y)))
		}
		if !(a[0].Fresh && a[0].Stamp > b.mark) && w[2] != c.Zero {
			g = c.And(g, c.Or(c.Eq(a[2], c.Zero), c.Le(c.Int(1), c.age(a[0]))))
		}
		return g
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		g := c.True
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			l := len(leaves(ft))
			g = c.And(g, b.same(ft, a[k:k+l], w[k:k+l]))
			k += l
		}
		return g
	}
	g := c.True
	for i := range a {
		if x := b.boxSame(a[i], w[i]); x != nil {
			g = c.And(g, x)
			continue
		}
		if hasWrapped(w[i]) {
			g = c.And(g, b.wrapping(a[i], b.e.simp(b.o.st, b.sub(w[i]))))
			continue
		}
		if w[i].Op == "ite" {
			b.bind(a[i], b.e.simp(b.o.st, b.sub(w[i])))
		}
		b.bind(a[i], w[i])
		g = c.And(g, c.Eq(a[i], b.sub(w[i])))
	}
	return g
}

// hasWrapped says whether a result is an error that wraps another.
func hasWrapped(w *Term) bool {
	return w.Op == "ite" && (hasWrapped(w.Args[1]) || hasWrapped(w.Args[2])) || w.Op == "app" && w.Name == "wrapped"
}

// wrapping is the goal that an error is the one specified, where wrapped(E)
// stands for any error that has E in its chain.
func (b *binder) wrapping(a, w *Term) *Term {
	c := b.e.C
	switch {
	case !hasWrapped(w):
		b.bind(a, w)
		return c.Eq(a, b.sub(w))
	case w.Op == "ite":
		return c.And(c.Or(c.Not(w.Args[0]), b.wrapping(a, w.Args[1])), c.Or(w.Args[0], b.wrapping(a, w.Args[2])))
	case a.Op == "ite":
		return c.Ite(a.Args[0], b.wrapping(a.Args[1], w), b.wrapping(a.Args[2], w))
	}
	cause := w.Args[0]
	if a.Op != "vbox" || c.Tag(a) != c.Int(int64(c.TagID("fmt.error"))) {
		if isSome(cause) {
			return c.False
		}
		return c.And(c.Eq(a, b.sub(cause)), c.Not(c.Eq(a, c.VNil)))
	}
	f := a.Args[0]
	if f.Op != "str" || len(a.Args) < 2 {
		return c.False
	}
	k, g := 0, c.False
	for i := 0; i+1 < len(f.Name); i++ {
		if f.Name[i] != '%' {
			continue
		}
		i++
		for i+1 < len(f.Name) && strings.IndexByte("+-# 0123456789.", f.Name[i]) >= 0 {
			i++
		}
		if f.Name[i] == '%' {
			continue
		}
		if f.Name[i] == 'w' {
			x := b.e.simp(b.o.st, c.SeqAt(a.Args[1], c.Int(int64(k))))
			b.bind(x, cause)
			g = c.Or(g, c.Eq(x, b.sub(cause)))
		}
		k++
	}
	return g
}

// boxSame compares an interface value holding a slice with the content the
// specification gives for it; nil when that is not the case at hand.
func (b *binder) boxSame(a, w *Term) *Term {
	e, c := b.e, b.e.C
	if !isBoxSeq(w) || a.Op != "vbox" || len(a.Args) != 4 || c.Tag(a) != c.Tag(w) {
		return nil
	}
	id, _ := c.Tag(a).intVal()
	sl := e.typeOfTag(int(id)).Underlying().(*types.Slice)
	p, q := e.simp(b.o.st, e.view(b.o.st, Value(a.Args), sl.Elem())[0]), b.sub(e.simp(b.o.st, w.Args[0]))
	b.bind(p, q)
	g := c.Eq(p, b.sub(q))
	if arr := a.Args[0]; arr != c.NilRef && !(arr.Fresh && arr.Stamp > b.mark) {
		g = c.And(g, c.Or(c.Eq(a.Args[3], c.Zero), c.Le(c.Int(int64(b.mark)+1), c.age(arr))))
	}
	return g
}

// skSame compares an object made with new@ with the code's, part by part.
func (b *binder) skSame(w *Term, add func(string, *Term)) {
	c, e := b.e.C, b.e
	a := b.b[w]
	us, vals := e.skFields(w)
	for i, u := range us {
		x := e.load(b.o.st, u.addr(c, a), u.t)
		g := c.True
		if sl, ok := u.t.Underlying().(*types.Slice); ok {
			view := e.view(b.o.st, x, sl.Elem())
			for j := range view {
				p, q := e.simp(b.o.st, view[j]), b.sub(e.simp(b.o.st, vals[i][j]))
				b.bind(p, q)
				g = c.And(g, c.Eq(p, b.sub(q)))
			}
			if x[0] != c.NilRef && !(x[0].Fresh && x[0].Stamp > b.mark) {
				// it must not be shared with the caller
				g = c.And(g, c.Or(c.Eq(x[3], c.Zero), c.Le(c.Int(int64(b.mark)+1), c.age(x[0]))))
			}
		} else {
			for j := range x {
				p, q := e.simp(b.o.st, x[j]), b.sub(e.simp(b.o.st, vals[i][j]))
				if y := b.boxSame(p, q); y != nil {
					g = c.And(g, y)
					continue
				}
				b.bind(p, q)
				g = c.And(g, c.Eq(p, b.sub(q)))
			}
		}
		add("new "+short(a)+" "+u.path, g)
	}
}

func (b *binder) wFresh(t *Term) bool {
	if t.Op == "ite" {
		return b.wFresh(t.Args[1]) && b.wFresh(t.Args[2])
	}
	if t == b.e.C.NilRef {
		return true
	}
	return t.Op == "sym" && t.Fresh
}

// heaps compares the final heaps.
func (b *binder) heaps(add func(string, *Term)) {
	e, c := b.e, b.e.C
	code := b.o.st
	names := map[string]bool{}
	for m := range code.heap {
		names[m] = true
	}
	for m := range b.spec.heap {
		names[m] = true
	}
	inv := func(t *Term) *Term { return t }
	_ = inv
	var list []string
	for m := range names {
		if m == "$it" || m == "$sb" || e.isDead(m) {
			continue
		}
		list = append(list, m)
	}
	sort.Strings(list)
	doneSlice := map[string]bool{}
	for _, m := range list {
		srt := code.heap[m]
		if srt == nil {
			srt = b.spec.heap[m]
		}
		cm := e.getMapFull(code, m, srt.Sort)
		sm := b.sub(e.getMapFull(b.spec, m, srt.Sort))
		if isSome(e.simp(code, e.getMapFull(b.spec, m, srt.Sort))) {
			continue
		}
		if cm == sm {
			if cm != e.initMaps[m] {
				add("state "+m, c.True)
			}
			continue
		}
		if m == "$alloc" {
			g := c.Le(cm, sm)
			if len(b.sk) > 0 {
				g = c.And(g, c.Le(c.Add(e.initMaps[m], c.One), sm))
			}
			add("frame "+m, g)
			continue
		}
		if !cm.Sort.isMap() {
			b.bind(cm, sm)
			add("frame "+m, c.Eq(cm, b.sub(sm)))
			continue
		}
		ks := map[*Term]bool{}
		cb := allKeys(cm, ks)
		sb := allKeys(sm, ks)
		if cb != sb || cb == nil {
			// the untracked rest
			if cb == nil || sb == nil {
				cb, sb = cm, sm
			}
			sk := c.Sym("sk!"+m, cm.Sort.key(), 0)
			var keyed []*Term
			b.bind(cb, sb)
			g := c.Eq(c.Select(cb, sk), c.Select(b.sub(sb), sk))
			for x := range ks {
				if g != c.True && x.Sort == sk.Sort && !x.Fresh {
					keyed = append(keyed, c.Eq(sk, x)) // compared below
				}
			}
			sort.Slice(keyed, func(i, j int) bool { return keyed[i].id < keyed[j].id })
			add("frame "+m, c.Or(append(keyed, g)...))
		}
		base, el, isSl := e.sliceField(m)
		var kl []*Term
		for x := range ks {
			kl = append(kl, x)
		}
		sort.Slice(kl, func(i, j int) bool { return kl[i].id < kl[j].id })
		for _, x := range kl {
			if x.Sort == SRef && b.local(x) || x.Op == "vptr" && b.local(x.Args[0]) {
				continue
			}
			if x.Sort == SRef {
				if w := b.used[refRoot(x)]; w != nil && w.Op == "skref" {
					continue // compared part by part
				}
			}
			if strings.HasPrefix(m, "E:") {
				if x.Fresh {
					continue // compared through the slices that show it
				}
			}
			if isSl {
				id := fmt.Sprintf("%s@%d", base, x.id)
				if doneSlice[id] {
					continue
				}
				doneSlice[id] = true
				var va, vw Value
				for i := 0; i < 4; i++ {
					s := MapOf(SRef, SInt)
					if i == 0 {
						s = MapOf(SRef, SRef)
					}
					mm := fmt.Sprintf("%s#%d", base, i)
					va = append(va, e.simp(code, c.Select(e.getMapFull(code, mm, s), x)))
					vw = append(vw, e.simp(code, c.Select(b.sub(e.getMapFull(b.spec, mm, s)), x)))
				}
				add("state "+base+" of "+short(x), b.same(types.NewSlice(el), va, vw))
				continue
			}
			va, vw := e.simp(code, c.Select(cm, x)), e.simp(code, c.Select(sm, x))
			if va == vw {
				add("state "+m+" of "+short(x), c.True)
				continue
			}
			b.bind(va, vw)
			vw = b.sub(vw)
			if va.Sort.isCon() || va.Sort.isMap() {
				sk := c.Sym("nat:sk!"+m, SInt, 0)
				if va.Sort.isMap() {
					b.mapEq("state "+m+" of "+short(x), va, vw, add)
					continue
				}
				add("state "+m+" of "+short(x), conEq(c, va, vw, sk))
				continue
			}
			add("state "+m+" of "+short(x), c.Eq(va, vw))
		}
	}
}

func conEq(c *Ctx, a, w, sk *Term) *Term {
	if a == w {
		return c.True
	}
	return c.Eq(c.At(a, sk), c.At(w, sk))
}

func (b *binder) mapEq(label string, a, w *Term, add func(string, *Term)) {
	c := b.e.C
	ks := map[*Term]bool{}
	ab, wb := allKeys(a, ks), allKeys(w, ks)
	if ab != wb || ab == nil {
		if ab == nil || wb == nil {
			ab, wb = a, w
		}
		sk := c.Sym("sk!"+string(a.Sort.key()), a.Sort.key(), 0)
		add(label, c.Eq(c.Select(ab, sk), c.Select(wb, sk)))
	}
	var kl []*Term
	for x := range ks {
		kl = append(kl, x)
	}
	sort.Slice(kl, func(i, j int) bool { return kl[i].id < kl[j].id })
	for _, x := range kl {
		add(label, c.Eq(c.Select(a, x), c.Select(w, x)))
	}
}

// local says whether an object is not part of what is compared: one made by
// the code that the specification does not know, or the reverse.
func (b *binder) local(x *Term) bool {
	r := refRoot(x)
	if !r.Fresh {
		return false
	}
	if r.Stamp > b.mark {
		return b.used[r] == nil
	}
	return true // a specification object not bound (bound ones were replaced)
}

// allKeys collects the stored keys of a map that is a store chain over one
// base, possibly with alternatives; nil when there is no single base.
func allKeys(m *Term, ks map[*Term]bool) *Term {
	for {
		switch m.Op {
		case "store":
			ks[m.Args[1]] = true
			m = m.Args[0]
			continue
		case "ite":
			a := allKeys(m.Args[1], ks)
			b := allKeys(m.Args[2], ks)
			if a == b {
				return a
			}
			return nil
		}
		return m
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

// ---------- proving

func (e *Engine) prove(o *Obl) {
	t0 := time.Now()
	st := &State{facts: o.Facts, known: o.known, eqc: o.eqc, rw: o.rw}
	g := o.Goal
	defer func() { o.Time = time.Since(t0) }()
	for i := 0; i < 3; i++ {
		h := e.simp(st, g)
		if h == g {
			break
		}
		g = h
	}
	if g.Op == "=" && (g.Args[0].Op == "seqnil" || g.Args[1].Op == "seqnil") {
		// only the empty sequence has no elements
		q := g.Args[0]
		if q.Op == "seqnil" {
			q = g.Args[1]
		}
		g = e.C.Eq(e.C.SeqLen(q), e.C.Zero)
	}
	if e.decide(st, g) == 1 {
		o.Status, o.By = "proved", "simplifier"
		return
	}
	smoke := false
	try := func(sv *Solver, real bool, d time.Duration, lvl int) bool {
		e.unfLevel = lvl
		e.unfDepth = map[*Term]int{}
		c := e.C
		ng := c.Not(g)
		as := append(append([]*Term(nil), o.Facts...), ng)
		as = relevant(as, ng)
		if smoke {
			var only []*Term
			for _, a := range as {
				if a != ng {
					only = append(only, a)
				}
			}
			as = only
		}
		scr := c.Script(as, real, e.unfoldOne)
		r := sv.Check(scr, d)
		e.unfLevel = 0
		if d := os.Getenv("GOVC_DUMPP"); d != "" && (smoke || os.Getenv("GOVC_SMOKE") == "") && r == "unsat" && strings.Contains(o.Label, d) {
			os.WriteFile(fmt.Sprintf("/tmp/govcp.%s.%d.%v.smt2", sv.name, lvl, real), []byte(scr+"(check-sat)\n"), 0o644)
		}
		if os.Getenv("GOVC_DUMP") != "" && r != "unsat" {
			os.WriteFile(fmt.Sprintf("/tmp/govc.%s.%d.%v.smt2", sv.name, lvl, real), []byte(scr+"(check-sat)\n"), 0o644)
		}
		if r == "error" {
			o.Why = "solver error: " + sv.lastErr
		}
		return r == "unsat"
	}
	long := e.proveTime
	if long == 0 {
		long = 5 * time.Second
	}
	if g != e.C.False || len(o.Facts) > 0 {
		for _, x := range []struct {
			real bool
			lvl  int
			d    time.Duration
		}{{false, 0, 2 * time.Second}, {false, 1, 3 * time.Second}, {true, 0, 3 * time.Second}, {true, 2, long}} {
			if try(e.sv[0], x.real, x.d, x.lvl) {
				o.Status, o.By = "proved", e.sv[0].name
				if os.Getenv("GOVC_SMOKE") != "" {
					// do the facts contradict each other?
					smoke = true
					if try(e.sv[0], x.real, x.d, x.lvl) {
						fmt.Fprintf(os.Stderr, "vacuous: %s %s %s at %s\n", e.target.ct.Name, o.Kind, o.Label, o.Pos)
					}
				}
				return
			}
		}
		for _, s := range e.sv[1:] {
			if try(s, true, long, 1) {
				o.Status, o.By = "proved", s.name
				return
			}
		}
	}
	o.Status = "failed"
	gs := g.String()
	if len(gs) > 1500 {
		gs = gs[:1500] + "…"
	}
	if o.Why == "" {
		o.Why = "not proved: " + gs
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		debugf("FAILED %s %s\n  goal %s", o.Kind, o.Label, gs)
		for _, f := range o.Facts {
			s := f.String()
			if len(s) > 300 {
				s = s[:300] + "…"
			}
			debugf("   fact %s", s)
		}
	}
}

// Targets lists what has to be verified for a contract.
func (e *Engine) Targets(ct *Contract) ([]*Target, error) {
	ts, err := e.targets(ct)
	if len(ct.Split) == 0 {
		return ts, err
	}
	var out []*Target
	for _, t := range ts {
		for i := 0; i <= len(ct.Split); i++ {
			u := *t
			u.split = i + 1
			out = append(out, &u)
		}
	}
	return out, err
}

func (e *Engine) targets(ct *Contract) ([]*Target, error) {
	if ct.Assumed {
		return nil, nil
	}
	if ct.Kind == "iface" {
		var out []*Target
		for _, u := range e.ifaceTargets(ct) {
			if u.fn.Synthetic != "" {
				// a promoted method: the wrapper is verified like any other
			}
			if e.contractOf(u.fn) != nil && e.contractOf(u.fn).Assumed {
				continue
			}
			if contains(ct.Trusted, tagName(u.recv)) {
				continue
			}
			out = append(out, &Target{fn: u.fn, ct: ct, recv: u.recv})
		}
		if len(out) == 0 {
			return nil, fmt.Errorf("no implementation of %s", ct.Name)
		}
		return out, nil
	}
	fn, ok := e.P.funcs[ct.Name]
	if !ok {
		return nil, fmt.Errorf("no function %s", ct.Name)
	}
	return []*Target{{fn: fn, ct: ct}}, nil
}

// prepare sizes the specification functions; done once for all engines.
func (e *Engine) prepare() (err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			err = u
		}
	}()
	e.sizeAll()
	return nil
}

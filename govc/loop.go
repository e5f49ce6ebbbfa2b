package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// loopOf returns the blocks of the natural loop headed by b, or nil.
func (e *Engine) loopOf(fn *ssa.Function, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m, ok := e.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, x := range fn.Blocks {
			for _, h := range x.Succs {
				if !h.Dominates(x) {
					continue
				}
				l := m[h]
				if l == nil {
					l = map[*ssa.BasicBlock]bool{h: true}
					m[h] = l
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if l[b] {
						return
					}
					l[b] = true
					for _, p := range b.Preds {
						add(p)
					}
				}
				add(x)
			}
		}
		e.loops[fn] = m
	}
	return m[b]
}

// header runs the pure instructions of a block and gives its condition.
func (e *Engine) headerCond(s *State, h *ssa.BasicBlock) (cond *Term, ok bool) {
	cond, ok = e.headerTest(s, h)
	if ok {
		cond = e.simp(s, cond)
	}
	return cond, ok
}
func (e *Engine) headerTest(s *State, h *ssa.BasicBlock) (cond *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, u := r.(unsupported); u {
				cond, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	ns, sk, tg := e.noSolve, e.sink, e.steps
	e.noSolve = true
	defer func() { e.noSolve, e.sink, e.steps = ns, sk, tg }()
	f := s.top()
	if f.block != h {
		return nil, false
	}
	for {
		in := f.block.Instrs[f.pc]
		switch x := in.(type) {
		case *ssa.If:
			return e.val(s, x.Cond)[0], true
		case *ssa.Next:
			it := e.val(s, x.Iter)[0]
			r := s.iters[it]
			if r == nil {
				return nil, false
			}
			k := e.C.Select(e.ghost(s, "$it", MapOf(SRef, SInt)), it)
			if _, isIf := f.block.Instrs[len(f.block.Instrs)-1].(*ssa.If); !isIf {
				return nil, false
			}
			return e.C.Lt(k, e.C.SeqLen(r.seq)), true
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Call:
			if b, okb := x.Call.Value.(*ssa.Builtin); !okb || b.Name() != "len" && b.Name() != "cap" {
				return nil, false
			}
		default:
			return nil, false
		}
		f.pc++
		n, outs, more := e.instr(s, in, len(s.frames), nil)
		if n != s || len(outs) > 0 || len(more) > 0 {
			return nil, false
		}
	}
}

// plain simplifies the two sides of a comparison, not the comparison.
func (e *Engine) plain(st *State, x *Term) *Term {
	switch x.Op {
	case "not":
		return e.C.Not(e.plain(st, x.Args[0]))
	case ">=":
		return e.C.Le(e.simp(st, x.Args[1]), e.simp(st, x.Args[0]))
	}
	return e.simp(st, x)
}

// headerDecided says whether the test of the loop is decided by what is known.
func (e *Engine) headerDecided(s *State, from, to *ssa.BasicBlock) bool {
	t := s.clone()
	e.enter(t, from, to)
	c, ok := e.headerTest(t, to)
	if !ok {
		return false
	}
	// a round is taken by itself when the state tells how many there are,
	// not when it is merely known that there is one
	c = e.plain(t, c)
	if c == e.C.True || c == e.C.False {
		return true
	}
	d := e.decide(t, c)
	if lb := e.loopOf(t.top().fn, to); len(to.Succs) == 2 && !lb[to.Succs[0]] {
		d = -d
	}
	return d == -1
}

// comp is a part of the state a loop may change.
type comp struct {
	name  string
	phi   *ssa.Phi
	leaf  int
	n     int    // leaves of a slice group: 4
	mp    string // heap map
	key   *Term  // cell key; nil for the whole map
	sort  Sort
	init  Value
	el    types.Type // element type of a slice group
	cands []*cand
	at    int
	val   Value // value at iteration k
	next  Value // value at iteration k+1
	retry int
	wait  int
	opq   bool
}

type cand struct {
	what string
	t    *Term // function of k; for slices, one sequence per element leaf
	seqs []*Term
}

func (cp *comp) isSlice() bool { return cp.n == 4 }

// cutLoop summarises a loop: it finds for every part of the state the loop
// changes a description of its value after k iterations, proves the
// description inductive and continues after the loop.
var traceLoop = os.Getenv("GOVC_TRACE") != ""

func (e *Engine) cutLoop(s *State, from, to *ssa.BasicBlock, lb map[*ssa.BasicBlock]bool) (ends, exits []*Outcome) {
	c := e.C
	e.stats.cuts++
	f := s.top()
	pname := funcName(f.fn)
	if e.trialN++; e.trialN > 400 {
		fail("too many loops")
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	k := c.NewSym("nat:k", SInt)
	entry := s.clone()
	var comps []*comp
	nphi := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nphi++
		v := e.val(s, p.Edges[pi])
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			comps = append(comps, &comp{name: nm, phi: p, n: 4, init: v, el: sl.Elem()})
			continue
		}
		for i, x := range v {
			comps = append(comps, &comp{name: nm, phi: p, leaf: i, n: 1, init: Value{x}, sort: x.Sort})
		}
	}
	cells := map[string]*comp{}
	wholes := map[string]*comp{}
	for _, cp := range comps {
		e.firstCands(cp)
	}
	hints := e.loopHints(entry)
	debugf("loop %s b%d: %d hints", pname, to.Index, len(hints))

	inv := e.loopInvs(entry)
	e.checkInvs(entry, entry, inv, comps, to, nphi, from, "entry")

	var st *State
	phis := len(comps)
	ticked := false
	for round := 0; ; round++ {
		if round > 60 {
			fail("loop in %s: no stable description", pname)
		}
		st = e.loopState(entry, to, nphi, from, comps, k)
		mark := c.clock
		for _, iv := range inv {
			e.learn(st, e.invEnvAt(st, entry, iv, comps).bool(iv.E))
		}
		var clock *comp
		for _, cp := range comps {
			if cp.mp == "$alloc" && cp.key == nil && cp.opq {
				// more is allocated, never less
				clock = cp
				e.learn(st, c.Le(cp.init[0], cp.val[0]))
			}
		}
		// the test held in the previous iteration
		probe := st.clone()
		var cond *Term
		if cd, ok := e.headerCond(probe, to); ok {
			if !lb[to.Succs[0]] {
				cd = c.Not(cd)
			}
			cond = cd
			opq := false
			collect([]*Term{cd}, map[*Term]bool{}, func(t *Term) {
				if t.Op == "sym" && t != k && t.Stamp > entryClock(k) {
					opq = true
				}
			})
			if !opq {
				e.learn(st, c.Or(c.Eq(k, c.Zero), c.Subst(cd, map[*Term]*Term{k: c.Sub(k, c.One)})))
			} else {
				cond = nil
			}
		}
		saved := e.sink
		e.sink = nil
		base := st.clone()
		outs := e.run(st, 0, &loopCtl{depth: len(st.frames), header: to, blocks: lb})
		obls := e.sink
		e.sink = saved
		changed := false
		moved := map[*comp]bool{}
		var ends1, exits1 []*Outcome
		var backs []*State
		binds := map[*Outcome]*binder{}
		for _, o := range outs {
			switch o.kind {
			case outBack:
				backs = append(backs, o.st)
				vals := e.backVals(o.st, to, o.prev)
				lb := &binder{e: e, o: o, spec: o.st, b: map[*Term]*Term{}, used: map[*Term]*Term{}, mark: mark}
				binds[o] = lb
				if e.newComps(base, o.st, mark, entry, &comps, cells, wholes, k, hints) {
					changed = true
					break
				}
				for _, cp := range comps {
					if moved[cp] || cp.val == nil {
						continue
					}
					was, t0 := "", time.Now()
					if traceLoop {
						was = "opaque"
						if !cp.opq {
							was = cp.cands[cp.at].what
						}
					}
					ch := e.checkComp(cp, o.st, vals, k, hints, entry, lb)
					if ch {
						changed = true
						moved[cp] = true
					}
					if d := time.Since(t0); traceLoop && (ch || d > 500*time.Millisecond) {
						debugf("  round %d outs %d: %s (%s) changed=%v %v", round, len(outs), cp.name, was, ch, d.Round(time.Millisecond))
					}
				}
			case outExit:
				exits1 = append(exits1, o)
			default:
				ends1 = append(ends1, o)
			}
		}
		if changed {
			// those about to be given up wait for the others to settle
			var gave []*comp
			for cp := range moved {
				if cp.opq && len(cp.cands) > 2 && cp.wait < 4 {
					gave = append(gave, cp)
				}
			}
			if len(gave) < len(moved) {
				for _, cp := range gave {
					cp.wait++
					cp.opq = false
					cp.cands = cp.cands[:len(cp.cands)-1]
					cp.at = 1
				}
			}
			continue
		}
		// a description may have been given up while another was still wrong
		for _, cp := range comps {
			if cp.opq && cp.retry < 2 && len(cp.cands) > 2 {
				cp.retry++
				cp.opq = false
				cp.cands = cp.cands[:len(cp.cands)-1]
				cp.at = 1
				changed = true
			}
		}
		if changed {
			continue
		}
		if !ticked {
			for _, lb := range binds {
				if len(lb.sk) > 0 {
					ticked = true
				}
			}
			if ticked {
				// the loop makes objects that its description names after the
				// moment it starts: what comes later has a later moment
				entry.heap["$alloc"] = c.Add(e.getMapFull(entry, "$alloc", SInt), c.One)
				comps = comps[:phis]
				for i, cp := range comps {
					comps[i] = &comp{name: cp.name, phi: cp.phi, leaf: cp.leaf, n: cp.n, init: cp.init, el: cp.el, sort: cp.sort}
					e.firstCands(comps[i])
				}
				cells = map[string]*comp{}
				wholes = map[string]*comp{}
				continue
			}
		}
		e.sink = append(e.sink, obls...)
		for _, o := range outs {
			if o.kind == outBack {
				if clock != nil {
					e.oblige(o.st, "inv", "allocation moves on", nil, e.pos(o.st, to.Instrs[len(to.Instrs)-1]), c.Le(clock.init[0], o.st.heap["$alloc"]))
				}
				e.checkBackInvs(o.st, entry, inv, comps, to, o.prev, k)
			}
		}
		for _, cp := range comps {
			w := "opaque"
			if !cp.opq {
				w = cp.cands[cp.at].what
			}
			if cp.at > 0 || cp.opq {
				debugf("  loop %s b%d: %s = %s", pname, to.Index, cp.name, w)
			}
		}
		solved := map[*Outcome]*Term{}
		for _, o := range exits1 {
			if o.prev == to && cond != nil {
				solved[o] = e.solveK(o.st, k, cond)
			}
		}
		e.checkRounds(base, outs, k, cond, to)
		e.tailEqs(entry, base, comps, k, outs, exits1, ends1, binds, solved)
		return ends1, exits1
	}
}

func entryClock(k *Term) int { return k.Stamp }

// firstCands lists the descriptions that need no look at the body.
func (e *Engine) firstCands(cp *comp) {
	if cp.isSlice() {
		cp.cands = []*cand{{what: "unchanged"}}
		return
	}
	cp.cands = []*cand{{what: "unchanged", t: cp.init[0]}}
}

// loopState is the state at the start of iteration k.
func (e *Engine) loopState(entry *State, to *ssa.BasicBlock, nphi int, from *ssa.BasicBlock, comps []*comp, k *Term) *State {
	c := e.C
	st := entry.clone()
	f := st.top()
	put := map[*ssa.Phi]Value{}
	for _, cp := range comps {
		var v Value
		cd := cp.cands[cp.at]
		switch {
		case cp.isSlice() && cd.what == "unchanged":
			v = cp.init
		case cp.isSlice():
			arr := c.FreshRef("loop.arr")
			seqs := cd.seqs
			if cp.opq {
				seqs = nil
				for range leaves(cp.el) {
					seqs = append(seqs, nil)
				}
				for i, s := range leaves(cp.el) {
					seqs[i] = c.NewSym("acc", SeqOf(s))
				}
			}
			n := c.SeqLen(seqs[0])
			for i, s := range leaves(cp.el) {
				name := fmt.Sprintf("E:%s#%d", elemName(cp.el), i)
				m := e.getMap(st, name, s)
				st.heap[name] = c.Store(m, arr, c.CopyIn(c.Zeros(s, c.zeroOf(s)), c.Zero, seqs[i]))
			}
			cap := c.NewSym("nat:cap", SInt)
			e.learn(st, c.Le(n, cap))
			v = Value{arr, c.Zero, n, cap}
		case cp.opq:
			pre := "loop." + cp.name
			if cp.phi != nil && cp.n == 1 && len(cp.init) == 1 {
				if b, ok := cp.phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					pre = "nat:" + pre
				}
			}
			v = Value{c.NewSym(pre, cp.sort)}
		default:
			v = Value{cd.t}
		}
		cp.val = v
		switch {
		case cp.phi != nil:
			if cp.isSlice() {
				put[cp.phi] = v
			} else {
				put[cp.phi] = append(put[cp.phi], v[0])
			}
		case cp.key == nil:
			st.heap[cp.mp] = v[0]
		}
	}
	// cells go on top of whole maps
	for _, cp := range comps {
		if cp.phi == nil && cp.key != nil {
			if cp.isSlice() {
				for i := range cp.val {
					m := cp.mp + fmt.Sprintf("#%d", i)
					st.heap[m] = c.Store(e.getMap(st, m, cp.val[i].Sort), cp.key, cp.val[i])
				}
				continue
			}
			if cp.cands[cp.at].what == "unchanged" && !cp.opq {
				continue
			}
			st.heap[cp.mp] = c.Store(st.heap[cp.mp], cp.key, cp.val[0])
		}
	}
	for p, v := range put {
		f.env[p] = v
	}
	f.prev, f.block, f.pc = from, to, nphi
	// slices that changed as whole values
	return st
}

// backVals are the values of the phis at a back edge.
func (e *Engine) backVals(st *State, to, prev *ssa.BasicBlock) map[*ssa.Phi]Value {
	r := map[*ssa.Phi]Value{}
	pi := -1
	for i, p := range to.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r[p] = e.val(st, p.Edges[pi])
	}
	return r
}

// sliceField says whether the map is a leaf of a slice-typed place.
func (e *Engine) sliceField(m string) (base string, el types.Type, ok bool) {
	i := strings.LastIndexByte(m, '#')
	if i < 0 {
		return
	}
	base = m[:i]
	t := e.placeType(base)
	if t == nil {
		return base, nil, false
	}
	sl, isS := t.Underlying().(*types.Slice)
	if !isS {
		return base, nil, false
	}
	return base, sl.Elem(), true
}

// placeType is the Go type of the places of a heap map.
func (e *Engine) placeType(base string) types.Type {
	if strings.HasPrefix(base, "F:") {
		n := base[2:]
		i := strings.LastIndexByte(n, '.')
		t, err := e.P.lookupType(n[:i], nil)
		if err != nil {
			return nil
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == n[i+1:] {
				return u.Field(j).Type()
			}
		}
	}
	if strings.HasPrefix(base, "C:") {
		t, err := e.P.lookupType(base[2:], nil)
		if err == nil {
			return t
		}
	}
	return nil
}

// newComps finds places changed by the body that are not tracked yet.
func (e *Engine) newComps(base, back *State, mark int, entry *State, comps *[]*comp, cells, wholes map[string]*comp, k *Term, hints []hint) bool {
	c := e.C
	added := false
	var names []string
	for m := range back.heap {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		was, ok := base.heap[m]
		if !ok {
			was = e.initMaps[m]
		}
		now := back.heap[m]
		if now == was || wholes[m] != nil {
			continue
		}
		if !now.Sort.isMap() {
			// a scalar ghost
			cp := &comp{name: m, mp: m, n: 1, sort: now.Sort, init: Value{e.getMapFull(entry, m, now.Sort)}}
			e.firstCands(cp)
			wholes[m] = cp
			*comps = append(*comps, cp)
			added = true
			continue
		}
		keys := map[*Term]bool{}
		whole := !touched(now, was, keys)
		var ks []*Term
		for x := range keys {
			ks = append(ks, x)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, x := range ks {
			if x.Sort == SRef && refRoot(x).Fresh && refRoot(x).Stamp > mark {
				continue // made in this iteration
			}
			if e.groupArr(*comps, x) {
				continue
			}
			if c.Select(now, x) == c.Select(was, x) {
				continue
			}
			if dependsAfter(x, k) {
				whole = true
				continue
			}
			id := fmt.Sprintf("%s@%d", m, x.id)
			if b, el, ok := e.sliceField(m); ok {
				id = fmt.Sprintf("%s@%d", b, x.id)
				if cells[id] == nil {
					cp := &comp{name: id, mp: b, key: x, n: 4, el: el}
					for i := 0; i < 4; i++ {
						mm := fmt.Sprintf("%s#%d", b, i)
						srt := SInt
						if i == 0 {
							srt = SRef
						}
						cp.init = append(cp.init, c.Select(e.getMap(entry, mm, srt), x))
					}
					e.firstCands(cp)
					cells[id] = cp
					*comps = append(*comps, cp)
					added = true
				}
				continue
			}
			if cells[id] == nil {
				_, vs := splitSort(now.Sort)
				cp := &comp{name: id, mp: m, key: x, n: 1, sort: vs[1], init: Value{c.Select(e.getMapFull(entry, m, now.Sort), x)}}
				e.firstCands(cp)
				cells[id] = cp
				*comps = append(*comps, cp)
				added = true
			}
		}
		if whole {
			cp := &comp{name: m, mp: m, n: 1, sort: now.Sort, init: Value{e.getMapFull(entry, m, now.Sort)}}
			e.firstCands(cp)
			wholes[m] = cp
			// the map as a whole takes over from its cells when the
			// specification describes it
			for _, h := range hints {
				if h.mp != m {
					continue
				}
				keep := (*comps)[:0]
				for _, o := range *comps {
					if o.phi == nil && o.key != nil && o.mp == m && !o.isSlice() {
						continue
					}
					keep = append(keep, o)
				}
				*comps = keep
				break
			}
			*comps = append(*comps, cp)
			added = true
		}
	}
	return added
}

func (e *Engine) groupArr(comps []*comp, x *Term) bool {
	for _, cp := range comps {
		if cp.isSlice() && len(cp.val) == 4 && cp.val[0] == x && x.Fresh {
			return true
		}
	}
	return false
}

// dependsAfter says whether a key mentions a symbol made inside the loop.
func dependsAfter(x, k *Term) bool {
	r := false
	collect([]*Term{x}, map[*Term]bool{}, func(t *Term) {
		if t == k || t.Op == "sym" && t.Stamp > k.Stamp {
			r = true
		}
	})
	return r
}

// touched collects the keys stored to between two versions of a map.
func touched(now, was *Term, keys map[*Term]bool) bool {
	wasChain := map[*Term]bool{}
	wb := was
	for wb.Op == "store" {
		wasChain[wb] = true
		keys2 := wb.Args[1]
		_ = keys2
		wb = wb.Args[0]
	}
	wasChain[wb] = true
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if wasChain[t] {
			// stores of was above t are gone
			for x := was; x != t && x.Op == "store"; x = x.Args[0] {
				keys[x.Args[1]] = true
			}
			return
		}
		switch t.Op {
		case "store":
			keys[t.Args[1]] = true
			rec(t.Args[0])
		case "ite":
			rec(t.Args[1])
			rec(t.Args[2])
		default:
			ok = false
		}
	}
	rec(now)
	return ok
}

// quickProve tries to prove a goal on a path.
func (e *Engine) quickProve(st *State, g *Term, d time.Duration) bool {
	g = e.simp(st, g)
	switch e.decide(st, g) {
	case 1:
		return true
	case -1:
		return false
	}
	return e.solve(st.facts, g, d, false)
}

// solve asks z3 whether the facts entail the goal.
func (e *Engine) solve(facts []*Term, g *Term, d time.Duration, real bool) bool {
	c := e.C
	ng := c.Not(g)
	as := append(append([]*Term(nil), facts...), ng)
	scr := c.Script(relevant(as, ng), real, e.unfoldOne)
	t0 := time.Now()
	r := e.sv[0].Check(scr, d)
	if traceLoop {
		_, file, line, _ := runtime.Caller(1)
		_, file2, line2, _ := runtime.Caller(2)
		_, _, line3, _ := runtime.Caller(3)
		debugf("   solve %s %v %d bytes %s:%d %s:%d :%d", r, time.Since(t0).Round(time.Millisecond), len(scr), filepath.Base(file), line, filepath.Base(file2), line2, line3)
	}
	return r == "unsat"
}

// unfoldOne gives the definition of a rec application, and of a fold on an
// empty sequence, down to the current level.
func (e *Engine) unfoldOne(t *Term) (out []*Term) {
	c := e.C
	if e.unfLevel > 0 && t.Op == "app" && t.Name == "smem" && constSeq(t.Args[0]) {
		any := c.False
		for q := t.Args[0]; q.Op == "snoc"; q = q.Args[0] {
			any = c.Or(any, c.Eq(t.Args[1], q.Args[1]))
		}
		return []*Term{c.mk("=", "", SBool, t, any)}
	}
	if e.unfLevel > 0 && (t.Op == "select" || t.Op == "app") {
		return e.tableFacts(t)
	}
	if t.Op != "rec" && t.Op != "fold" {
		return nil
	}
	if t.Op == "fold" {
		q := t.Args[0]
		if q.Op == "seqnil" || q.Op == "snoc" || q.Op == "cat" {
			return nil
		}
		a := append([]*Term{c.SeqNil(q.Sort.elem())}, t.Args[1:]...)
		z := c.FoldApp(t.Name, t.Sort, a)
		return []*Term{c.Implies(c.Eq(c.SeqLen(q), c.Zero), c.mk("=", "", SBool, t, z))}
	}
	d := e.unfDepth[t]
	if d >= e.unfLevel {
		return nil
	}
	i := strings.LastIndexAny(t.Name, "#@")
	if k := strings.Index(t.Name, "@"); k >= 0 {
		i = k
	}
	f := e.S.fns[t.Name[:i]]
	if f == nil {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				out = nil
				return
			}
			panic(r)
		}
	}()
	body := e.unfoldRec(f, t.Args)[t.Name]
	if body == nil || body == t || body.Sort.isMap() {
		return nil
	}
	made := false
	collect([]*Term{body}, map[*Term]bool{}, func(x *Term) {
		if x.Op == "sym" && x.Fresh && x.Stamp > t.Stamp {
			made = true
		}
	})
	if made {
		// an object made by unfolding has no place in the order of
		// allocations: the application stands for it
		return nil
	}
	collect([]*Term{body}, map[*Term]bool{}, func(x *Term) {
		if x.Op == "rec" && x != t {
			if _, ok := e.unfDepth[x]; !ok {
				e.unfDepth[x] = d + 1
			}
		}
	})
	return []*Term{c.mk("=", "", SBool, t, body)}
}

// checkComp checks a description against a back edge; true if it had to be
// replaced.
func (e *Engine) checkComp(cp *comp, back *State, vals map[*ssa.Phi]Value, k *Term, hints []hint, entry *State, lb *binder) bool {
	c := e.C
	if cp.opq && !cp.isSlice() {
		return false
	}
	k1 := map[*Term]*Term{k: c.Add(k, c.One)}
	now := e.compNow(cp, back, vals)
	if cp.isSlice() {
		cd := cp.cands[cp.at]
		if cd.what == "unchanged" {
			same := true
			for i := range now {
				if now[i] != cp.val[i] {
					same = false
				}
			}
			if same {
				return false
			}
		} else if cp.opq {
			return false
		} else {
			view := e.view(back, now, cp.el)
			ok := true
			for i := range view {
				want := c.Subst(cd.seqs[i], k1)
				if view[i] != want && !e.eqBound(back, view[i], want, lb) {
					ok = false
				}
			}
			if ok {
				return false
			}
		}
		// the slice is built up in the loop: it must be ours
		if !e.ownArr(cp.init[0], entry) {
			fail("loop changes a slice it does not own (%s)", cp.name)
		}
		e.nextSliceCand(cp, hints, k, entry)
		return true
	}
	cd := cp.cands[cp.at]
	want := c.Subst(cd.t, k1)
	if now[0] == want {
		return false
	}
	if now[0].Sort.isMap() {
		if cp.at == 0 && farApart(e.simp(back, now[0]), e.simp(back, want)) {
			// not what was there before
		} else if e.eqUnder(back, now[0], want) {
			return false
		}
		if os.Getenv("GOVC_TRACE") == "eq" {
			debugf("    maps differ: %s", termDiff(e.simp(back, now[0]), e.simp(back, want)))
		}
	} else if e.eqBound(back, now[0], want, lb) {
		return false
	}
	// advance
	if cp.at == 0 && len(cp.cands) == 1 {
		cp.cands = append(cp.cands, e.scalarCands(cp, now[0], k, hints, entry)...)
	}
	cp.at++
	if cp.at >= len(cp.cands) {
		cp.cands = append(cp.cands, &cand{what: "opaque"})
		cp.opq = true
	}
	return true
}

// eqBound tries to prove two terms equal on a path, where the objects the
// specification makes with new@ in this step are those the code made in it.
func (e *Engine) eqBound(st *State, a, w *Term, lb *binder) bool {
	c := e.C
	a, w = e.simp(st, a), e.simp(st, w)
	if a == w {
		return true
	}
	t := &binder{e: e, o: lb.o, spec: lb.spec, b: map[*Term]*Term{}, used: map[*Term]*Term{}, mark: lb.mark, sk: append([]*Term(nil), lb.sk...)}
	for k, v := range lb.b {
		t.b[k] = v
		t.used[v] = k
	}
	t.bind(a, w)
	var goals []*Term
	n := len(lb.sk)
	for i := n; i < len(t.sk); i++ {
		t.skSame(t.sk[i], func(_ string, g *Term) { goals = append(goals, g) })
	}
	goals = goals[:0]
	for i := n; i < len(t.sk); i++ {
		t.skSame(t.sk[i], func(_ string, g *Term) { goals = append(goals, g) })
	}
	if a.Sort.isMap() {
		if !e.eqUnder(st, a, t.sub(w)) {
			return false
		}
	} else {
		goals = append(goals, c.Eq(a, t.sub(w)))
	}
	for _, g := range goals {
		if !e.quickProve(st, g, 1500*time.Millisecond) {
			if os.Getenv("GOVC_TRACE") == "eq" {
				debugf("    cannot show %s\n      %v\n    diff %s", g, st.facts, termDiff(a, t.sub(w)))
			}
			return false
		}
	}
	lb.b, lb.used, lb.sk = t.b, t.used, t.sk
	return true
}

// eqUnder tries to prove two terms (or maps) equal on a path.
func (e *Engine) eqUnder(st *State, a, b *Term) bool {
	c := e.C
	a, b = e.simp(st, a), e.simp(st, b)
	if a == b {
		return true
	}
	if a.Sort.isMap() {
		return e.mapsEqual(st, a, b, 1500*time.Millisecond)
	}
	g := c.Eq(a, b)
	return e.quickProve(st, g, 1500*time.Millisecond)
}

// apart: what an operation of the specification makes of a map is not, as far
// as can be told, a map nothing is known of.
func apart(a, b *Term) bool {
	return (a.Op == "rec" || a.Op == "fold") && b.Op == "sym"
}

// farApart: made by another operation of the specification.
func farApart(a, b *Term) bool {
	a, b = storeKeys(a, map[*Term]bool{}), storeKeys(b, map[*Term]bool{})
	return (a.Op == "rec" || a.Op == "fold") && (a.Op != b.Op || a.Name != b.Name)
}

// mapsEqual compares two maps key by key, leaving out keys fresh in the loop.
func (e *Engine) mapsEqual(st *State, a, b *Term, d time.Duration) bool {
	c := e.C
	keys := map[*Term]bool{}
	ba, bb := storeKeys(a, keys), storeKeys(b, keys)
	if ba.Op == "ite" || bb.Op == "ite" {
		// compared at an arbitrary key
		sk := c.Sym("sk!any", a.Sort.key(), 0)
		p, q := e.simp(st, c.Select(a, sk)), e.simp(st, c.Select(b, sk))
		if p.Sort.isMap() {
			return e.mapsEqual(st, p, q, d)
		}
		return e.quickProve(st, c.Eq(p, q), d)
	}
	if ba != bb {
		if apart(ba, bb) || apart(bb, ba) {
			return false
		}
		sk := c.Sym("sk!any", a.Sort.key(), 0)
		if p := c.Select(a, sk); !p.Sort.isMap() && e.quickProve(st, c.Eq(p, c.Select(b, sk)), d) {
			return true
		}
		g := c.Eq(c.Select(ba, sk), c.Select(bb, sk))
		if !e.quickProve(st, g, d) {
			return false
		}
	}
	for x := range keys {
		p, q := e.simp(st, c.Select(a, x)), e.simp(st, c.Select(b, x))
		if p == q {
			continue
		}
		if p.Sort.isMap() {
			if !e.mapsEqual(st, p, q, d) {
				return false
			}
			continue
		}
		if !e.quickProve(st, c.Eq(p, q), d) {
			return false
		}
	}
	return true
}

func storeKeys(m *Term, keys map[*Term]bool) *Term {
	for m.Op == "store" {
		keys[m.Args[1]] = true
		m = m.Args[0]
	}
	return m
}

func (e *Engine) compNow(cp *comp, st *State, vals map[*ssa.Phi]Value) Value {
	c := e.C
	switch {
	case cp.phi != nil && cp.isSlice():
		return vals[cp.phi]
	case cp.phi != nil:
		return Value{vals[cp.phi][cp.leaf]}
	case cp.isSlice():
		var v Value
		for i := 0; i < 4; i++ {
			m := fmt.Sprintf("%s#%d", cp.mp, i)
			srt := SInt
			if i == 0 {
				srt = SRef
			}
			v = append(v, c.Select(e.getMap(st, m, srt), cp.key))
		}
		return v
	case cp.key != nil:
		return Value{c.Select(st.heap[cp.mp], cp.key)}
	}
	m := st.heap[cp.mp]
	return Value{m}
}

// ownArr says whether an array can be replaced by another with its content.
func (e *Engine) ownArr(arr *Term, entry *State) bool {
	arr = e.simp(entry, arr)
	if arr == e.C.NilRef {
		return true
	}
	return arr.Fresh && !e.shared(entry, arr)
}

func (e *Engine) nextSliceCand(cp *comp, hints []hint, k *Term, entry *State) {
	c := e.C
	if len(cp.cands) == 1 {
		init := e.view(entry, cp.init, cp.el)
		ls := leaves(cp.el)
		if len(ls) == 1 {
			for _, h := range hints {
				if h.sort != SeqOf(ls[0]) {
					continue
				}
				for _, t := range h.at(e, k) {
					t0 := c.Subst(t, map[*Term]*Term{k: c.Zero})
					if t0 != init[0] && e.simp(entry, t0) != e.simp(entry, init[0]) {
						// the list may have a first part already
						continue
					}
					cp.cands = append(cp.cands, &cand{what: h.name, seqs: []*Term{t}})
				}
			}
			for _, h := range hints {
				if !h.keys {
					continue
				}
				for _, q := range h.seqs {
					if q.Sort == SeqOf(ls[0]) {
						cp.cands = append(cp.cands, &cand{what: "copy", seqs: []*Term{c.Cat(init[0], c.Take(q, k))}})
					}
				}
			}
		}
	}
	cp.at++
	if cp.at >= len(cp.cands) {
		cp.cands = append(cp.cands, &cand{what: "opaque"})
		cp.opq = true
	}
}

func (e *Engine) scalarCands(cp *comp, now *Term, k *Term, hints []hint, entry *State) []*cand {
	c := e.C
	var out []*cand
	if cp.sort == SInt {
		d := c.Sub(now, cp.val[0])
		if v, ok := d.intVal(); ok {
			out = append(out, &cand{what: fmt.Sprintf("+%d*k", v), t: c.Add(cp.init[0], c.Mul(c.Int(v), k))})
		}
	}
	switch now.Op {
	case "true", "false", "str", "int", "flt":
		// one value in the first round, another one from then on
		out = append(out, &cand{what: "first", t: c.Ite(c.Le(k, c.Zero), cp.init[0], now)})
	}
	for _, h := range hints {
		if h.keys && !cp.sort.isMap() {
			continue
		}
		cell := cp.key != nil && h.mp != "" && h.mp == cp.mp && h.sort.isMap()
		if h.sort != cp.sort && !cell {
			continue
		}
		if cp.phi == nil && cp.key == nil && h.mp != cp.mp {
			continue
		}
		for _, t := range h.at(e, k) {
			if cell {
				t = c.Select(t, cp.key)
			}
			if h.keys {
				out = append(out, &cand{what: "keys", t: c.Union(cp.init[0], t)})
				continue
			}
			t0 := c.Subst(t, map[*Term]*Term{k: c.Zero})
			i0 := e.simp(entry, cp.init[0])
			if cp.sort.isMap() {
				if !e.mapsEqual(entry, t0, i0, 300*time.Millisecond) {
					continue
				}
			} else if t0 != i0 && !e.quickProve(entry, c.Eq(t0, i0), 300*time.Millisecond) {
				continue
			}
			out = append(out, &cand{what: h.name, t: t})
		}
	}
	return out
}

// hint is a spec fold that may describe a value in a loop.
type hint struct {
	near bool // its own sequence is at hand
	keys bool // what is added to a set
	name string
	mp   string
	sort Sort
	fold *SpecFn
	full string
	pars []*Term
	seqs []*Term
	maps []*Term
}

func (h hint) at(e *Engine, k *Term) []*Term {
	var out []*Term
	if h.keys {
		for _, q := range h.seqs {
			if MapOf(q.Sort.elem(), SBool) == h.sort {
				out = append(out, e.C.KeySet(e.C.Take(q, k)))
			}
		}
		return out
	}
	for _, q := range h.seqs {
		a := append([]*Term{e.C.Take(q, k)}, h.pars...)
		a = append(a, h.maps...)
		out = append(out, e.C.FoldApp(h.full, h.sort, a))
	}
	return out
}

// loopHints instantiates the folds of the specification at the loop's entry.
func (e *Engine) loopHints(entry *State) []hint {
	c := e.C
	// sequences at hand
	type sq struct {
		q    *Term
		sort Sort
	}
	var seqs []sq
	have := map[*Term]bool{}
	addSeq := func(q *Term) {
		if q.Op == "seqnil" {
			return
		}
		if !have[q] {
			have[q] = true
			seqs = append(seqs, sq{q, q.Sort})
		}
	}
	f := entry.top()
	var vs []ssa.Value
	for v := range f.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		x := f.env[v]
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && len(x) == 4 && !isStruct(sl.Elem()) && !isArray(sl.Elem()) && len(leaves(sl.Elem())) == 1 {
			addSeq(e.simp(entry, e.view(entry, x, sl.Elem())[0]))
		}
		if len(x) == 1 && x[0].Sort == SStr {
			addSeq(c.Runes(x[0]))
		}
	}
	for _, it := range entry.iters {
		addSeq(it.seq)
	}
	var out []hint
	bySort := map[Sort][]*Term{}
	for _, s := range seqs {
		k := MapOf(s.q.Sort.elem(), SBool)
		bySort[k] = append(bySort[k], s.q)
	}
	var bs []Sort
	for k := range bySort {
		bs = append(bs, k)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	for _, k := range bs {
		out = append(out, hint{name: "keys", keys: true, sort: k, seqs: bySort[k]})
	}
	seen := map[string]bool{}
	for _, t := range e.hints {
		i := strings.IndexAny(t.Name, ".@")
		fn := e.S.fns[t.Name[:i]]
		if fn == nil {
			continue
		}
		np := len(t.Args) - len(fn.maps)
		for _, pars := range e.parVariants(entry, t.Args[1:np]) {
			key := argKey(t.Name[:i], pars)
			other := false
			for _, x := range pars {
				other = other || e.otherCase(entry, x)
			}
			if other {
				continue
			}
			// own sequence and maps
			maps := make([]*Term, len(fn.maps))
			for j, m := range fn.maps {
				maps[j] = e.getMapFull(entry, m.name, m.sort)
			}
			var qs []*Term
			if base := seqBase(t.Args[0]); base != nil && !e.otherCase(entry, base) {
				qs = append(qs, base)
			}
			for _, s := range seqs {
				if s.sort == t.Args[0].Sort && (len(qs) == 0 || qs[0] != s.q) {
					qs = append(qs, s.q)
				}
			}
			key += argKey("", qs)
			if seen[key] {
				continue
			}
			seen[key] = true
			// every component of the fold, whether the specification's outcome
			// shows it or not
			near := false
			for _, s := range seqs {
				near = near || len(qs) > 0 && s.q == qs[0]
			}
			add := func(name string, srt Sort, mp string) {
				out = append(out, hint{near: near, name: name, full: name, sort: srt, fold: fn, pars: pars, seqs: qs, maps: maps, mp: mp})
			}
			for _, ac := range fn.Accs {
				for l, srt := range e.styp(ac.Type, nil).leaves() {
					add(fmt.Sprintf("%s.%s#%d", fn.Name, ac.Name, l), srt, "")
				}
			}
			for _, m := range fn.State {
				for _, mr := range fn.maps {
					if mr.name == m {
						add(fn.Name+"@"+m, mr.sort, m)
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].near && !out[j].near })
	return out
}

// otherCase: a term about the contents of a value that is known to hold
// something of another type.
func (e *Engine) otherCase(st *State, t *Term) bool {
	c := e.C
	other := false
	collect([]*Term{t}, map[*Term]bool{}, func(x *Term) {
		if other || x.Op != "vptrof" && x.Op != "unbox" {
			return
		}
		id, _, _ := strings.Cut(x.Name, ".")
		n, err := strconv.Atoi(id)
		if err != nil {
			return
		}
		if v, ok := e.simp(st, c.Tag(x.Args[0])).intVal(); ok && v != int64(n) {
			other = true
		}
	})
	return other
}

// parVariants are the parameters of a fold as they are, and with objects the
// specification makes replaced by objects of the same type at hand.
func (e *Engine) parVariants(entry *State, pars []*Term) [][]*Term {
	c := e.C
	out := [][]*Term{pars}
	objs := map[*Term]bool{}
	collect(pars, map[*Term]bool{}, func(t *Term) {
		if e.specTyp[t] != nil {
			objs[t] = true
		}
	})
	if len(objs) == 0 || len(objs) > 2 {
		return out
	}
	var os []*Term
	for o := range objs {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	vars := [][]*Term{pars}
	for _, o := range os {
		pt := types.NewPointer(e.specTyp[o])
		var is []*Term
		seen := map[*Term]bool{o: true}
		for _, f := range entry.frames {
			for v, x := range f.env {
				if len(x) == 1 && types.Identical(v.Type(), pt) && x[0].Fresh && !seen[x[0]] {
					seen[x[0]] = true
					is = append(is, x[0])
				}
			}
		}
		sort.Slice(is, func(i, j int) bool { return is[i].id < is[j].id })
		var next [][]*Term
		for _, p := range vars {
			for _, x := range is {
				q := make([]*Term, len(p))
				for j := range p {
					q[j] = c.Subst(p[j], map[*Term]*Term{o: x})
				}
				next = append(next, q)
			}
		}
		vars = next
		if len(vars) > 8 {
			vars = vars[:8]
		}
	}
	return append(out, vars...)
}

func seqBase(q *Term) *Term {
	for q.Op == "take" {
		q = q.Args[0]
	}
	return q
}

// solveK replaces the counter by the number of iterations, when the exit
// condition determines it.
func (e *Engine) solveK(st *State, k, cond *Term) *Term {
	c := e.C
	// cond is k < n, that is n - k - 1 >= 0
	if cond.Op != ">=" {
		return nil
	}
	l := c.linOf(cond.Args[0])
	r := c.linOf(cond.Args[1])
	r.scale(-1)
	l.addScaled(r, 1)
	// l >= 0 with coefficient of k equal to -1
	t := c.linTerm(l)
	b := c.Add(t, k) // n-1 if coefficient is -1
	dep := false
	collect([]*Term{b}, map[*Term]bool{}, func(x *Term) {
		if x == k {
			dep = true
		}
	})
	if dep {
		return nil
	}
	n := c.Add(b, c.One)
	if e.quickProve(st, c.Eq(k, n), 1500*time.Millisecond) {
		debugf("  k = %s", n)
		e.substState(st, map[*Term]*Term{k: n})
		return n
	}
	return nil
}

// substState rewrites a whole state.
func (e *Engine) substState(st *State, m map[*Term]*Term) {
	c := e.C
	for k, v := range st.heap {
		st.heap[k] = c.Subst(v, m)
	}
	fs := st.facts
	if len(st.rw) > 0 {
		rw := map[*Term]*Term{}
		for k, v := range st.rw {
			rw[c.Subst(k, m)] = c.Subst(v, m)
		}
		st.rw = rw
	}
	st.facts, st.known, st.eqc = nil, map[*Term]bool{}, map[*Term]*Term{}
	for _, f := range fs {
		e.learn(st, c.Subst(f, m))
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			nv := make(Value, len(v))
			for i := range v {
				nv[i] = c.Subst(v[i], m)
			}
			f.env[k] = nv
		}
	}
}

// ---------- user invariants

func (e *Engine) loopInvs(entry *State) []*Clause {
	var out []*Clause
	var own *Contract
	if ct := e.contractOf(entry.top().fn); ct != nil && entry.top().fn != e.targetFn() {
		for i := range ct.Inv {
			if !ct.Inv[i].All {
				out = append(out, &ct.Inv[i])
			}
		}
	}
	if e.target != nil {
		own = e.target.ct
	}
	if own != nil {
		for i := range own.Inv {
			if own.Inv[i].All || entry.top().fn == e.target.fn {
				out = append(out, &own.Inv[i])
			}
		}
	}
	return out
}

// invEnvAt evaluates an invariant in a state.
func (e *Engine) invEnvAt(st, entry *State, iv *Clause, comps []*comp) *Env {
	f := st.top()
	if iv != nil && iv.All {
		return e.targetEnv(st)
	}
	ct := e.contractOf(f.fn)
	if e.target != nil && e.target.fn == f.fn {
		ct = e.target.ct
	}
	var args []Value
	for _, p := range f.fn.Params {
		args = append(args, f.env[p])
	}
	ts := append(recvTypes(f.fn), paramTypes(f.fn.Signature)...)
	n := e.env(ct, st, args, ts)
	n.old = entry
	if e.target != nil && e.target.fn == f.fn && e.target.init != nil && len(st.frames) == 1 {
		n.old = e.target.init
	}
	for v, x := range f.env {
		switch v := v.(type) {
		case *ssa.Alloc:
			if v.Comment != "" {
				pt := v.Type().Underlying().(*types.Pointer).Elem()
				if _, dup := n.vars[v.Comment]; !dup {
					n.vars[v.Comment] = SV{v: x, t: &STyp{t: types.NewPointer(pt)}}
				}
			}
		}
	}
	for _, cp := range comps {
		if cp.phi != nil && cp.phi.Comment != "" && len(cp.val) > 0 {
			x := f.env[cp.phi]
			if x != nil {
				n.vars[cp.phi.Comment] = SV{v: x, t: &STyp{t: cp.phi.Type()}}
			}
		}
	}
	return n
}

func (e *Engine) targetFn() *ssa.Function {
	if e.target == nil {
		return nil
	}
	return e.target.fn
}

// targetEnv evaluates expressions of the contract under verification.
func (e *Engine) targetEnv(st *State) *Env {
	t := e.target
	n := e.env(t.ct, st, t.args, t.ts)
	n.old = t.init
	return n
}

// terminating says whether termination is to be shown.
func (e *Engine) terminating() bool {
	return e.target != nil && e.target.ct != nil && e.target.ct.Decr != nil && e.target.init != nil
}

func (n *Env) int(x *Expr) *Term {
	return n.coerce(x, n.ev(x), &STyp{t: types.Typ[types.Int]}).v[0]
}

var termProps = []string{"C06"}

// checkMeasure: a callee's measure is below the caller's.
func (e *Engine) checkMeasure(s *State, ct *Contract, n *Env, pos string) {
	if !e.terminating() || ct.Assumed || ct.Pure {
		return
	}
	c := e.C
	g := c.False
	if len(ct.Decr) > 0 {
		var a, b []*Term
		for _, x := range ct.Decr {
			a = append(a, n.int(x))
		}
		old := e.targetEnv(e.target.init)
		for _, x := range e.target.ct.Decr {
			b = append(b, old.int(x))
		}
		k := min(len(a), len(b))
		for i := k - 1; i >= 0; i-- {
			g = c.Or(c.Lt(a[i], b[i]), c.And(c.Eq(a[i], b[i]), g))
		}
		for _, x := range a {
			g = c.And(g, c.Le(c.Zero, x))
		}
	}
	e.oblige(s, "term", "the measure goes down at the call of "+ct.Name, termProps, pos, g)
}

// checkRounds: a loop comes to an end.
func (e *Engine) checkRounds(head *State, outs []*Outcome, k, cond *Term, to *ssa.BasicBlock) {
	if !e.terminating() {
		return
	}
	c := e.C
	if cond != nil && countsUp(c, cond, k) {
		for _, o := range outs {
			if o.kind == outBack {
				e.oblige(o.st, "term", "the loop ends by counting", termProps, e.pos(o.st, to.Instrs[len(to.Instrs)-1]), c.True)
			}
		}
		return
	}
	v := e.target.ct.Variant
	for _, o := range outs {
		if o.kind != outBack {
			continue
		}
		g := c.False
		if v != nil {
			was, now := e.targetEnv(head).int(v), e.targetEnv(o.st).int(v)
			g = c.And(c.Lt(now, was), c.Le(c.Zero, was))
		}
		e.oblige(o.st, "term", "every round of the loop gets closer to its end", termProps, e.pos(o.st, to.Instrs[len(to.Instrs)-1]), g)
	}
}

// countsUp says that a condition over the counter fails from some count on.
func countsUp(c *Ctx, cond, k *Term) bool {
	if cond.Op == "and" {
		for _, a := range cond.Args {
			if countsUp(c, a, k) {
				return true
			}
		}
		return false
	}
	if cond.Op != ">=" {
		return false
	}
	l := c.linOf(cond.Args[0])
	r := c.linOf(cond.Args[1])
	r.scale(-1)
	l.addScaled(r, 1)
	neg := false
	for _, m := range l.co {
		if m.t == k {
			neg = m.c < 0
			continue
		}
		dep := false
		collect([]*Term{m.t}, map[*Term]bool{}, func(x *Term) {
			if x == k {
				dep = true
			}
		})
		if dep {
			return false
		}
	}
	return neg
}

func (e *Engine) checkInvs(st, entry *State, inv []*Clause, comps []*comp, to *ssa.BasicBlock, nphi int, from *ssa.BasicBlock, when string) {
	if len(inv) == 0 {
		return
	}
	t := st.clone()
	e.enter(t, from, to)
	for _, cp := range comps {
		cp.val = cp.init
	}
	for _, iv := range inv {
		e.oblige(t, "inv", "loop invariant "+iv.Label+" on "+when, iv.Props, e.pos(t, to.Instrs[len(to.Instrs)-1]), e.invEnvAt(t, entry, iv, comps).bool(iv.E))
	}
}

func (e *Engine) checkBackInvs(back, entry *State, inv []*Clause, comps []*comp, to, prev *ssa.BasicBlock, k *Term) {
	if len(inv) == 0 {
		return
	}
	t := back.clone()
	e.enter(t, prev, to)
	for _, iv := range inv {
		e.oblige(t, "inv", "loop invariant "+iv.Label+" is kept", iv.Props, e.pos(t, to.Instrs[len(to.Instrs)-1]), e.invEnvAt(t, entry, iv, comps).bool(iv.E))
	}
}

// termDiff shows where two terms part.
func termDiff(a, b *Term) string {
	for depth := 0; ; depth++ {
		if a.Op != b.Op || a.Name != b.Name || len(a.Args) != len(b.Args) {
			break
		}
		n, at := 0, 0
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				n++
				at = i
			}
		}
		if n == 0 || n > 1 && depth > 40 {
			break
		}
		if n > 1 {
			s := ""
			for i := range a.Args {
				if a.Args[i] != b.Args[i] {
					s += termDiff(a.Args[i], b.Args[i])
				}
			}
			return s
		}
		a, b = a.Args[at], b.Args[at]
	}
	return fmt.Sprintf("\n      <%.600s>\n      <%.600s>", a, b)
}

package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pinf = math.Inf(1)

// ifaceUse is an interface contract used for a concrete method.
type ifaceUse struct {
	ct   *Contract
	recv types.Type // type of the boxed receiver
	fn   *ssa.Function
}

func (e *Engine) typeOfTag(id int) types.Type {
	if e.tagTypes == nil {
		e.tagTypes = map[string]types.Type{}
		for _, n := range e.P.named {
			e.tagTypes[tagName(n)] = n
			p := types.NewPointer(n)
			e.tagTypes[tagName(p)] = p
		}
	}
	return e.tagTypes[e.C.tagTy[id]]
}

// indexIface finds which interface contract covers each concrete method.
func (e *Engine) indexIface() {
	e.ifaceOf = map[*ssa.Function]*ifaceUse{}
	var names []string
	for n := range e.S.iface {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, u := range e.ifaceTargets(e.S.iface[n]) {
			if _, ok := e.ifaceOf[u.fn]; !ok {
				e.ifaceOf[u.fn] = u
			}
		}
	}
}

// ifaceTargets lists the methods an interface contract speaks about.
func (e *Engine) ifaceTargets(ct *Contract) []*ifaceUse {
	i := strings.LastIndex(ct.Name, ".")
	t, err := e.P.lookupType(ct.Name[:i], nil)
	if err != nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ifaceUse
	for _, m := range e.P.implementers(it, typeName(t)) {
		if _, p := m.(*types.Pointer); !p {
			if types.Implements(types.NewPointer(m), it) {
				// values held by pointer are covered by the pointer type too
				_ = p
			}
		}
		tn := tagName(m)
		if len(ct.Only) > 0 && !contains(ct.Only, tn) || contains(ct.Except, tn) {
			continue
		}
		sel := e.P.prog.MethodSets.MethodSet(m).Lookup(pkgOfMethod(it, ct.Name[i+1:]), ct.Name[i+1:])
		if sel == nil {
			continue
		}
		fn := e.P.prog.MethodValue(sel)
		if fn == nil {
			continue
		}
		out = append(out, &ifaceUse{ct, m, fn})
	}
	return out
}

func pkgOfMethod(it *types.Interface, name string) *types.Package {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i).Pkg()
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (e *Engine) callInstr(s *State, in *ssa.Call, cc *ssa.CallCommon, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(s, a))
	}
	if cc.IsInvoke() {
		return e.call(s, in, cc, nil, nil, e.val(s, cc.Value), args, nil, base, ctl, nil)
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return e.call(s, in, nil, nil, v, nil, args, nil, base, ctl, cc)
	case *ssa.Function:
		return e.call(s, in, nil, v, nil, nil, args, nil, base, ctl, nil)
	}
	r := e.simp(s, e.val(s, cc.Value)[0])
	if cl := s.clos[r]; cl != nil {
		return e.call(s, in, nil, cl.fn, nil, nil, args, cl.bind, base, ctl, nil)
	}
	if r.Op == "func" {
		if f, ok := e.P.funcs[r.Name]; ok {
			return e.call(s, in, nil, f, nil, nil, args, nil, base, ctl, nil)
		}
	}
	if r.Op == "ite" {
		t, g := e.branch(s, r.Args[0])
		var outs []*Outcome
		var more []*State
		for i, x := range []*State{t, g} {
			if x == nil {
				continue
			}
			x.top().env[cc.Value] = Value{r.Args[1+i]}
			n, o, m := e.callInstr(x, in, cc, base, ctl)
			outs = append(outs, o...)
			if n != nil {
				more = append(more, n)
			}
			more = append(more, m...)
		}
		return nil, outs, more
	}
	if ct := e.funcType(cc.Value.Type()); ct != nil {
		ok, p := e.guard(s, in, "call of a nil function", e.C.Not(e.C.Eq(r, e.C.NilRef)))
		var outs []*Outcome
		var more []*State
		if p != nil {
			outs, more = e.startPanic(p, e.rtPanic("nil dereference"), base, ctl)
		}
		if !ok {
			return nil, outs, more
		}
		sg := cc.Value.Type().Underlying().(*types.Signature)
		n, o, m := e.apply(s, in, ct, append([]Value{{r}}, args...), append([]types.Type{cc.Value.Type()}, paramTypes(sg)...), sg, base, ctl)
		return n, append(outs, o...), append(more, m...)
	}
	fail("call of an unknown function value %s", r)
	return nil, nil, nil
}

// funcType is the contract for the values of a function type.
func (e *Engine) funcType(t types.Type) *Contract {
	for _, ct := range e.S.functype {
		u, err := e.P.lookupType(ct.Name, nil)
		if err == nil && types.Identical(u.Underlying(), t.Underlying()) {
			return ct
		}
	}
	return nil
}

func (e *Engine) setRes(s *State, in *ssa.Call, v Value) {
	if in != nil {
		s.top().env[in] = v
	}
}

func (e *Engine) call(s *State, in *ssa.Call, inv *ssa.CallCommon, fn *ssa.Function, bi *ssa.Builtin, recv Value, args []Value, bind []Value, base int, ctl *loopCtl, cc *ssa.CallCommon) (*State, []*Outcome, []*State) {
	c := e.C
	if bi != nil {
		return e.builtin(s, in, bi, args, base, ctl, cc)
	}
	var ii ssa.Instruction
	if in != nil {
		ii = in
	}
	if inv != nil {
		r := e.simp(s, recv[0])
		if r.Op == "ite" {
			// go on with the alternatives one by one
			t, g := e.branch(s, r.Args[0])
			var outs []*Outcome
			var more []*State
			for i, x := range []*State{t, g} {
				if x == nil {
					continue
				}
				n, o, m := e.call(x, in, inv, nil, nil, Value{r.Args[1+i]}, args, nil, base, ctl, nil)
				outs = append(outs, o...)
				if n != nil {
					more = append(more, n)
				}
				more = append(more, m...)
			}
			return nil, outs, more
		}
		var outs []*Outcome
		var more []*State
		ok, p := e.guard(s, ii, "method call on nil", c.Not(c.Eq(c.Tag(r), c.Zero)))
		if p != nil {
			o, m := e.startPanic(p, e.rtPanic("nil dereference"), base, ctl)
			outs, more = append(outs, o...), append(more, m...)
		}
		if !ok {
			return nil, outs, more
		}
		tag := e.simp(s, c.Tag(r))
		id, known := tag.intVal()
		if !known {
			if k, ok := s.eqc[c.Tag(r)]; ok {
				id, known = k.intVal()
			}
		}
		if known {
			if t := e.typeOfTag(int(id)); t != nil {
				n, o, m := e.callMethod(s, in, t, r, inv, args, base, ctl)
				return n, append(outs, o...), append(more, m...)
			}
		}
		name := inv.Method.Name()
		st := typeName(inv.Value.Type()) + "." + name
		ct := e.S.iface[st]
		if ct == nil {
			if sg, ok := inv.Method.Type().(*types.Signature); ok && sg.Recv() != nil {
				st = typeName(sg.Recv().Type()) + "." + name
				ct = e.S.iface[st]
			}
		}
		if ct != nil && len(ct.Only) == 0 && len(ct.Except) == 0 {
			sg := inv.Method.Type().(*types.Signature)
			n, o, m := e.apply(s, in, ct, append([]Value{{r}}, args...), append([]types.Type{inv.Value.Type()}, paramTypes(sg)...), sg, base, ctl)
			return n, append(outs, o...), append(more, m...)
		}
		it, isI := inv.Value.Type().Underlying().(*types.Interface)
		if !isI || !isModuleType(inv.Value.Type()) {
			if inv.Method.Name() == "Error" || inv.Method.Name() == "String" {
				e.setRes(s, in, Value{c.App("ext:"+inv.Method.Name(), SStr, r)})
				return s, outs, more
			}
			fail("call of %s on a value of unknown type", inv.Method.FullName())
		}
		// one branch per implementation
		cur := s
		var res []*State
		for _, m := range e.P.implementers(it, typeName(inv.Value.Type())) {
			if cur == nil {
				break
			}
			is := e.implTerm(r, m, inv.Value.Type())
			t, g := e.branch(cur, is)
			if t != nil {
				n, o, mm := e.callMethod(t, in, m, r, inv, args, base, ctl)
				outs = append(outs, o...)
				if n != nil {
					res = append(res, n)
				}
				more = append(more, mm...)
			}
			cur = g
		}
		if len(res) == 0 {
			return nil, outs, more
		}
		return res[0], outs, append(more, res[1:]...)
	}
	if fn == nil {
		fail("call of nothing")
	}
	if e.initing && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
		return s, nil, nil // another package's: run when its variables are read
	}
	if fn.String() == "(*sync.Once).Do" && e.S.ghosts["$once"] != nil {
		return e.onceDo(s, args, base, ctl)
	}
	// contracts first
	if ct := e.contractOf(fn); ct != nil && !ct.Inline && (!e.initing || len(fn.Blocks) == 0) {
		return e.apply(s, in, ct, args, append(recvTypes(fn), paramTypes(fn.Signature)...), fn.Signature, base, ctl)
	}
	if e.ifaceOf == nil {
		e.indexIface()
	}
	if u := e.ifaceOf[fn]; u != nil {
		a := append([]Value{{e.mkIface(u.recv, args[0])}}, args[1:]...)
		i := strings.LastIndex(u.ct.Name, ".")
		it, _ := e.P.lookupType(u.ct.Name[:i], nil)
		return e.apply(s, in, u.ct, a, append([]types.Type{it}, paramTypes(fn.Signature)...), fn.Signature, base, ctl)
	}
	if len(fn.Blocks) == 0 {
		return e.extern(s, in, fn, args, base, ctl)
	}
	for _, f := range s.frames {
		if f.fn == fn {
			fail("recursive call of %s, which has no contract", funcName(fn))
		}
	}
	if len(s.frames) > 60 {
		fail("call depth")
	}
	if e.inline != nil && !e.initing {
		e.inline[funcName(fn)] = true
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], deferOf: -1, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bind[i]
	}
	if in == nil {
		f.discard = true
	}
	s.frames = append(s.frames, f)
	return s, nil, nil
}

// onceDo is sync.Once.Do (assumed): the first call on an object, $once says,
// runs the function; the others do nothing.
func (e *Engine) onceDo(s *State, args []Value, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	c := e.C
	o, r := args[0][0], e.simp(s, args[1][0])
	var fn *ssa.Function
	var bind []Value
	if cl := s.clos[r]; cl != nil {
		fn, bind = cl.fn, cl.bind
	} else if f, ok := e.P.funcs[r.Name]; ok && r.Op == "func" {
		fn = f
	} else {
		fail("sync.Once.Do of an unknown function")
	}
	was, now := e.branch(s, c.Select(e.getMap(s, "$once", MapOf(SRef, SBool)), o))
	if now == nil {
		return was, nil, nil
	}
	now.heap["$once"] = c.Store(e.getMap(now, "$once", MapOf(SRef, SBool)), o, c.True)
	n, outs, more := e.call(now, nil, nil, fn, nil, nil, nil, bind, base, ctl, nil)
	if was != nil {
		more = append(more, was)
	}
	return n, outs, more
}

func recvTypes(fn *ssa.Function) []types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return []types.Type{r.Type()}
	}
	return nil
}

func paramTypes(sg *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sg.Params().Len(); i++ {
		out = append(out, sg.Params().At(i).Type())
	}
	return out
}

// contractOf is the contract given for a function itself.
func (e *Engine) contractOf(fn *ssa.Function) *Contract {
	ct := e.S.byName[funcName(fn)]
	if ct != nil && !sigFits(ct, fn.Signature) {
		return nil
	}
	return ct
}

func sigFits(ct *Contract, sg *types.Signature) bool {
	n := sg.Params().Len()
	if sg.Recv() != nil {
		n++
	}
	return len(ct.Params) == n
}

func (e *Engine) callMethod(s *State, in *ssa.Call, t types.Type, r *Term, inv *ssa.CallCommon, args []Value, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	sel := e.P.prog.MethodSets.MethodSet(t).Lookup(inv.Method.Pkg(), inv.Method.Name())
	if sel == nil {
		fail("no method %s on %s", inv.Method.Name(), t)
	}
	fn := e.P.prog.MethodValue(sel)
	rv := e.unbox(t, r)
	if _, ok := t.(*types.Pointer); ok && isModuleType(t) {
		e.assumeNonNil(s, rv[0])
	}
	return e.call(s, in, nil, fn, nil, nil, append([]Value{rv}, args...), nil, base, ctl, nil)
}

func (e *Engine) assumeNonNil(s *State, r *Term) {
	e.learn(s, e.C.Not(e.C.Eq(r, e.C.NilRef)))
}

// ---------- contracts

func (e *Engine) env(ct *Contract, s *State, args []Value, ts []types.Type) *Env {
	n := &Env{e: e, vars: map[string]SV{}, st: s, old: s, file: ct.File, pkg: e.contractPkg(ct)}
	for i, p := range ct.Params {
		if i >= len(args) {
			break
		}
		nm := p
		t := &STyp{t: ts[i]}
		if j := strings.IndexByte(p, ' '); j >= 0 {
			nm = p[:j]
			t = e.styp(p[j+1:], n.pkg)
		}
		n.vars[nm] = SV{v: args[i], t: t}
	}
	for _, p := range ct.Any {
		j := strings.IndexByte(p, ' ')
		t := e.styp(p[j+1:], n.pkg)
		var v Value
		for _, srt := range t.leaves() {
			// one and the same value all through a verification
			v = append(v, e.C.Sym("any:"+ct.Name+"."+p[:j], srt, 0))
		}
		n.vars[p[:j]] = SV{v: v, t: t}
	}
	return n
}

func (e *Engine) contractPkg(ct *Contract) *types.Package {
	name := ct.Name
	best := ""
	for k := range e.P.pkgs {
		if strings.HasPrefix(name, k+".") && len(k) > len(best) {
			best = k
		}
	}
	if best == "" {
		return nil
	}
	return e.P.pkgs[best].Pkg
}

// apply uses a contract in place of a call.
func (e *Engine) apply(s *State, in *ssa.Call, ct *Contract, args []Value, ts []types.Type, sg *types.Signature, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	c := e.C
	if e.used != nil {
		for _, t := range ct.Trusted {
			e.assumed[ct.Name+" for "+t] = true
		}
		if ct.Assumed {
			e.assumed[ct.Name] = true
		} else {
			e.used[ct.Name] = true
		}
	}
	var ii ssa.Instruction
	if in != nil {
		ii = in
	}
	var outs []*Outcome
	var more []*State
	n := e.env(ct, s, args, ts)
	for _, r := range ct.Requires {
		n.reads = s
		g := n.bool(r.E)
		n.reads = nil
		e.oblige(s, "pre", ct.Name+": "+r.Label, r.Props, e.pos(s, ii), g)
	}
	e.checkMeasure(s, ct, n, e.pos(s, ii))
	if sg.Recv() != nil && len(args) > 0 {
		if _, ok := ts[0].Underlying().(*types.Pointer); ok {
			okk, p := e.guard(s, ii, "nil receiver of "+ct.Name, c.Not(c.Eq(addrOf(args[0][0]), c.NilRef)))
			if p != nil {
				o, m := e.startPanic(p, e.rtPanic("nil dereference"), base, ctl)
				outs, more = append(outs, o...), append(more, m...)
			}
			if !okk {
				return nil, outs, more
			}
		}
	}
	pre := s.clone()
	n.old = pre
	if ct.Pure {
		e.setRes(s, in, e.pureResult(s, ct.Name, args, ts, sg))
		return s, outs, more
	}
	var pst *State
	if ct.MayPanic {
		var cond *Term
		if ct.Panics != nil {
			cond = n.bool(ct.Panics)
		} else if ct.Fails != nil {
			probe := s.clone()
			m := e.env(ct, probe, args, ts)
			m.old = pre
			e.effect(m, ct)
			cond = m.bool(ct.Fails)
		} else if ct.PanicsAs != nil {
			cond = n.bool(ct.PanicsAs)
		} else {
			cond = c.NewSym("panics", SBool)
		}
		switch {
		case !e.canPanic(s):
			e.oblige(s, "safety", ct.Name+" must not panic here", nil, e.pos(s, ii), c.Not(cond))
			e.learn(s, c.Not(cond))
		default:
			cond = e.simp(s, cond)
			if v := e.settled(s, cond); v != nil {
				cond = v
			}
			if cond != c.False && (cond == c.True || e.feasible(s, cond)) {
				pst = s.clone()
				e.learn(pst, cond)
			}
			if cond == c.True {
				s = nil
			} else {
				e.learn(s, c.Not(cond))
			}
		}
	}
	if pst != nil {
		// what the callee did before panicking is unknown
		probe := pst.clone()
		m := e.env(ct, probe, args, ts)
		m.old = pst
		e.effect(m, ct)
		for k, v := range probe.heap {
			if old, ok := pst.heap[k]; ok && old != v || !ok && v != e.initMaps[k] {
				pst.heap[k] = c.NewSym("pan:"+k, v.Sort)
			}
		}
		pv := c.NewSym("panicval", SVal)
		e.learn(pst, c.Not(c.Eq(c.Tag(pv), c.Zero)))
		o, mm := e.startPanic(pst, pv, base, ctl)
		outs, more = append(outs, o...), append(more, mm...)
	}
	if s == nil || ct.Never {
		return nil, outs, more
	}
	e.effect(n, ct)
	if b := s.heap["$alloc"]; b != nil {
		if a := e.getMapFull(pre, "$alloc", b.Sort); a != b {
			e.learn(s, c.Le(a, b))
		}
	}
	if !ct.Assumed {
		for _, d := range e.S.dead {
			for k, v := range s.heap {
				if k == "F:"+d || strings.HasPrefix(k, "F:"+d+"#") {
					s.heap[k] = c.NewSym("dead:"+d, v.Sort)
				}
			}
		}
	}
	res := sg.Results()
	var ret Value
	if n.has {
		if len(n.ret) != res.Len() {
			fail("spec %s: %s returns %d values, want %d", ct.File, ct.Name, len(n.ret), res.Len())
		}
		for i := range n.ret {
			v := n.coerce(nil, n.ret[i], &STyp{t: res.At(i).Type()})
			ret = append(ret, v.v...)
		}
	} else {
		for i := 0; i < res.Len(); i++ {
			v := e.unknown(s, "ret:"+ct.Name, res.At(i).Type())
			ret = append(ret, v...)
		}
	}
	if len(ct.Ensures) > 0 {
		e.bindResults(n, sg, ret)
		for _, q := range ct.Ensures {
			if !mentions(q.E, "applied") { // nothing is known of the function here
				e.learn(s, n.bool(q.E))
			}
		}
	}
	e.setRes(s, in, ret)
	if ct.Forks {
		for _, v := range ret {
			if v.Op != "ite" {
				continue
			}
			g := e.simp(s, v.Args[0])
			if e.decide(s, g) != 0 {
				continue
			}
			o := s.clone()
			e.learn(o, c.Not(g))
			e.learn(s, g)
			return s, outs, append(more, o)
		}
	}
	return s, outs, more
}

// settled says whether an effect applied to constants comes out one way by
// its definition.
func (e *Engine) settled(s *State, cond *Term) *Term {
	c := e.C
	t := cond
	if t.Op == "not" {
		t = t.Args[0]
	}
	if t.Op != "rec" {
		return nil
	}
	f := e.S.fns[recName(t.Name)]
	if f == nil {
		return nil
	}
	num := false
	for _, a := range t.Args[:e.nPars(f)] {
		num = num || a.Sort == SInt && a.isConst()
	}
	if !num {
		return nil
	}
	v := e.unfoldRec(f, t.Args)[t.Name]
	if v == nil {
		return nil
	}
	v = e.simp(s, v)
	if v != c.True && v != c.False {
		return nil
	}
	if t != cond {
		v = c.Not(v)
	}
	return v
}

func mentions(x *Expr, f string) bool {
	if x == nil {
		return false
	}
	if x.S == f && x.Op == "call" {
		return true
	}
	for _, a := range x.A {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

// bindResults gives the results names.
func (e *Engine) bindResults(n *Env, sg *types.Signature, ret Value) {
	res := sg.Results()
	k := 0
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		l := len(leaves(t))
		v := SV{v: ret[k : k+l], t: &STyp{t: t}}
		k += l
		n.vars[fmt.Sprintf("ret%d", i)] = v
		if i == 0 {
			n.vars["ret"] = v
		}
		if nm := res.At(i).Name(); nm != "" && nm != "_" {
			if _, ok := n.vars[nm]; !ok {
				n.vars[nm] = v
			}
		}
	}
}

// effect performs the state changes of a contract.
func (e *Engine) effect(n *Env, ct *Contract) {
	n.exec(ct.Body)
	for _, h := range ct.Havoc {
		e.havoc(n, h)
	}
}

func (e *Engine) havoc(n *Env, h *Expr) {
	c := e.C
	if h.Op == "ident" {
		if g, ok := e.S.ghosts[h.S]; ok {
			m := e.getMapFull(n.st, g.Name, e.ghostSort(g))
			n.st.heap[g.Name] = c.NewSym("hav:"+g.Name, m.Sort)
			return
		}
	}
	if h.Op == "index" && h.A[0].Op == "ident" {
		if g, ok := e.S.ghosts[h.A[0].S]; ok {
			t := e.styp(g.Type, n.pkg)
			n.assign(h, SV{v: Value{c.NewSym("hav:"+g.Name, leaf1(t))}, t: t})()
			return
		}
	}
	a, t, ok := n.addr(h)
	if !ok {
		n.errf(h, "cannot havoc")
	}
	e.store(n.st, a, t, e.unknown(n.st, "hav", t))
}

func (e *Engine) ghostSort(g *Ghost) Sort {
	t := leaf1(e.styp(g.Type, nil))
	if g.Key == "" {
		return t
	}
	return MapOf(leaf1(e.styp(g.Key, nil)), t)
}

// unknown makes an arbitrary value of a Go type.
func (e *Engine) unknown(s *State, prefix string, t types.Type) Value {
	c := e.C
	if isArray(t) {
		var v Value
		for _, srt := range leaves(t) {
			v = append(v, c.NewSym(prefix, srt))
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v := Value{c.NewSym(prefix+".arr", SRef), c.NewSym("nat:"+prefix+".off", SInt), c.NewSym("nat:"+prefix+".len", SInt), c.NewSym("nat:"+prefix+".cap", SInt)}
		e.sliceFacts(s, v)
		return v
	case *types.Struct:
		var v Value
		for i := 0; i < u.NumFields(); i++ {
			v = append(v, e.unknown(s, prefix+"."+u.Field(i).Name(), u.Field(i).Type())...)
		}
		return v
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return Value{c.NewSym("nat:"+prefix, SInt)}
		}
	}
	var v Value
	for _, srt := range leaves(t) {
		v = append(v, c.NewSym(prefix, srt))
	}
	return v
}

func (e *Engine) sliceFacts(s *State, v Value) {
	c := e.C
	e.learn(s, c.Le(v[2], v[3]))
	e.learn(s, c.Or(c.Not(c.Eq(v[0], c.NilRef)), c.Eq(v[3], c.Zero)))
}

// pureResult is an uninterpreted result of the arguments.
func (e *Engine) pureResult(s *State, name string, args []Value, ts []types.Type, sg *types.Signature) Value {
	c := e.C
	var a []*Term
	for i, v := range args {
		if sl, ok := ts[i].Underlying().(*types.Slice); ok {
			a = append(a, e.view(s, v, sl.Elem())...)
			continue
		}
		a = append(a, v...)
	}
	var out Value
	k := 0
	for i := 0; i < sg.Results().Len(); i++ {
		t := sg.Results().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			var qs []*Term
			for j, srt := range leaves(sl.Elem()) {
				qs = append(qs, c.App(fmt.Sprintf("ext:%s#%d.%d", name, i, j), SeqOf(srt), a...))
			}
			out = append(out, e.newSlice(s, sl.Elem(), qs, nil)...)
			continue
		}
		for _, srt := range leaves(t) {
			out = append(out, c.App(fmt.Sprintf("ext:%s#%d", name, k), srt, a...))
			k++
		}
	}
	return out
}

// ---------- builtins

func (e *Engine) builtin(s *State, in *ssa.Call, bi *ssa.Builtin, args []Value, base int, ctl *loopCtl, cc *ssa.CallCommon) (*State, []*Outcome, []*State) {
	c := e.C
	switch bi.Name() {
	case "len":
		t := cc.Args[0].Type()
		switch t.Underlying().(type) {
		case *types.Slice:
			e.setRes(s, in, Value{args[0][2]})
		case *types.Basic:
			e.setRes(s, in, Value{c.SLen(args[0][0])})
		case *types.Map:
			e.setRes(s, in, Value{c.App("nat:maplen", SInt, e.mapDom(s, t, args[0][0]))})
		default:
			fail("len of %s", t)
		}
	case "cap":
		e.setRes(s, in, Value{args[0][3]})
	case "append":
		return e.appendOp(s, in, args, cc)
	case "copy":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		var qs []*Term
		var ln *Term
		if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			fail("copy from a string")
		}
		qs = e.view(s, args[1], st.Elem())
		ln = args[1][2]
		d := args[0]
		n := c.Ite(e.simp(s, c.Le(ln, d[2])), ln, d[2])
		for i, srt := range leaves(st.Elem()) {
			name := fmt.Sprintf("E:%s#%d", elemName(st.Elem()), i)
			m := e.getMap(s, name, srt)
			q := c.Take(qs[i], n)
			if d[0] != c.NilRef {
				s.heap[name] = c.Store(m, d[0], c.CopyIn(c.Select(m, d[0]), d[1], q))
			}
		}
		e.setRes(s, in, Value{n})
	case "recover":
		f := s.top()
		v := c.VNil
		if f.deferOf >= 0 {
			g := s.frames[f.deferOf]
			if g.panicking != nil && !g.recovered {
				v = g.panicking
				g.recovered = true
			}
		}
		e.setRes(s, in, Value{v})
	case "max", "min":
		r := args[0][0]
		for _, a := range args[1:] {
			if r.Sort == SF {
				r = c.FOp("f"+bi.Name(), r, a[0])
			} else if bi.Name() == "max" {
				r = c.Ite(c.Le(r, a[0]), a[0], r)
			} else {
				r = c.Ite(c.Le(r, a[0]), r, a[0])
			}
		}
		e.setRes(s, in, Value{r})
	case "ssa:wrapnilchk":
		e.setRes(s, in, args[0])
	case "delete":
		t := cc.Args[0].Type()
		d, _, ks, _ := mapNames(t)
		dm := e.getMap(s, d, MapOf(SRef, MapOf(ks, SBool)))
		s.heap[d] = c.Store(dm, args[0][0], c.Store(c.Select(dm, args[0][0]), c.tup(args[1]), c.False))
	case "print", "println":
	default:
		fail("builtin %s", bi.Name())
	}
	return s, nil, nil
}

// onlyAppended: the array of the arguments of one append, used for nothing
// else.
func onlyAppended(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || len(*sl.Referrers()) != 1 {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice:
			if r != sl {
				return false
			}
		case *ssa.IndexAddr:
			for _, u := range *r.Referrers() {
				if st, ok := u.(*ssa.Store); !ok || st.Addr != r {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// dropKey forgets what a map holds for a key, if that can be done at all.
func dropKey(c *Ctx, m, key *Term) *Term {
	if m.Op != "store" {
		return m
	}
	if m.Args[1] == key {
		return dropKey(c, m.Args[0], key)
	}
	r := dropKey(c, m.Args[0], key)
	if r == m.Args[0] {
		return m
	}
	return c.Store(r, m.Args[1], m.Args[2])
}

func (e *Engine) appendOp(s *State, in *ssa.Call, args []Value, cc *ssa.CallCommon) (*State, []*Outcome, []*State) {
	c := e.C
	st := in.Type().Underlying().(*types.Slice)
	a := args[0]
	var qs []*Term
	var ln *Term
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		q := c.App("strbytes", SeqOf(SInt), args[1][0])
		qs, ln = []*Term{q}, c.SLen(args[1][0])
	} else {
		qs, ln = e.view(s, args[1], st.Elem()), args[1][2]
	}
	if e.simp(s, ln) == c.Zero {
		e.setRes(s, in, a)
		return s, nil, nil
	}
	if x := args[1][0]; len(args[1]) == 4 && x.Fresh && onlyAppended(cc.Args[1]) {
		// the arguments' array is never looked at again
		for i, srt := range leaves(st.Elem()) {
			name := fmt.Sprintf("E:%s#%d", elemName(st.Elem()), i)
			s.heap[name] = dropKey(c, e.getMap(s, name, srt), x)
		}
	}
	if isOwned(a[0]) {
		e.appendOwned(s, in, a, qs[0], st.Elem(), cc)
		return s, nil, nil
	}
	total := c.Add(a[2], ln)
	fits := e.simp(s, c.Le(total, a[3]))
	grow := func(s *State) {
		v := e.view(s, a, st.Elem())
		var all []*Term
		for i := range v {
			all = append(all, c.Cat(v[i], qs[i]))
		}
		cp := c.NewSym("nat:cap", SInt)
		e.learn(s, c.Le(total, cp))
		r := e.newSlice(s, st.Elem(), all, cp)
		if r[2] != total {
			r[2] = total
		}
		e.setRes(s, in, r)
	}
	inplace := func(s *State) {
		for i, srt := range leaves(st.Elem()) {
			name := fmt.Sprintf("E:%s#%d", elemName(st.Elem()), i)
			m := e.getMap(s, name, srt)
			s.heap[name] = c.Store(m, a[0], c.CopyIn(c.Select(m, a[0]), c.Add(a[1], a[2]), qs[i]))
		}
		e.setRes(s, in, Value{a[0], a[1], total, a[3]})
	}
	switch e.decide(s, fits) {
	case 1:
		inplace(s)
		return s, nil, nil
	case -1:
		grow(s)
		return s, nil, nil
	}
	if a[0].Fresh && !e.shared(s, a[0]) {
		// whether the array is reused or not cannot be observed, as long as
		// nobody else holds it
		grow(s)
		nm := map[*Term]bool{}
		for k := range s.moved {
			nm[k] = true
		}
		nm[a[0]] = true
		s.moved = nm
		return s, nil, nil
	}
	t, g := e.branch(s, fits)
	if t != nil {
		inplace(t)
	}
	if g != nil {
		grow(g)
	}
	if t == nil {
		return g, nil, nil
	}
	if g == nil {
		return t, nil, nil
	}
	return t, nil, []*State{g}
}

// shared says whether the array occurs in the heap or was appended to before.
func (e *Engine) shared(s *State, arr *Term) bool {
	if s.moved[arr] {
		return true
	}
	for k, m := range s.heap {
		for x := m; x.Op == "store"; x = x.Args[0] {
			if strings.HasPrefix(k, "E:") && x.Args[1] == arr {
				continue
			}
			if e.freshOf(x.Args[2]).refs[arr] && refRoot(x.Args[1]).Fresh == false {
				return true
			}
		}
	}
	return false
}

// ---------- external functions

func (e *Engine) extern(s *State, in *ssa.Call, fn *ssa.Function, args []Value, base int, ctl *loopCtl) (*State, []*Outcome, []*State) {
	c := e.C
	name := fn.String()
	if fn.Pkg != nil || fn.Object() != nil {
		name = funcName(fn)
	}
	allStr := func() bool {
		for _, a := range args {
			for _, x := range a {
				if x.Op != "str" && x.Op != "int" {
					return false
				}
			}
		}
		return true
	}
	one := func(t *Term) (*State, []*Outcome, []*State) {
		e.setRes(s, in, Value{t})
		return s, nil, nil
	}
	if e.assumed != nil {
		e.assumed[name] = true
	}
	switch name {
	case "math.IsInf":
		return one(c.FIsInf(args[0][0], args[1][0]))
	case "math.Inf":
		if v, ok := args[0][0].intVal(); ok {
			if v >= 0 {
				return one(c.Flt(pinf))
			}
			return one(c.Flt(-pinf))
		}
	case "math.Max":
		return one(c.FOp("fmax", args[0][0], args[1][0]))
	case "math.Min":
		return one(c.FOp("fmin", args[0][0], args[1][0]))
	case "math.Round", "math.Ceil", "math.Floor", "math.Abs", "math.Sqrt", "math.Trunc":
		return one(c.FApp(name, args[0][0]))
	case "fmt.Errorf", "fmt.Sprintf":
		q := e.view(s, args[1], types.NewInterfaceType(nil, nil))
		if name == "fmt.Sprintf" {
			return one(e.format(s, args[0][0], q[0]))
		}
		return one(c.VBox("fmt.error", args[0][0], q[0]))
	case "strconv.Itoa":
		return one(c.App("ext:strconv.FormatInt#0", SStr, args[0][0], c.Int(10)))
	case "strconv.Quote":
		return one(c.App("ext:strconv.Quote#0", SStr, args[0][0]))
	case "errors.New":
		return one(c.VBox("errors.error", args[0][0]))
	case "log.Printf", "log.Println", "log.Print", "fmt.Printf", "fmt.Println":
		e.setRes(s, in, e.zeroRes(fn))
		return s, nil, nil
	case "strings.ToLower":
		return one(c.Lower(args[0][0]))
	case "strings.ToUpper":
		if allStr() {
			return one(c.Str(strings.ToUpper(args[0][0].Name)))
		}
	case "strings.HasPrefix":
		if allStr() {
			return one(c.Bool(strings.HasPrefix(args[0][0].Name, args[1][0].Name)))
		}
	case "strings.HasSuffix":
		if allStr() {
			return one(c.Bool(strings.HasSuffix(args[0][0].Name, args[1][0].Name)))
		}
	case "strings.Contains":
		if allStr() {
			return one(c.Bool(strings.Contains(args[0][0].Name, args[1][0].Name)))
		}
	case "strings.TrimPrefix":
		if allStr() {
			return one(c.Str(strings.TrimPrefix(args[0][0].Name, args[1][0].Name)))
		}
	case "strings.Replace":
		if allStr() {
			n, _ := args[3][0].intVal()
			return one(c.Str(strings.Replace(args[0][0].Name, args[1][0].Name, args[2][0].Name, int(n))))
		}
	case "strings.(*Builder).WriteString":
		m := e.getMap(s, "$sb", MapOf(SRef, SStr))
		s.heap["$sb"] = c.Store(m, args[0][0], c.SCat(e.sbGet(s, args[0][0]), args[1][0]))
		e.setRes(s, in, Value{c.SLen(args[1][0]), c.VNil})
		return s, nil, nil
	case "strings.(*Builder).String":
		return one(e.sbGet(s, args[0][0]))
	}
	scalar := true
	sg := fn.Signature
	for _, t := range append(recvTypes(fn), paramTypes(sg)...) {
		if !scalarType(t) {
			scalar = false
		}
	}
	for i := 0; i < sg.Results().Len(); i++ {
		if !scalarType(sg.Results().At(i).Type()) {
			scalar = false
		}
	}
	if scalar && sg.Results().Len() > 0 {
		e.setRes(s, in, e.pureResult(s, name, args, append(recvTypes(fn), paramTypes(sg)...), sg))
		return s, nil, nil
	}
	fail("external function %s has no contract", name)
	return nil, nil, nil
}

// Lower is strings.ToLower.
func (c *Ctx) Lower(x *Term) *Term {
	if x.Op == "str" {
		return c.Str(strings.ToLower(x.Name))
	}
	return c.App("ext:strings.ToLower#0", SStr, x)
}

// sbGet is the text of a strings.Builder; a new one is empty.
func (e *Engine) sbGet(s *State, r *Term) *Term {
	m := e.getMap(s, "$sb", MapOf(SRef, SStr))
	for x := m; x.Op == "store"; x = x.Args[0] {
		if x.Args[1] == r {
			return x.Args[2]
		}
	}
	if r.Fresh && !s.opaqueSB {
		return e.C.Str("")
	}
	return e.C.Select(m, r)
}

func scalarType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) zeroRes(fn *ssa.Function) Value {
	var v Value
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		v = append(v, e.C.zeroValue(fn.Signature.Results().At(i).Type())...)
	}
	return v
}

// ---------- invariants of types

func (e *Engine) invEnv(f *SpecFn, s *State, v Value, t types.Type) *Env {
	return &Env{e: e, vars: map[string]SV{f.X: {v: v, t: &STyp{t: t}}}, st: s, old: s, file: f.File}
}

// typeInv assumes the invariant of a value just loaded.
func (e *Engine) typeInv(s *State, addr *Term, t types.Type, v Value) {
	switch addr.Op {
	case "idx":
		if f, ok := e.S.elemInv[elemName(t)]; ok && !mayBeZero(v[0]) {

			e.learn(s, e.invEnv(f, s, v, t).bool(f.Body))
		}
	case "fld":
		if f, ok := e.S.fieldInv[addr.Name]; ok && !refRoot(addr).Fresh {
			e.learn(s, e.invEnv(f, s, v, t).bool(f.Body))
		}
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := len(leaves(ft))
			e.typeInv(s, e.C.Fld(fieldRefName(t, i), addr), ft, v[o:o+k])
			o += k
		}
		return
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && !refRoot(addr).Fresh {
		_ = sl
		if v[2].Op == "select" || v[2].Op == "app" {
			c := e.C
			e.learn(s, c.Le(c.Zero, v[2]))
			e.learn(s, c.Le(c.Zero, v[1]))
			e.learn(s, c.Le(v[2], v[3]))
			e.learn(s, c.Or(c.Not(c.Eq(v[0], c.NilRef)), c.Eq(v[3], c.Zero)))
		}
	}
}

func mayBeZero(t *Term) bool {
	switch t.Op {
	case "vnil", "nilref":
		return true
	case "ite":
		return mayBeZero(t.Args[1]) || mayBeZero(t.Args[2])
	}
	return false
}

// checkInv demands the invariant of a value about to be stored.
func (e *Engine) checkInv(s *State, in ssa.Instruction, addr *Term, t types.Type, v Value) {
	switch addr.Op {
	case "idx":
		if s.moved[addr.Args[0]] {
			fail("write to a slice after it was appended to")
		}
		if f, ok := e.S.elemInv[elemName(t)]; ok {
			e.oblige(s, "inv", "element of []"+elemName(t)+" is not nil", nil, e.pos(s, in), e.invEnv(f, s, v, t).bool(f.Body))
		}
	case "fld":
		if f, ok := e.S.fieldInv[addr.Name]; ok {
			e.oblige(s, "inv", "invariant of "+addr.Name, nil, e.pos(s, in), e.invEnv(f, s, v, t).bool(f.Body))
		}
	}
}

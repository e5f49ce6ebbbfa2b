package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables that the frame obligations show to be written by
// package initialisation only ("frozen") have the values initialisation gives
// them, whenever they are read. The values come from running the package's
// init function symbolically; the objects it makes are named after the package.

// prepareFrozen decides which packages' variables are frozen.
func (p *Prog) prepareFrozen(db *SpecDB) {
	p.frozen = map[string]bool{}
	sp := &FrameSpec{}
	for _, f := range db.frames {
		sp = f
	}
	f := newFramer(p, sp)
	for _, r := range f.run() {
		if !r.ok() {
			return
		}
	}
	for n := range p.pkgs {
		if !contains(sp.Skip, n) {
			p.frozen[n] = true
		}
	}
}

// globOwner is the package of a frozen location's root, and whether it is one.
func (e *Engine) frozenRoot(a *Term) (string, bool) {
	for a.Op == "fld" || a.Op == "idx" {
		a = a.Args[0]
	}
	if a.Op != "glob" {
		return "", false
	}
	n := strings.TrimPrefix(a.Name, "@")
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return "", false
	}
	return n[:i], true
}

// frozenState is the state holding the value at a, if it is frozen.
func (e *Engine) frozenState(a *Term) *State {
	if e.sizing {
		// the values do not matter, only that nothing else is read
	}
	pk, ok := e.frozenRoot(a)
	if !ok || e.P.frozen == nil || !e.P.frozen[pk] {
		return nil
	}
	if e.initing {
		return nil
	}
	if !e.initPkg(pk) {
		return nil
	}
	return e.frz
}

func (e *Engine) initPkg(pk string) (ok bool) {
	if r, done := e.frzDone[pk]; done {
		return r
	}
	if e.frzDone == nil {
		e.frzDone = map[string]bool{}
	}
	e.frzDone[pk] = false
	sp := e.P.pkgs[pk]
	if sp == nil {
		return false
	}
	fn := sp.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if e.frz == nil {
		e.frz = newState()
		e.frz.moved = map[*Term]bool{}
	}
	sink, hints, own, base, was, pkWas, trial, rec, ins := e.sink, e.hints, e.ownPanic, e.baseMaps, e.initing, e.initPk, e.noSolve, e.record, e.steps
	u, a := e.used, e.assumed
	tgt := e.target
	defer func() {
		e.sink, e.hints, e.ownPanic, e.baseMaps, e.initing, e.initPk, e.noSolve, e.record, e.steps = sink, hints, own, base, was, pkWas, trial, rec, ins
		e.used, e.assumed, e.target = u, a, tgt
		if r := recover(); r != nil {
			x, isU := r.(unsupported)
			if !isU {
				panic(r)
			}
			debugf("init of %s: %s", pk, x.msg)
			ok = false
		}
	}()
	e.initing, e.initPk, e.baseMaps, e.record = true, pk, nil, nil
	st := e.frz.clone()
	st.frames = nil
	var ns []string
	for n, m := range sp.Members {
		if _, isG := m.(*ssa.Global); isG {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		g := sp.Members[n].(*ssa.Global)
		t := g.Type().(*types.Pointer).Elem()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, isU := r.(unsupported); !isU {
						panic(r)
					}
				}
			}()
			e.store(st, e.glob(g), t, e.C.zeroValue(t))
		}()
	}
	st.frames = []*Frame{{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], deferOf: -1, unroll: map[*ssa.BasicBlock]int{}}}
	outs := e.run(st, 1, nil)
	var end *State
	for _, o := range outs {
		if o.kind != outRet {
			continue
		}
		if end != nil {
			fail("init of %s ends in several ways", pk)
		}
		end = o.st
	}
	if end == nil {
		fail("init of %s does not return", pk)
	}
	end.frames = nil
	e.frz = end
	e.frzDone[pk] = true
	return true
}

// frozenMap: looking up a key in a map of a frozen variable.
func (e *Engine) frozenMap(t types.Type, m *Term, key *Term) (Value, *Term, bool) {
	c := e.C
	if m.Op != "glob" {
		return nil, nil, false
	}
	fs := e.frozenState(m)
	if fs == nil {
		return nil, nil, false
	}
	if key.Op == "ite" {
		a, ha, _ := e.frozenMap(t, m, key.Args[1])
		b, hb, _ := e.frozenMap(t, m, key.Args[2])
		var v Value
		for i := range a {
			v = append(v, c.Ite(key.Args[0], a[i], b[i]))
		}
		return v, c.Ite(key.Args[0], ha, hb), true
	}
	d, vals, ks, vs := mapNames(t)
	if key.isConst() {
		dom := c.Select(e.getMap(fs, d, MapOf(SRef, MapOf(ks, SBool))), m)
		has := c.Select(dom, key)
		var v Value
		for i, n := range vals {
			x := c.Select(c.Select(e.getMap(fs, n, MapOf(SRef, MapOf(ks, vs[i]))), m), key)
			v = append(v, c.Ite(has, x, c.zeroOf(vs[i])))
		}
		return v, has, true
	}
	has := c.Select(e.frozenDom(t, m), key)
	var v Value
	for i := range vals {
		v = append(v, c.Ite(has, c.App(fmt.Sprintf("table:%s#%d", m.Name, i), vs[i], key), c.zeroOf(vs[i])))
	}
	return v, has, true
}

func (e *Engine) frozenDom(t types.Type, m *Term) *Term {
	_, _, ks, _ := mapNames(t)
	e.tables[m.Name] = table{t, m}
	return e.C.App("tabdom:"+m.Name, MapOf(ks, SBool))
}

// literalKeys are the keys of a map built by stores only.
func literalKeys(dom *Term) ([]*Term, bool) {
	var ks []*Term
	for dom.Op == "store" {
		if dom.Args[2].Op != "true" || !dom.Args[1].isConst() {
			return nil, false
		}
		ks = append(ks, dom.Args[1])
		dom = dom.Args[0]
	}
	return ks, dom.Op == "constmap"
}

// freshRef makes an object; those made by package initialisation have a name
// of their own, because later code may meet them again.
func (e *Engine) freshRef(prefix string) *Term {
	if e.initing {
		e.C.symN["@"+e.initPk]++
		return e.C.mk("glob", fmt.Sprintf("@%s.%s%d", e.initPk, prefix, e.C.symN["@"+e.initPk]), SRef)
	}
	return e.C.FreshRef(prefix)
}

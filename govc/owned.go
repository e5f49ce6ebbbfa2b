package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Owned slice fields. A field declared "owned" holds a slice that only ever
// grows: the module stores to it nothing but the result of appending to the
// very same field of the same object (or an empty slice), and writes no
// element through a value loaded from it. A value loaded from it is then a
// snapshot that never changes, so the field is modelled by the sequence it
// holds. scanOwned checks the discipline on the code; appendOp demands that
// what is appended to is still what the field holds.

func ownedHdr(c *Ctx, qs []*Term) Value {
	h := c.mk("app", "ownarr", SRef, qs...)
	return Value{h, c.Zero, c.SeqLen(qs[0]), c.App("nat:owncap", SInt, h)}
}

func isOwned(t *Term) bool { return t.Op == "app" && t.Name == "ownarr" }

// ownedField is the element type of an owned field's address.
func (e *Engine) ownedField(a *Term, t types.Type) types.Type {
	if a.Op != "fld" || !e.S.owned[a.Name] {
		return nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || len(leaves(sl.Elem())) != 1 || isStruct(sl.Elem()) {
		fail("owned %s is not a slice of simple elements", a.Name)
	}
	if m := e.P.badOwned[a.Name]; m != "" {
		fail("%s is not append-only: %s", a.Name, m)
	}
	return sl.Elem()
}

func (e *Engine) loadOwned(st *State, a *Term, el types.Type) Value {
	m := e.getMap(st, "O:"+a.Name, SeqOf(leaves(el)[0]))
	v := ownedHdr(e.C, []*Term{e.C.Select(m, a.Args[0])})
	e.learnOwned(st, v)
	return v
}

func (e *Engine) storeOwned(st *State, a *Term, el types.Type, v Value) {
	m := e.getMap(st, "O:"+a.Name, SeqOf(leaves(el)[0]))
	var q *Term
	if v[2] == e.C.Zero {
		q = e.C.SeqNil(leaves(el)[0])
	} else {
		q = e.view(st, v, el)[0]
	}
	st.heap["O:"+a.Name] = e.C.Store(m, a.Args[0], q)
}

// appendOwned appends to a snapshot of an owned field.
func (e *Engine) appendOwned(s *State, in *ssa.Call, a Value, q *Term, el types.Type, cc *ssa.CallCommon) {
	c := e.C
	fa := ownedLoad(cc.Args[0])
	if fa == nil {
		fail("append to a slice loaded from an append-only field")
	}
	obj := e.val(s, fa.X)[0]
	now := e.load(s, c.Fld(ownedName(fa), obj), fa.Type().Underlying().(*types.Pointer).Elem())
	if now[0] != a[0] {
		e.oblige(s, "owned", "nothing was appended to "+ownedName(fa)+" in between", nil, e.pos(s, in), c.Eq(now[0].Args[0], a[0].Args[0]))
	}
	v := e.view(s, a, el)
	e.setRes(s, in, ownedHdr(c, []*Term{c.Cat(v[0], q)}))
}

func ownedName(fa *ssa.FieldAddr) string {
	return fieldRefName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
}

// ownedLoad is the field a value was just loaded from.
func ownedLoad(v ssa.Value) *ssa.FieldAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, _ := u.X.(*ssa.FieldAddr)
	return fa
}

// scanOwned checks the whole module for writes to owned fields that are not
// appends.
func (p *Prog) scanOwned(db *SpecDB) {
	p.badOwned = map[string]string{}
	if len(db.owned) == 0 {
		return
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					n := ownedName(in)
					if !db.owned[n] {
						continue
					}
					if m := ownedUses(in, n); m != "" {
						p.badOwned[n] = fmt.Sprintf("%s in %s", m, funcName(fn))
					}
				case *ssa.Field:
					st := in.X.Type()
					if n := fieldRefName(st, in.Field); db.owned[n] {
						p.badOwned[n] = "a copy of the struct is read in " + funcName(fn)
					}
				case *ssa.UnOp:
					// copies of the whole struct
					if in.Op.String() == "*" && len(*in.Referrers()) > 0 && !emptyOwned(db, in.X) {
						p.wholeOwned(db, in.Type(), fn)
					}
				case *ssa.Store:
					if k, ok := in.Val.(*ssa.Const); ok && k.Value == (constant.Value)(nil) {
						continue
					}
				}
			}
		}
	}
}

func (p *Prog) wholeOwned(db *SpecDB, t types.Type, fn *ssa.Function) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if n := fieldRefName(t, i); db.owned[n] {
			p.badOwned[n] = "the struct is copied in " + funcName(fn)
		}
		p.wholeOwned(db, st.Field(i).Type(), fn)
	}
}

// emptyOwned: a composite literal whose owned fields were never set.
func emptyOwned(db *SpecDB, x ssa.Value) bool {
	a, ok := x.(*ssa.Alloc)
	if !ok || a.Comment != "complit" {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if db.owned[ownedName(r)] {
				return false
			}
			if _, ok := r.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				for _, u := range *r.Referrers() {
					switch u := u.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						if u.Addr != r {
							return false
						}
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func ownedUses(fa *ssa.FieldAddr, n string) string {
	for _, r := range *fa.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != fa {
				return "its address is stored"
			}
			if !ownedValue(r.Val, fa, n) {
				return "something else is stored"
			}
		case *ssa.UnOp:
			for _, u := range *r.Referrers() {
				if m := ownedLoadUse(r, u, fa, n); m != "" {
					return m
				}
			}
		default:
			return "its address is taken"
		}
	}
	return ""
}

func ownedLoadUse(v ssa.Value, u ssa.Instruction, fa *ssa.FieldAddr, n string) string {
	switch u := u.(type) {
	case *ssa.Slice:
		return "it is sliced"
	case *ssa.IndexAddr:
		for _, w := range *u.Referrers() {
			switch w := w.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				_ = w
				return "an element's address is taken"
			}
		}
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && u.Call.Args[0] == v {
			for _, w := range *u.Referrers() {
				switch w := w.(type) {
				case *ssa.DebugRef:
				case *ssa.Store:
					g, ok := w.Addr.(*ssa.FieldAddr)
					if !ok || ownedName(g) != n || g.X != fa.X {
						return "what is appended to it is kept elsewhere"
					}
				default:
					return "what is appended to it is used elsewhere"
				}
			}
			if len(*u.Referrers()) == 0 {
				return "what is appended to it is dropped"
			}
		} else if ok && b.Name() == "copy" && u.Call.Args[0] == v {
			return "it is copied into"
		}
	case *ssa.Phi:
		return "it is merged with another slice"
	case *ssa.Store:
		// kept as a snapshot; fine unless the keeper appends, which the
		// engine treats as an append to a slice of unknown capacity
	}
	return ""
}

// ownedValue says whether v may be stored to the owned field.
func ownedValue(v ssa.Value, fa *ssa.FieldAddr, n string) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		g := ownedLoad(v.Call.Args[0])
		return g != nil && ownedName(g) == n && g.X == fa.X
	case *ssa.MakeSlice:
		return isZero(v.Len) && onlyUse(v)
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		return ok && v.Low == nil && isZero(v.High) && onlyUse(v) && onlyUse(a)
	}
	return false
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

func onlyUse(v ssa.Value) bool {
	n := 0
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			n++
		}
	}
	return n == 1
}

func (e *Engine) learnOwned(s *State, v Value) {
	c := e.C
	e.learn(s, c.Or(c.Not(c.Eq(v[0], c.NilRef)), c.Eq(v[2], c.Zero)))
	e.learn(s, c.Le(v[2], v[3]))
}

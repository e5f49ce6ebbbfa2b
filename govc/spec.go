package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"maps"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// STyp is the type of a specification value.
type STyp struct {
	t    types.Type
	seq  *STyp
	sort Sort
}

var tBool = &STyp{t: types.Typ[types.Bool]}
var tIntT = &STyp{t: types.Typ[types.Int]}
var tFloatT = &STyp{t: types.Typ[types.Float64]}
var tStr = &STyp{t: types.Typ[types.String]}
var tAny = &STyp{t: types.NewInterfaceType(nil, nil)}

func (t *STyp) leaves() []Sort {
	switch {
	case t.seq != nil:
		l := t.seq.leaves()
		if len(l) != 1 {
			return []Sort{SeqOf(tupSort(l))}
		}
		return []Sort{SeqOf(l[0])}
	case t.sort != "":
		return []Sort{t.sort}
	}
	return leaves(t.t)
}

func (t *STyp) String() string {
	switch {
	case t == nil:
		return "?"
	case t.seq != nil:
		return "seq " + t.seq.String()
	case t.sort != "":
		return string(t.sort)
	}
	return typeName(t.t)
}

// SV is a specification value.
type SV struct {
	v   Value
	t   *STyp
	num string // untyped number
	lit []SV   // sequence literal not typed yet
	nil bool
	isL bool
}

// Env evaluates expressions.
type Env struct {
	e    *Engine
	vars map[string]SV
	st   *State
	old  *State
	pkg  *types.Package
	ret  []SV
	has  bool
	line int
	file string

	from  map[string]*Term // the heap when the effect was entered, if this is one
	reads *State           // where what the types of fields read here guarantee is noted
}

func (n *Env) sub() *Env {
	m := *n
	m.vars = make(map[string]SV, len(n.vars)+2)
	for k, v := range n.vars {
		m.vars[k] = v
	}
	return &m
}

func (n *Env) errf(x *Expr, format string, a ...any) {
	l := 0
	if x != nil {
		l = x.line
	}
	fail("spec %s:%d: %s", n.file, l, fmt.Sprintf(format, a...))
}

func (e *Engine) styp(s string, pkg *types.Package) *STyp {
	if strings.HasPrefix(s, "seq ") {
		return &STyp{seq: e.styp(s[4:], pkg)}
	}
	if strings.HasPrefix(s, "set ") {
		l := e.styp(s[4:], pkg).leaves()
		return &STyp{sort: MapOf(tupSort(l), SBool)}
	}
	if e.S.sorts[s] {
		return &STyp{sort: Sort(s)}
	}
	if s == "any" {
		return tAny
	}
	t, err := e.P.lookupType(s, pkg)
	if err != nil {
		fail("spec: %v", err)
	}
	return &STyp{t: t}
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
func isFloatT(t *STyp) bool     { return t != nil && t.t != nil && leaf1(t) == SF }
func leaf1(t *STyp) Sort {
	l := t.leaves()
	if len(l) != 1 {
		return ""
	}
	return l[0]
}

// coerce converts a value to a type.
func (n *Env) coerce(x *Expr, v SV, t *STyp) SV {
	c := n.e.C
	switch {
	case v.num != "":
		if leaf1(t) == SF {
			f, err := strconv.ParseFloat(v.num, 64)
			if err != nil {
				n.errf(x, "number %s", v.num)
			}
			return SV{v: Value{c.Flt(f)}, t: t}
		}
		if leaf1(t) == SInt {
			i, err := strconv.ParseInt(v.num, 0, 64)
			if err != nil {
				n.errf(x, "number %s as integer", v.num)
			}
			return SV{v: Value{c.Int(i)}, t: t}
		}
		if t.t != nil && isIface(t.t) {
			n.errf(x, "untyped number as %s", t)
		}
	case v.nil:
		return SV{v: func() Value {
			var o Value
			for _, s := range t.leaves() {
				o = append(o, c.zeroOf(s))
			}
			return o
		}(), t: t}
	case v.isL:
		el := t.seq
		sl := false
		if el == nil && t.t != nil {
			if s, ok := t.t.Underlying().(*types.Slice); ok {
				el, sl = &STyp{t: s.Elem()}, true
			}
		}
		if el == nil {
			n.errf(x, "sequence literal as %s", t)
		}
		q := c.SeqNil(leaf1(&STyp{seq: el}).elem())
		for _, y := range v.lit {
			q = c.Snoc(q, c.tup(n.coerce(x, y, el).v))
		}
		r := SV{v: Value{q}, t: &STyp{seq: el}}
		if sl {
			return n.coerce(x, r, t)
		}
		return r
	}
	if v.t == nil {
		n.errf(x, "value without a type")
	}
	if t.t != nil && v.t.t != nil {
		if isIface(t.t) && !isIface(v.t.t) {
			return SV{v: Value{n.e.mkIface(v.t.t, v.v)}, t: t}
		}
		if types.Identical(t.t.Underlying(), v.t.t.Underlying()) || isIface(t.t) {
			return SV{v: v.v, t: t}
		}
	}
	if t.seq != nil && v.t.t != nil {
		if s, ok := v.t.t.Underlying().(*types.Slice); ok {
			return SV{v: n.e.view(n.st, v.v, s.Elem()), t: &STyp{seq: &STyp{t: s.Elem()}}}
		}
	}
	if t.t != nil && v.t.seq != nil {
		if s, ok := t.t.Underlying().(*types.Slice); ok {
			return SV{v: n.e.newSlice(n.st, s.Elem(), v.v, nil), t: t}
		}
	}
	a, b := v.t.leaves(), t.leaves()
	if len(a) == len(b) {
		same := true
		for i := range a {
			same = same && a[i] == b[i]
		}
		if same {
			return SV{v: v.v, t: t}
		}
	}
	n.errf(x, "cannot use %s as %s", v.t, t)
	return SV{}
}

func (n *Env) bool(x *Expr) *Term {
	v := n.coerce(x, n.ev(x), tBool)
	return v.v[0]
}

// unify brings two operands to one type.
func (n *Env) unify(x *Expr, a, b SV) (SV, SV) {
	switch {
	case a.t == nil && b.t == nil:
		if a.num != "" && b.num != "" {
			t := tIntT
			if strings.ContainsAny(a.num+b.num, ".e") {
				t = tFloatT
			}
			return n.coerce(x, a, t), n.coerce(x, b, t)
		}
		if a.isL && b.isL {
			n.errf(x, "two untyped literals")
		}
		return SV{v: Value{n.e.C.NilRef}, t: &STyp{sort: SRef}}, SV{v: Value{n.e.C.NilRef}, t: &STyp{sort: SRef}}
	case a.t == nil:
		return n.coerce(x, a, b.t), b
	case b.t == nil:
		return a, n.coerce(x, b, a.t)
	}
	if a.t.t != nil && b.t.t != nil && isIface(a.t.t) != isIface(b.t.t) {
		if isIface(a.t.t) {
			return a, n.coerce(x, b, a.t)
		}
		return n.coerce(x, a, b.t), b
	}
	if a.t.seq != nil && b.t.seq == nil {
		return a, n.coerce(x, b, a.t)
	}
	if b.t.seq != nil && a.t.seq == nil {
		return n.coerce(x, a, b.t), b
	}
	return a, b
}

func (n *Env) field(x *Expr, v SV, name string) SV {
	e := n.e
	if v.t == nil || v.t.t == nil {
		n.errf(x, "field %s of %s", name, v.t)
	}
	t := v.t.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		path := findField(p.Elem(), name)
		if path == nil {
			n.errf(x, "no field %s in %s", name, p.Elem())
		}
		a, ft := v.v[0], p.Elem()
		return n.follow(a, ft, path)
	}
	path := findField(t, name)
	if path == nil {
		n.errf(x, "no field %s in %s", name, t)
	}
	for k, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return n.follow(v.v[0], p.Elem(), path[k:])
		}
		u := t.Underlying().(*types.Struct)
		o := 0
		for j := 0; j < i; j++ {
			o += len(leaves(u.Field(j).Type()))
		}
		t = u.Field(i).Type()
		v = SV{v: v.v[o : o+len(leaves(t))], t: &STyp{t: t}}
	}
	_ = e
	return v
}

// follow loads a field path from an address.
func (n *Env) follow(a *Term, t types.Type, path []int) SV {
	e := n.e
	for k, i := range path {
		u := t.Underlying().(*types.Struct)
		a = e.C.Fld(fieldRefName(t, i), a)
		t = u.Field(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok && k < len(path)-1 {
			a = e.load(n.st, a, t)[0]
			t = p.Elem()
		}
	}
	v := e.load(n.st, a, t)
	if n.reads != nil {
		e.typeInv(n.reads, a, t, v)
	}
	return SV{v: v, t: &STyp{t: t}}
}

// findField finds a field, going through embedded ones.
func findField(t types.Type, name string) []int {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Anonymous() {
			ft := u.Field(i).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if r := findField(ft, name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

// addr evaluates an expression to an address.
func (n *Env) addr(x *Expr) (a *Term, t types.Type, ok bool) {
	e := n.e
	switch x.Op {
	case "ident":
		if _, isVar := n.vars[x.S]; isVar {
			return nil, nil, false
		}
		if n.pkg != nil {
			if o, ok := n.pkg.Scope().Lookup(x.S).(*types.Var); ok {
				g := e.globOf(n.pkg, x.S)
				return g, o.Type(), true
			}
		}
	case "field":
		if x.A[0].Op == "ident" {
			if pk := n.pkgNamed(x.A[0].S); pk != nil {
				if o, ok := pk.Scope().Lookup(x.S).(*types.Var); ok {
					return e.globOf(pk, x.S), o.Type(), true
				}
				return nil, nil, false
			}
		}
		var base *Term
		var bt types.Type
		if a, t, ok := n.addr(x.A[0]); ok {
			if p, isP := t.Underlying().(*types.Pointer); isP {
				base, bt = e.load(n.st, a, t)[0], p.Elem()
			} else {
				base, bt = a, t
			}
		} else {
			v := n.ev(x.A[0])
			if v.t == nil || v.t.t == nil {
				return nil, nil, false
			}
			p, isP := v.t.t.Underlying().(*types.Pointer)
			if !isP {
				return nil, nil, false
			}
			base, bt = v.v[0], p.Elem()
		}
		path := findField(bt, x.S)
		if path == nil {
			n.errf(x, "no field %s in %s", x.S, bt)
		}
		for _, i := range path {
			if p, isP := bt.Underlying().(*types.Pointer); isP {
				base, bt = e.load(n.st, base, bt)[0], p.Elem()
			}
			u := bt.Underlying().(*types.Struct)
			base = e.C.Fld(fieldRefName(bt, i), base)
			bt = u.Field(i).Type()
		}
		return base, bt, true
	case "unary":
		if x.S == "*" {
			v := n.ev(x.A[0])
			p, isP := v.t.t.Underlying().(*types.Pointer)
			if !isP {
				n.errf(x, "dereference of %s", v.t)
			}
			return v.v[0], p.Elem(), true
		}
	case "index":
		v := n.ev(x.A[0])
		if v.t != nil && v.t.t != nil {
			if s, isS := v.t.t.Underlying().(*types.Slice); isS {
				i := n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
				return e.C.Idx(v.v[0], e.C.Add(v.v[1], i)), s.Elem(), true
			}
		}
	}
	return nil, nil, false
}

func (e *Engine) globOf(p *types.Package, name string) *Term {
	return e.C.mk("glob", shortPkg(p.Path())+"."+name, SRef)
}

func (n *Env) pkgNamed(s string) *types.Package {
	if _, ok := n.vars[s]; ok {
		return nil
	}
	if sp, ok := n.e.P.pkgs[s]; ok {
		return sp.Pkg
	}
	for k, v := range n.e.P.pkgs {
		if strings.HasSuffix(k, "/"+s) {
			return v.Pkg
		}
	}
	for k, v := range n.e.P.deps {
		if k == s || v.Name() == s && strings.HasSuffix(k, s) {
			return v
		}
	}
	return nil
}

func (n *Env) constObj(o types.Object) (SV, bool) {
	k, ok := o.(*types.Const)
	if !ok {
		return SV{}, false
	}
	v := k.Val()
	if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && (v.Kind() == constant.Int || v.Kind() == constant.Float) {
		f, _ := constant.Float64Val(constant.ToFloat(v))
		if v.Kind() == constant.Int {
			return SV{num: v.ExactString()}, true
		}
		return SV{num: strconv.FormatFloat(f, 'g', -1, 64)}, true
	}
	return SV{v: n.e.constant(ssa.NewConst(v, k.Type())), t: &STyp{t: types.Default(k.Type())}}, true
}

// ev evaluates an expression.
func (n *Env) ev(x *Expr) SV {
	e, c := n.e, n.e.C
	switch x.Op {
	case "int", "float":
		return SV{num: x.S}
	case "string":
		return SV{v: Value{c.Str(x.S)}, t: tStr}
	case "bool":
		return SV{v: Value{c.Bool(x.S == "true")}, t: tBool}
	case "nil":
		return SV{nil: true}
	case "seqlit":
		r := SV{isL: true}
		for _, a := range x.A {
			r.lit = append(r.lit, n.ev(a))
		}
		return r
	case "ident":
		if v, ok := n.vars[x.S]; ok {
			return v
		}
		if g, ok := e.S.ghosts[x.S]; ok {
			if g.Key != "" {
				n.errf(x, "ghost %s needs a key", x.S)
			}
			t := e.styp(g.Type, n.pkg)
			return SV{v: Value{e.getMap(n.st, x.S, leaf1(t))}, t: t}
		}
		if n.pkg != nil {
			if o := n.pkg.Scope().Lookup(x.S); o != nil {
				if v, ok := n.constObj(o); ok {
					return v
				}
				if vr, ok := o.(*types.Var); ok {
					return SV{v: e.load(n.st, e.globOf(n.pkg, x.S), vr.Type()), t: &STyp{t: vr.Type()}}
				}
			}
		}
		if f, ok := e.S.fns[x.S]; ok && len(f.Params) == 0 && f.Kind != "fold" {
			return n.call(&Expr{Op: "call", S: x.S, line: x.line})
		}
		n.errf(x, "unknown name %s", x.S)
	case "let":
		m := n.sub()
		m.vars[x.S] = m.ev(x.A[0])
		return m.ev(x.A[1])
	case "old":
		if n.old == nil {
			n.errf(x, "old() outside a postcondition")
		}
		m := n.sub()
		m.st = n.old
		return m.ev(x.A[0])
	case "field":
		if x.A[0].Op == "ident" {
			if pk := n.pkgNamed(x.A[0].S); pk != nil {
				if o := pk.Scope().Lookup(x.S); o != nil {
					if v, ok := n.constObj(o); ok {
						return v
					}
					if vr, ok := o.(*types.Var); ok {
						return SV{v: e.load(n.st, e.globOf(pk, x.S), vr.Type()), t: &STyp{t: vr.Type()}}
					}
				}
				n.errf(x, "unknown name %s.%s", x.A[0].S, x.S)
			}
		}
		if x.A[0].Op == "call" {
			if f, ok := e.S.fns[x.A[0].S]; ok && f.Kind == "fold" {
				return n.foldCall(x.A[0], f, x.S)
			}
		}
		if b := x.A[0]; b.Op == "field" && (b.A[0].Op == "field" || b.A[0].Op == "ident" && n.vars["."+b.A[0].S+"."+b.S].v == nil) {
			// a part of a part: only that is read
			if a, t, ok := n.addr(b); ok && isStruct(t) {
				path := findField(t, x.S)
				if path == nil {
					n.errf(x, "no field %s in %s", x.S, t)
				}
				return n.follow(a, t, path)
			}
		}
		v := n.ev(x.A[0])
		if v.isL || v.t == nil {
			n.errf(x, "field of an untyped value")
		}
		if v.t.t == nil {
			n.errf(x, "field %s of %s", x.S, v.t)
		}
		// component of a run result
		if _, ok := n.vars["."+x.A[0].S+"."+x.S]; ok && x.A[0].Op == "ident" {
			return n.vars["."+x.A[0].S+"."+x.S]
		}
		return n.field(x, v, x.S)
	case "index":
		if x.A[0].Op == "ident" {
			if g, ok := e.S.ghosts[x.A[0].S]; ok && g.Key != "" {
				kt := e.styp(g.Key, n.pkg)
				k := n.coerce(x, n.ev(x.A[1]), kt)
				t := e.styp(g.Type, n.pkg)
				m := e.getMap(n.st, g.Name, MapOf(leaf1(kt), leaf1(t)))
				return SV{v: Value{c.Select(m, k.v[0])}, t: t}
			}
		}
		v := n.ev(x.A[0])
		if v.t.seq != nil {
			i := n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
			return SV{v: c.untupAs(c.SeqAt(v.v[0], i), v.t.seq), t: v.t.seq}
		}
		switch u := v.t.t.Underlying().(type) {
		case *types.Slice:
			i := n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
			return SV{v: e.load(n.st, c.Idx(v.v[0], c.Add(v.v[1], i)), u.Elem()), t: &STyp{t: u.Elem()}}
		case *types.Array:
			i := n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
			r := SV{t: &STyp{t: u.Elem()}}
			for _, l := range v.v {
				r.v = append(r.v, c.At(l, i))
			}
			return r
		case *types.Map:
			k := n.coerce(x, n.ev(x.A[1]), &STyp{t: u.Key()})
			r, _ := e.mapGet(n.st, v.t.t, v.v[0], k.v)
			return SV{v: r, t: &STyp{t: u.Elem()}}
		case *types.Basic:
			i := n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
			return SV{v: Value{c.SAt(v.v[0], i)}, t: &STyp{t: types.Typ[types.Uint8]}}
		}
		n.errf(x, "index of %s", v.t)
	case "slice":
		v := n.ev(x.A[0])
		if leaf1(v.t) == SStr {
			lo, hi := c.Zero, c.SLen(v.v[0])
			if x.A[1] != nil {
				lo = n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
			}
			if x.A[2] != nil {
				hi = n.coerce(x, n.ev(x.A[2]), tIntT).v[0]
			}
			return SV{v: Value{c.SSub(v.v[0], lo, hi)}, t: v.t}
		}
		if v.t.seq != nil && x.A[1] == nil {
			hi := n.coerce(x, n.ev(x.A[2]), tIntT).v[0]
			return SV{v: Value{c.Take(v.v[0], hi)}, t: v.t}
		}
		n.errf(x, "slice of %s", v.t)
	case "unary":
		switch x.S {
		case "!":
			return SV{v: Value{c.Not(n.bool(x.A[0]))}, t: tBool}
		case "-":
			v := n.ev(x.A[0])
			if v.num != "" {
				if strings.HasPrefix(v.num, "-") {
					return SV{num: v.num[1:]}
				}
				return SV{num: "-" + v.num}
			}
			if leaf1(v.t) == SF {
				return SV{v: Value{c.FNeg(v.v[0])}, t: v.t}
			}
			return SV{v: Value{c.Sub(c.Zero, v.v[0])}, t: v.t}
		case "*":
			v := n.ev(x.A[0])
			p, ok := v.t.t.Underlying().(*types.Pointer)
			if !ok {
				n.errf(x, "dereference of %s", v.t)
			}
			return SV{v: e.load(n.st, v.v[0], p.Elem()), t: &STyp{t: p.Elem()}}
		case "&":
			a, t, ok := n.addr(x.A[0])
			if !ok {
				n.errf(x, "no address")
			}
			return SV{v: Value{a}, t: &STyp{t: types.NewPointer(t)}}
		}
	case "bin":
		return n.bin(x)
	case "cond":
		g := n.bool(x.A[0])
		g = n.known(g)
		if g == c.True {
			return n.ev(x.A[1])
		}
		if g == c.False {
			return n.ev(x.A[2])
		}
		return n.merge(x, g, n.ev(x.A[1]), n.ev(x.A[2]))
	case "match":
		return n.match(x)
	case "is":
		v := n.ev(x.A[0])
		t := e.styp(x.S, n.pkg)
		return SV{v: Value{e.implTerm(v.v[0], t.t, v.t.t)}, t: tBool}
	case "assert":
		v := n.ev(x.A[0])
		t := e.styp(x.S, n.pkg)
		if isIface(t.t) {
			return SV{v: v.v, t: t}
		}
		return SV{v: e.unbox(t.t, v.v[0]), t: t}
	case "box":
		if strings.HasPrefix(x.S, "$") {
			var args Value
			for _, a := range x.A {
				v := n.ev(a)
				if v.num != "" {
					v = n.coerce(a, v, tIntT)
				}
				args = append(args, v.v...)
			}
			return SV{v: Value{c.VBox(x.S, args...)}, t: tAny}
		}
		t := e.styp(x.S, n.pkg)
		v0 := n.ev(x.A[0])
		if sl, ok := t.t.Underlying().(*types.Slice); ok && (v0.isL || v0.t != nil && v0.t.seq != nil) {
			// the content of a new slice
			q := n.coerce(x, v0, &STyp{seq: &STyp{t: sl.Elem()}})
			return SV{v: Value{c.BoxSeq(tagName(t.t), q.v[0])}, t: tAny}
		}
		v := n.coerce(x, v0, t)
		return SV{v: Value{e.mkIface(t.t, v.v)}, t: tAny}
	case "some": // a value left open
		t := e.styp(x.S, n.pkg)
		r := SV{t: t}
		for _, srt := range t.leaves() {
			r.v = append(r.v, c.NewSym("some:", srt))
		}
		return r
	case "wrapped": // an error which has another one in its chain
		v := n.ev(x.A[0])
		return SV{v: Value{c.App("wrapped", SVal, v.v[0])}, t: v.t}
	case "zero":
		t := e.styp(x.S, n.pkg)
		var o Value
		for _, s := range t.leaves() {
			o = append(o, c.zeroOf(s))
		}
		return SV{v: o, t: t}
	case "mapof": // a new map with a set of keys and no values
		t := e.styp(x.S, n.pkg)
		d, vals, ks, vs := mapNames(t.t)
		if len(vals) > 0 && len(x.A) > 0 {
			n.errf(x, "mapof %s", t)
		}
		r := c.FreshRef("spec")
		e.specTyp[r] = t.t
		if len(x.A) == 0 {
			dm := e.getMap(n.st, d, MapOf(SRef, MapOf(ks, SBool)))
			n.st.heap[d] = c.Store(dm, r, c.ConstMap(MapOf(ks, SBool), c.False))
			for i, nm := range vals {
				s := MapOf(ks, vs[i])
				n.st.heap[nm] = c.Store(e.getMap(n.st, nm, MapOf(SRef, s)), r, c.ConstMap(s, c.zeroOf(vs[i])))
			}
			return SV{v: Value{r}, t: t}
		}
		dm := e.getMap(n.st, d, MapOf(SRef, MapOf(ks, SBool)))
		n.st.heap[d] = c.Store(dm, r, n.ev(x.A[0]).v[0])
		return SV{v: Value{r}, t: t}
	case "new":
		t := e.styp(x.S, n.pkg)
		r := c.FreshRef("spec")
		e.specTyp[r] = t.t
		vals := make([]SV, len(x.A))
		for i, a := range x.A {
			vals[i] = n.ev(a)
		}
		e.store(n.st, r, t.t, c.zeroValue(t.t))
		for i, k := range x.Keys {
			a, ft := r, t.t
			for _, f := range strings.Split(k, ".") {
				path := findField(ft, f)
				if len(path) != 1 {
					n.errf(x, "no field %s in %s", f, ft)
				}
				u := ft.Underlying().(*types.Struct)
				a = c.Fld(fieldRefName(ft, path[0]), a)
				ft = u.Field(path[0]).Type()
			}
			e.store(n.st, a, ft, n.coerce(x, vals[i], &STyp{t: ft}).v)
		}
		return SV{v: Value{r}, t: &STyp{t: types.NewPointer(t.t)}}
	case "newat":
		t := e.styp(x.S, n.pkg)
		us := skUnits(t.t, "", nil)
		vals := make([]Value, len(us))
		for i, u := range us {
			if sl, ok := u.t.Underlying().(*types.Slice); ok {
				for _, s := range leaves(sl.Elem()) {
					vals[i] = append(vals[i], c.SeqNil(s))
				}
			} else {
				vals[i] = c.zeroValue(u.t)
			}
		}
		for i, k := range x.Keys {
			found := false
			v := n.ev(x.A[i])
			for j, u := range us {
				if u.path == k {
					found = true
					if sl, ok := u.t.Underlying().(*types.Slice); ok {
						vals[j] = n.coerce(x, v, &STyp{seq: &STyp{t: sl.Elem()}}).v
					} else {
						vals[j] = n.coerce(x, v, &STyp{t: u.t}).v
					}
				}
			}
			if !found {
				// a whole struct
				var sub []int
				for j, u := range us {
					if strings.HasPrefix(u.path, k+".") {
						sub = append(sub, j)
					}
				}
				if len(sub) == 0 || v.t == nil {
					n.errf(x, "no field %s in %s", k, t)
				}
				o := 0
				for _, j := range sub {
					l := len(leaves(us[j].t))
					if _, ok := us[j].t.Underlying().(*types.Slice); ok {
						n.errf(x, "slice in a struct value")
					}
					vals[j] = append(Value(nil), v.v[o:o+l]...)
					o += l
				}
				if o != len(v.v) {
					n.errf(x, "field %s of type %s", k, v.t)
				}
			}
		}
		args := Value{e.getMapFull(n.st, "$alloc", SInt)}
		for i := 0; i < x.N; i++ {
			args = append(args, n.coerce(x, n.ev(x.A[len(x.Keys)+i]), tIntT).v[0])
		}
		for _, v := range vals {
			args = append(args, v...)
		}
		r := c.mk("skref", fmt.Sprintf("%d|%s", 1+x.N, typeName(t.t)), SRef, args...)
		if e.skTypes == nil {
			e.skTypes = map[string]types.Type{}
		}
		e.skTypes[typeName(t.t)] = t.t
		return SV{v: Value{r}, t: &STyp{t: types.NewPointer(t.t)}}
	case "struct":
		t := e.styp(x.S, n.pkg)
		v := c.zeroValue(t.t)
		for i, k := range x.Keys {
			o, ft := 0, t.t
			for _, f := range strings.Split(k, ".") {
				path := findField(ft, f)
				if len(path) != 1 {
					n.errf(x, "no field %s in %s", f, ft)
				}
				u := ft.Underlying().(*types.Struct)
				for j := 0; j < path[0]; j++ {
					o += len(leaves(u.Field(j).Type()))
				}
				ft = u.Field(path[0]).Type()
			}
			copy(v[o:], n.coerce(x, n.ev(x.A[i]), &STyp{t: ft}).v)
		}
		return SV{v: v, t: t}
	case "call":
		return n.call(x)
	}
	n.errf(x, "cannot evaluate %s", x.Op)
	return SV{}
}

// skUnit is a part of an object made with new@: a field that is not a struct.
type skUnit struct {
	path string
	t    types.Type
	st   []types.Type // structs on the way
	idx  []int
}

func skUnits(t types.Type, pre string, at []skUnit) []skUnit {
	u := t.Underlying().(*types.Struct)
	var out []skUnit
	var up skUnit
	if len(at) > 0 {
		up = at[0]
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		p := f.Name()
		if pre != "" {
			p = pre + "." + p
		}
		x := skUnit{path: p, t: f.Type(), st: append(append([]types.Type(nil), up.st...), t), idx: append(append([]int(nil), up.idx...), i)}
		if isStruct(f.Type()) {
			out = append(out, skUnits(f.Type(), p, []skUnit{x})...)
			continue
		}
		out = append(out, x)
	}
	return out
}

// addr is the address of the part in an object.
func (u skUnit) addr(c *Ctx, a *Term) *Term {
	for i := range u.st {
		a = c.Fld(fieldRefName(u.st[i], u.idx[i]), a)
	}
	return a
}

// skFields are the parts of an object made with new@ and their values.
func (e *Engine) skFields(t *Term) (us []skUnit, vals []Value) {
	i := strings.IndexByte(t.Name, '|')
	nt, _ := strconv.Atoi(t.Name[:i])
	us = skUnits(e.skTypes[t.Name[i+1:]], "", nil)
	a := t.Args[nt:]
	for _, u := range us {
		l := len(leaves(u.t))
		if sl, ok := u.t.Underlying().(*types.Slice); ok {
			l = len(leaves(sl.Elem()))
		}
		vals = append(vals, Value(a[:l]))
		a = a[l:]
	}
	return
}

func (c *Ctx) untupAs(t *Term, el *STyp) Value {
	if len(el.leaves()) == 1 {
		return Value{t}
	}
	return c.untup(t)
}

// known simplifies a condition with the path knowledge of the state.
func (n *Env) known(g *Term) *Term {
	if n.st == nil || n.st.known == nil {
		return g
	}
	switch n.e.decide(n.st, g) {
	case 1:
		return n.e.C.True
	case -1:
		return n.e.C.False
	}
	if len(n.st.known) > 0 {
		return n.e.simp(n.st, g)
	}
	return g
}

func (n *Env) merge(x *Expr, g *Term, a, b SV) SV {
	if a.isL && b.isL {
		if len(a.lit) == len(b.lit) {
			r := SV{isL: true}
			for i := range a.lit {
				r.lit = append(r.lit, n.merge(x, g, a.lit[i], b.lit[i]))
			}
			return r
		}
		// type from the first element
		if len(a.lit) > 0 {
			a = n.coerce(x, a, &STyp{seq: a.lit[0].t})
		} else {
			b = n.coerce(x, b, &STyp{seq: b.lit[0].t})
		}
	}
	if a.nil && b.nil {
		return a
	}
	a, b = n.unify(x, a, b)
	r := SV{t: a.t}
	for i := range a.v {
		r.v = append(r.v, n.e.C.Ite(g, a.v[i], b.v[i]))
	}
	return r
}

func (n *Env) match(x *Expr) SV {
	c := n.e.C
	v := n.ev(x.A[0])
	if v.t == nil || len(v.v) != 1 {
		n.errf(x, "match on a composite value")
	}
	if leaf1(v.t) == SStr || leaf1(v.t) == SInt {
		// match on strings: "=text" keys
		var r SV
		set := false
		for i := len(x.A) - 1; i >= 1; i-- {
			k := x.Keys[i-1]
			if k == "_" {
				r, set = n.ev(x.A[i]), true
				continue
			}
			g := n.known(c.Eq(v.v[0], c.Str(strings.TrimPrefix(k, "="))))
			if g == c.False {
				continue
			}
			b := n.ev(x.A[i])
			if !set || g == c.True {
				r, set = b, true
				continue
			}
			r = n.merge(x, g, b, r)
		}
		return r
	}
	s := v.v[0]
	var r SV
	set := false
	type alt struct {
		g *Term
		v SV
	}
	var alts []alt
	for i := 1; i < len(x.A); i++ {
		g, m := n.caseOf(x, s, v.t.t, x.Keys[i-1], x.Bind[i-1])
		g = n.known(g)
		if g == c.False {
			continue
		}
		if i == len(x.A)-1 {
			g = c.True
		}
		alts = append(alts, alt{g, m.ev(x.A[i])})
		if g == c.True {
			break
		}
	}
	for i := len(alts) - 1; i >= 0; i-- {
		if !set {
			r, set = alts[i].v, true
			continue
		}
		r = n.merge(x, alts[i].g, alts[i].v, r)
	}
	if !set {
		n.errf(x, "match without a matching case")
	}
	return r
}

// caseOf gives the condition and the environment of a match case.
func (n *Env) caseOf(x *Expr, s *Term, st types.Type, key, bind string) (*Term, *Env) {
	c := n.e.C
	m := n
	switch key {
	case "_":
		if bind != "" {
			m = n.sub()
			m.vars[bind] = SV{v: Value{s}, t: &STyp{t: st}}
		}
		return c.True, m
	case "nil":
		return c.Eq(c.Tag(s), c.Zero), m
	}
	t := n.e.styp(key, n.pkg)
	if isIface(t.t) {
		g := n.e.implTerm(s, t.t, st)
		if bind != "" {
			m = n.sub()
			m.vars[bind] = SV{v: Value{s}, t: t}
		}
		return g, m
	}
	g := n.e.implTerm(s, t.t, st)
	if bind != "" {
		m = n.sub()
		m.vars[bind] = SV{v: n.e.unbox(t.t, s), t: t}
	}
	return g, m
}

func (n *Env) bin(x *Expr) SV {
	c := n.e.C
	switch x.S {
	case "&&":
		a := n.bool(x.A[0])
		if a == c.False {
			return SV{v: Value{a}, t: tBool}
		}
		return SV{v: Value{c.And(a, n.bool(x.A[1]))}, t: tBool}
	case "||":
		a := n.bool(x.A[0])
		if a == c.True {
			return SV{v: Value{a}, t: tBool}
		}
		return SV{v: Value{c.Or(a, n.bool(x.A[1]))}, t: tBool}
	}
	a, b := n.ev(x.A[0]), n.ev(x.A[1])
	if a.num != "" && b.num != "" {
		return n.constBin(x, a.num, b.num)
	}
	if x.S == "++" || x.S == "+" && (a.isL || b.isL || a.t != nil && a.t.seq != nil || b.t != nil && b.t.seq != nil) {
		if a.isL && b.isL {
			return SV{isL: true, lit: append(append([]SV(nil), a.lit...), b.lit...)}
		}
		if a.t != nil && a.t.seq == nil && !b.isL {
			a = n.coerce(x, a, b.t)
		} else if a.t != nil && a.t.seq == nil && b.isL {
			a = n.coerce(x, a, &STyp{seq: &STyp{t: a.t.t.Underlying().(*types.Slice).Elem()}})
		}
		a, b = n.unify(x, a, b)
		return SV{v: Value{c.Cat(a.v[0], b.v[0])}, t: a.t}
	}
	if (x.S == "==" || x.S == "!=") && (a.nil != b.nil) {
		v := a
		if a.nil {
			v = b
		}
		if v.t != nil && v.t.t != nil {
			if _, ok := v.t.t.Underlying().(*types.Slice); ok {
				r := c.Eq(v.v[0], c.NilRef)
				if x.S == "!=" {
					r = c.Not(r)
				}
				return SV{v: Value{r}, t: tBool}
			}
		}
	}
	a, b = n.unify(x, a, b)
	bt := func(t *Term) SV { return SV{v: Value{t}, t: tBool} }
	if x.S == "==" || x.S == "!=" {
		r := c.True
		if len(a.v) != len(b.v) {
			n.errf(x, "comparison of %s and %s", a.t, b.t)
		}
		for i := range a.v {
			if a.v[i].Sort == SF {
				r = c.And(r, c.FEq(a.v[i], b.v[i]))
			} else {
				if a.v[i].Sort != b.v[i].Sort {
					n.errf(x, "comparison of %s and %s", a.t, b.t)
				}
				r = c.And(r, c.Eq(a.v[i], b.v[i]))
			}
		}
		if x.S == "!=" {
			r = c.Not(r)
		}
		return bt(r)
	}
	if len(a.v) != 1 || len(b.v) != 1 {
		n.errf(x, "operator %s on composite values", x.S)
	}
	p, q := a.v[0], b.v[0]
	if p.Sort != q.Sort {
		n.errf(x, "operator %s on %s and %s", x.S, a.t, b.t)
	}
	switch p.Sort {
	case SInt:
		switch x.S {
		case "+":
			return SV{v: Value{c.Add(p, q)}, t: a.t}
		case "-":
			return SV{v: Value{c.Sub(p, q)}, t: a.t}
		case "*":
			return SV{v: Value{c.Mul(p, q)}, t: a.t}
		case "<":
			return bt(c.Lt(p, q))
		case "<=":
			return bt(c.Le(p, q))
		case ">":
			return bt(c.Lt(q, p))
		case ">=":
			return bt(c.Le(q, p))
		}
		n.errf(x, "operator %s on integers", x.S)
	case SF:
		switch x.S {
		case "+":
			return SV{v: Value{c.FOp("fadd", p, q)}, t: a.t}
		case "-":
			return SV{v: Value{c.FOp("fsub", p, q)}, t: a.t}
		case "*":
			return SV{v: Value{c.FOp("fmul", p, q)}, t: a.t}
		case "/":
			return SV{v: Value{c.FOp("fdiv", p, q)}, t: a.t}
		case "<":
			return bt(c.FLt(p, q))
		case "<=":
			return bt(c.FLe(p, q))
		case ">":
			return bt(c.FLt(q, p))
		case ">=":
			return bt(c.FLe(q, p))
		}
	case SStr:
		if x.S == "+" {
			return SV{v: Value{c.SCat(p, q)}, t: a.t}
		}
		if x.S == "<" {
			return bt(c.App("strless", SBool, p, q))
		}
	}
	n.errf(x, "operator %s on %s", x.S, a.t)
	return SV{}
}

func (n *Env) constBin(x *Expr, a, b string) SV {
	isF := strings.ContainsAny(a+b, ".e") || x.S == "/"
	if isF {
		p, _ := strconv.ParseFloat(a, 64)
		q, _ := strconv.ParseFloat(b, 64)
		var r float64
		switch x.S {
		case "+":
			r = p + q
		case "-":
			r = p - q
		case "*":
			r = p * q
		case "/":
			r = p / q
		default:
			n.errf(x, "constant operator %s", x.S)
		}
		s := strconv.FormatFloat(r, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return SV{num: s}
	}
	p, _ := strconv.ParseInt(a, 0, 64)
	q, _ := strconv.ParseInt(b, 0, 64)
	c := n.e.C
	switch x.S {
	case "+":
		return SV{num: strconv.FormatInt(p+q, 10)}
	case "-":
		return SV{num: strconv.FormatInt(p-q, 10)}
	case "*":
		return SV{num: strconv.FormatInt(p*q, 10)}
	case "==":
		return SV{v: Value{c.Bool(p == q)}, t: tBool}
	case "<":
		return SV{v: Value{c.Bool(p < q)}, t: tBool}
	}
	n.errf(x, "constant operator %s", x.S)
	return SV{}
}

// ---------- calls

func (n *Env) call(x *Expr) SV {
	e, c := n.e, n.e.C
	one := func() SV { return n.ev(x.A[0]) }
	fl := func(i int) *Term { return n.coerce(x, n.ev(x.A[i]), tFloatT).v[0] }
	switch x.S {
	case "max", "min":
		return SV{v: Value{c.FOp("f"+x.S, fl(0), fl(1))}, t: tFloatT}
	case "isinf":
		return SV{v: Value{c.FIsInf(fl(0), c.Zero)}, t: tBool}
	case "inf":
		return SV{v: Value{c.Flt(pinf)}, t: tFloatT}
	case "round":
		return SV{v: Value{c.FApp("math.Round", fl(0))}, t: tFloatT}
	case "ceil":
		return SV{v: Value{c.FApp("math.Ceil", fl(0))}, t: tFloatT}
	case "float":
		v := n.coerce(x, one(), tIntT)
		return SV{v: Value{c.I2F(v.v[0])}, t: tFloatT}
	case "toint":
		return SV{v: Value{c.F2I(fl(0))}, t: tIntT}
	case "same": // identity of floats (or anything), not Go ==
		a, b := n.unify(x, n.ev(x.A[0]), n.ev(x.A[1]))
		r := c.True
		for i := range a.v {
			r = c.And(r, c.Eq(a.v[i], b.v[i]))
		}
		return SV{v: Value{r}, t: tBool}
	case "letter":
		return SV{v: Value{c.App("ext:unicode.IsLetter#0", SBool, n.coerce(x, one(), &STyp{t: types.Typ[types.Int32]}).v[0])}, t: tBool}
	case "applied":
		return n.applied(x)
	case "runestr":
		v := n.coerce(x, one(), tIntT)
		return SV{v: Value{c.RuneStr(v.v[0])}, t: tStr}
	case "bytestr": // the string with the bytes of a sequence
		v := one()
		return SV{v: Value{c.BytesStr(v.v[0])}, t: tStr}
	case "runes":
		v := one()
		return SV{v: Value{c.Runes(v.v[0])}, t: &STyp{seq: tIntT}}
	case "runepos":
		return SV{v: Value{c.RunePos(one().v[0], n.coerce(x, n.ev(x.A[1]), tIntT).v[0])}, t: tIntT}
	case "len":
		v := one()
		if v.t != nil && v.t.seq != nil {
			return SV{v: Value{c.SeqLen(v.v[0])}, t: tIntT}
		}
		if v.isL {
			return SV{num: strconv.Itoa(len(v.lit))}
		}
		if leaf1(v.t) == SStr {
			return SV{v: Value{c.SLen(v.v[0])}, t: tIntT}
		}
		if _, ok := v.t.t.Underlying().(*types.Slice); ok {
			return SV{v: Value{v.v[2]}, t: tIntT}
		}
		n.errf(x, "len of %s", v.t)
	case "seq":
		v := one()
		s, ok := v.t.t.Underlying().(*types.Slice)
		if !ok {
			n.errf(x, "seq of %s", v.t)
		}
		return SV{v: e.view(n.st, v.v, s.Elem()), t: &STyp{seq: &STyp{t: s.Elem()}}}
	case "slice":
		v := one()
		if v.isL {
			v = n.coerce(x, v, &STyp{seq: v.lit[0].t})
		}
		if v.t.seq == nil {
			n.errf(x, "slice of %s", v.t)
		}
		return SV{v: e.newSlice(n.st, v.t.seq.t, v.v, nil), t: &STyp{t: types.NewSlice(v.t.seq.t)}}
	case "quote":
		return SV{v: Value{c.App("ext:strconv.Quote#0", SStr, n.coerce(x, one(), tStr).v[0])}, t: tStr}
	case "decimal":
		return SV{v: Value{c.App("ext:strconv.FormatInt#0", SStr, n.coerce(x, one(), tIntT).v[0], c.Int(10))}, t: tStr}
	case "formatted":
		f := n.coerce(x, one(), tStr).v[0]
		return SV{v: Value{e.format(n.st, f, n.ev(x.A[1]).v[0])}, t: tStr}
	case "format":
		f := n.coerce(x, one(), tStr).v[0]
		q := c.SeqNil(SVal)
		for i := range x.A[1:] {
			q = c.Snoc(q, n.coerce(x, n.ev(x.A[1+i]), tAny).v[0])
		}
		return SV{v: Value{e.format(n.st, f, q)}, t: tStr}
	case "cast":
		t := e.styp(x.A[1].S, n.pkg)
		v := one()
		if v.t != nil && v.t.t != nil && isIface(v.t.t) && t.t != nil && !isIface(t.t) {
			return SV{v: e.unbox(t.t, v.v[0]), t: t} // the value held, given its type
		}
		return n.coerce(x, v, t)
	case "take":
		v := one()
		return SV{v: Value{c.Take(v.v[0], n.coerce(x, n.ev(x.A[1]), tIntT).v[0])}, t: v.t}
	case "last":
		v := one()
		return SV{v: c.untupAs(c.SeqAt(v.v[0], c.Sub(c.SeqLen(v.v[0]), c.One)), v.t.seq), t: v.t.seq}
	case "arr":
		return SV{v: Value{one().v[0]}, t: &STyp{sort: SRef}}
	case "off":
		return SV{v: Value{one().v[1]}, t: tIntT}
	case "cap":
		return SV{v: Value{one().v[3]}, t: tIntT}
	case "ref":
		return SV{v: Value{one().v[0]}, t: &STyp{sort: SRef}}
	case "isobj": // a stand-alone object, not a part of one
		return SV{v: Value{c.Eq(c.mk("app", "kindref", SInt, one().v[0]), c.Zero)}, t: tBool}
	case "has":
		v := one()
		mt := v.t.t.Underlying().(*types.Map)
		k := n.coerce(x, n.ev(x.A[1]), &STyp{t: mt.Key()})
		_, h := e.mapGet(n.st, v.t.t, v.v[0], k.v)
		return SV{v: Value{h}, t: tBool}
	case "keys": // the keys of a map, or the elements of a sequence, as a set
		v := one()
		if v.t.seq != nil {
			q := c.KeySet(v.v[0])
			return SV{v: Value{q}, t: &STyp{sort: q.Sort}}
		}
		d := e.mapDom(n.st, v.t.t, v.v[0])
		return SV{v: Value{d}, t: &STyp{sort: d.Sort}}
	case "union":
		v, w := one(), n.ev(x.A[1])
		return SV{v: Value{c.Union(v.v[0], w.v[0])}, t: v.t}
	case "noone": // the empty set of strings
		s := MapOf(SStr, SBool)
		return SV{v: Value{c.ConstMap(s, c.False)}, t: &STyp{sort: s}}
	case "among":
		v := one()
		if v.t.seq == nil {
			k := n.ev(x.A[1])
			return SV{v: Value{c.Select(v.v[0], k.v[0])}, t: tBool}
		}
		k := n.coerce(x, n.ev(x.A[1]), v.t.seq)
		return SV{v: Value{c.Among(v.v[0], c.tup(k.v))}, t: tBool}
	case "sorted":
		v := one()
		if v.t.seq != nil {
			return SV{v: Value{c.Sorted(v.v[0])}, t: v.t}
		}
		return SV{v: Value{c.SortedKeys(v.v[0])}, t: &STyp{seq: &STyp{sort: v.v[0].Sort.key()}}}
	case "strings": // a set listed in increasing order
		return SV{v: Value{c.SortedKeys(one().v[0])}, t: &STyp{seq: tStr}}
	case "iface":
		v := one()
		return n.coerce(x, v, tAny)
	case "tagof":
		v := one()
		return SV{v: Value{c.Tag(v.v[0])}, t: tIntT}
	case "put": // an array with one element changed
		v := one()
		at, ok := v.t.t.Underlying().(*types.Array)
		if !ok || len(v.v) != 1 {
			n.errf(x, "put in %s", v.t)
		}
		i := n.coerce(x, n.ev(x.A[1]), tIntT).v[0]
		w := n.coerce(x, n.ev(x.A[2]), &STyp{t: at.Elem()}).v[0]
		return SV{v: Value{c.Write(v.v[0], i, w)}, t: v.t}
	}
	f, ok := e.S.fns[x.S]
	if !ok {
		if i := strings.IndexByte(x.S, '.'); i >= 0 || n.pkg != nil {
			if t, err := e.P.lookupType(x.S, n.pkg); err == nil {
				return n.coerce(x, one(), &STyp{t: t})
			}
		}
		n.errf(x, "unknown function %s", x.S)
	}
	switch f.Kind {
	case "fold":
		n.errf(x, "fold %s used without a component", x.S)
	case "effect":
		n.errf(x, "effect %s used as a value", x.S)
	}
	args := n.args(x, f.Params, x.A)
	switch f.Kind {
	case "macro":
		return n.inlineMacro(x, f, args)
	case "uf":
		if f.Name == "lower" {
			return SV{v: Value{c.Lower(args[0].v[0])}, t: tStr}
		}
		var a []*Term
		for _, v := range args {
			a = append(a, v.v...)
		}
		t := e.styp(f.Ret, nil)
		r := SV{t: t}
		ls := t.leaves()
		for i, s := range ls {
			nm := "uf:" + f.Name
			if len(ls) > 1 {
				nm += "#" + strconv.Itoa(i)
			}
			r.v = append(r.v, c.App(nm, s, a...))
		}
		return r
	case "rec":
		var a []*Term
		for _, v := range args {
			a = append(a, v.v...)
		}
		a = append(a, e.mapArgs(n.st, f)...)
		t := e.styp(f.Ret, nil)
		r := SV{t: t}
		for i, s := range t.leaves() {
			r.v = append(r.v, c.RecApp(fmt.Sprintf("%s#%d", f.Name, i), s, a))
		}
		return r
	}
	n.errf(x, "call of %s", x.S)
	return SV{}
}

func (n *Env) args(x *Expr, ps []Param, as []*Expr) []SV {
	if len(ps) != len(as) {
		n.errf(x, "%s wants %d arguments, got %d", x.S, len(ps), len(as))
	}
	out := make([]SV, len(as))
	for i, a := range as {
		v := n.ev(a)
		if ps[i].Type != "" {
			v = n.coerce(a, v, n.e.styp(ps[i].Type, n.pkg))
		}
		out[i] = v
	}
	return out
}

func (n *Env) inlineMacro(x *Expr, f *SpecFn, args []SV) SV {
	e := n.e
	e.macroDepth++
	if e.macroDepth > 60 {
		n.errf(x, "macro recursion in %s", f.Name)
	}
	defer func() { e.macroDepth-- }()
	m := &Env{e: e, vars: map[string]SV{}, st: n.st, old: n.old, pkg: nil, file: f.File}
	for i, p := range f.Params {
		m.vars[p.Name] = args[i]
	}
	r := m.ev(f.Body)
	if f.Ret != "" && f.Ret != "auto" {
		r = m.coerce(f.Body, r, e.styp(f.Ret, nil))
	}
	return r
}

// ---------- spec functions over the heap

// mapArgs are the heap maps a spec function depends on.
func (e *Engine) mapArgs(st *State, f *SpecFn) []*Term {
	e.mapsOf(f)
	var out []*Term
	for _, m := range f.maps {
		out = append(out, e.getMapFull(st, m.name, m.sort))
	}
	return out
}

func (e *Engine) getMapFull(st *State, name string, s Sort) *Term {
	if m, ok := st.heap[name]; ok {
		return m
	}
	m := e.C.Sym("H:"+name, s, 0)
	if e.baseMaps != nil {
		if b, ok := e.baseMaps[name]; ok {
			m = b
		}
	}
	st.heap[name] = m
	e.initMaps[name] = m
	return m
}

func newState() *State {
	return &State{heap: map[string]*Term{}, known: map[*Term]bool{}, eqc: map[*Term]*Term{}, clos: map[*Term]*closure{}, iters: map[*Term]*iter{}}
}

func (e *Engine) symOf(prefix string, t *STyp) SV {
	r := SV{t: t}
	for i, s := range t.leaves() {
		r.v = append(r.v, e.C.Sym(fmt.Sprintf("%s#%d", prefix, i), s, 0))
	}
	return r
}

// mapsOf computes the heap maps read or written by a spec function.
func (e *Engine) mapsOf(f *SpecFn) {
	if f.mapsOK || f.mapping {
		return
	}
	if e.sizing {
		return // sizeAll runs them all until nothing changes
	}
	e.sizing = true
	defer func() { e.sizing = false }()
	{
		// everything reachable is sized in the same rounds
		st := newState()
		n := &Env{e: e, vars: map[string]SV{}, st: st, old: st, file: f.File}
		for _, p := range f.Params {
			n.vars[p.Name] = e.symOf("sz:"+f.Name+"."+p.Name, e.styp(p.Type, nil))
		}
		switch f.Kind {
		case "rec":
			n.ev(f.Body)
		case "effect":
			n.exec(f.Stmts)
		case "fold":
			qt := e.styp(f.QT, nil)
			for i, a := range f.Accs {
				n.coerce(f.Inits[i], n.ev(f.Inits[i]), e.styp(a.Type, nil))
			}
			for _, a := range f.Accs {
				n.vars[a.Name] = e.symOf("sz:"+f.Name+"."+a.Name, e.styp(a.Type, nil))
			}
			n.vars[f.X] = e.symOf("sz:"+f.Name+"."+f.X, qt.seq)
			if f.I != "" {
				n.vars[f.I] = e.symOf("sz:"+f.Name+"."+f.I, tIntT)
			}
			for _, nx := range f.Next {
				if nx != nil {
					n.ev(nx)
				}
			}
			n.exec(f.Stmts)
		}
		have := map[string]bool{}
		for _, m := range f.maps {
			have[m.name] = true
		}
		var names []string
		for k := range st.heap {
			if !have[k] {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			f.maps = append(f.maps, mapRef{k, st.heap[k].Sort})
		}
		for k, v := range st.heap {
			if v != e.initMaps[k] && !f.mod(k) {
				f.State = append(f.State, k)
			}
		}
	}
	sort.Slice(f.maps, func(i, j int) bool { return f.maps[i].name < f.maps[j].name })
	sort.Strings(f.State)
}

func (f *SpecFn) mod(m string) bool {
	for _, s := range f.State {
		if s == m {
			return true
		}
	}
	return false
}

// sizeAll sizes all spec functions; mutual recursion needs joint rounds.
func (e *Engine) sizeAll() {
	var names []string
	for n := range e.S.fns {
		names = append(names, n)
	}
	sort.Strings(names)
	for round := 0; ; round++ {
		if round > 100 {
			fail("spec functions depend on ever more")
		}
		total, after := 0, 0
		for _, n := range names {
			f := e.S.fns[n]
			if f.Kind == "rec" || f.Kind == "effect" || f.Kind == "fold" {
				total += len(f.maps) + len(f.State)
				e.mapsOf(f)
				after += len(f.maps) + len(f.State)
			}
		}
		if total == after {
			break
		}
	}
	for _, n := range names {
		if os.Getenv("GOVC_SIZES") != "" {
			debugf("effect %s reads %v changes %v", n, e.S.fns[n].maps, e.S.fns[n].State)
		}
		e.S.fns[n].mapsOK = true
	}
}

// callParams are the flattened parameter values of a spec application.
func (e *Engine) bindParams(n *Env, f *SpecFn, a []*Term) (rest []*Term) {
	for _, p := range f.Params {
		t := e.styp(p.Type, nil)
		k := len(t.leaves())
		n.vars[p.Name] = SV{v: Value(a[:k]), t: t}
		a = a[k:]
	}
	return a
}

func constructor(t *Term) bool {
	switch t.Op {
	case "vptr", "vbox", "vnil", "snoc", "seqnil", "str":
		return true
	}
	return false
}

// recApp applies a rec function (name#i) or an effect (name@map).
func (e *Engine) recApp(name string, s Sort, a []*Term) *Term {
	c := e.C
	i := strings.LastIndexAny(name, "#@")
	if k := strings.Index(name, "@"); k >= 0 {
		i = k
	}
	f := e.S.fns[name[:i]]
	if f == nil {
		return c.mk("rec", name, s, a...)
	}
	np := 0
	on := -1
	for _, p := range f.Params {
		if p.Name == f.On {
			on = np
		}
		np += len(e.styp(p.Type, nil).leaves())
	}
	if e.sizing {
		if name[i] == '@' {
			return c.mk("rec", name, s, a...)
		}
		return c.mk("rec", name, s, a...)
	}
	if on >= 0 && a[on].Op == "ite" {
		x := append([]*Term(nil), a...)
		y := append([]*Term(nil), a...)
		x[on], y[on] = a[on].Args[1], a[on].Args[2]
		return c.Ite(a[on].Args[0], c.RecApp(name, s, x), c.RecApp(name, s, y))
	}
	if on >= 0 && constructor(a[on]) && e.unfolding < 24 && !(a[on].Op == "vnil" && skipsNil(f)) {
		r := e.unfoldRec(f, a)
		return r[name]
	}
	core, dropped := e.normArgs(a[:np], f.maps, a[np:])
	if name[i] == '@' {
		// the effect on a map: unreachable fresh objects are untouched
		mn := name[i+1:]
		t := c.mk("rec", name, s, append(append([]*Term(nil), a[:np]...), core...)...)
		for j, m := range f.maps {
			if m.name == mn {
				return reapply(c, t, dropped[j])
			}
		}
		return t
	}
	return c.mk("rec", name, s, append(append([]*Term(nil), a[:np]...), core...)...)
}

// skipsNil: a function says nothing about nil.
func skipsNil(f *SpecFn) bool {
	if f.Kind != "rec" || f.Body == nil || f.Body.Op != "match" {
		return false
	}
	for _, k := range f.Body.Keys {
		if k == "nil" || k == "_" {
			return false
		}
	}
	return true
}

func argKey(name string, a []*Term) string {
	var b strings.Builder
	b.WriteString(name)
	for _, x := range a {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
	}
	return b.String()
}

// unfoldRec evaluates the body of a rec function or effect.
func (e *Engine) unfoldRec(f *SpecFn, a []*Term) map[string]*Term {
	k := argKey(f.Name, a)
	if r, ok := e.unfMemo[k]; ok {
		return r
	}
	e.unfolding++
	defer func() { e.unfolding-- }()
	st := newState()
	n := &Env{e: e, vars: map[string]SV{}, st: st, old: st, file: f.File}
	rest := e.bindParams(n, f, a)
	for i, m := range f.maps {
		st.heap[m.name] = rest[i]
	}
	r := map[string]*Term{}
	if f.Kind == "rec" {
		t := e.styp(f.Ret, nil)
		v := n.coerce(f.Body, n.ev(f.Body), t)
		for i, x := range v.v {
			r[fmt.Sprintf("%s#%d", f.Name, i)] = x
		}
	} else {
		n.exec(f.Stmts)
		for _, m := range f.State {
			r[f.Name+"@"+m] = st.heap[m]
		}
		for i, x := range n.flatRet(f) {
			r[fmt.Sprintf("%s#%d", f.Name, i)] = x
		}
	}
	e.unfMemo[k] = r
	return r
}

// flatRet are the results of an effect.
func (n *Env) flatRet(f *SpecFn) Value {
	var out Value
	if len(n.ret) != len(f.Rets) {
		fail("spec %s:%d: %s returns %d values, want %d", f.File, f.line, f.Name, len(n.ret), len(f.Rets))
	}
	for i, x := range n.ret {
		out = append(out, n.coerce(nil, x, n.e.styp(f.Rets[i], nil)).v...)
	}
	return out
}

func (n *Env) bindRun(s *Stmt, f *SpecFn, v Value) {
	if len(s.Bind) == 0 {
		return
	}
	if len(s.Bind) != len(f.Rets) {
		n.errf(s.R[0], "%s returns %d values", f.Name, len(f.Rets))
	}
	for i, b := range s.Bind {
		t := n.e.styp(f.Rets[i], nil)
		l := len(t.leaves())
		n.vars[b] = SV{v: v[:l], t: t}
		v = v[l:]
	}
}

// foldCall evaluates F(q, params).comp
func (n *Env) foldCall(x *Expr, f *SpecFn, comp string) SV {
	e, c := n.e, n.e.C
	args, _ := n.foldArgs(x, f)
	for _, a := range f.Accs {
		if a.Name == comp {
			t := e.styp(a.Type, nil)
			r := SV{t: t}
			for i, s := range t.leaves() {
				r.v = append(r.v, c.FoldApp(fmt.Sprintf("%s.%s#%d", f.Name, a.Name, i), s, args))
			}
			return r
		}
	}
	n.errf(x, "fold %s has no component %s", f.Name, comp)
	return SV{}
}

func (n *Env) foldArgs(x *Expr, f *SpecFn) ([]*Term, []SV) {
	e := n.e
	if len(x.A) != 1+len(f.Params) {
		n.errf(x, "fold %s wants a sequence and %d parameters", f.Name, len(f.Params))
	}
	q := n.coerce(x, n.ev(x.A[0]), e.styp(f.QT, n.pkg))
	ps := n.args(x, f.Params, x.A[1:])
	a := []*Term{q.v[0]}
	for _, p := range ps {
		a = append(a, p.v...)
	}
	return append(a, e.mapArgs(n.st, f)...), ps
}

// foldApp applies one component of a fold, unfolding along the sequence.
func (e *Engine) foldApp(name string, s Sort, a []*Term) *Term {
	c := e.C
	i := strings.IndexAny(name, ".@")
	f := e.S.fns[name[:i]]
	if f == nil || e.sizing {
		return c.mk("fold", name, s, a...)
	}
	q := a[0]
	switch q.Op {
	case "seqnil", "snoc":
		return e.foldAll(f, a)[name]
	case "ite":
		x := append([]*Term(nil), a...)
		y := append([]*Term(nil), a...)
		x[0], y[0] = q.Args[1], q.Args[2]
		return c.Ite(q.Args[0], c.FoldApp(name, s, x), c.FoldApp(name, s, y))
	}
	np := len(a) - len(f.maps)
	core, dropped := e.normArgs(a[:np], f.maps, a[np:])
	t := c.mk("fold", name, s, append(append([]*Term(nil), a[:np]...), core...)...)
	if name[i] == '@' {
		for j, m := range f.maps {
			if m.name == name[i+1:] {
				return reapply(c, t, dropped[j])
			}
		}
	}
	return t
}

// foldAll computes all components of a fold on a constructed sequence.
func (e *Engine) foldAll(f *SpecFn, a []*Term) map[string]*Term {
	c := e.C
	k := argKey(f.Name, a)
	if r, ok := e.unfMemo[k]; ok {
		return r
	}
	st := newState()
	n := &Env{e: e, vars: map[string]SV{}, st: st, old: st, file: f.File}
	rest := e.bindParams(n, f, a[1:])
	for i, m := range f.maps {
		st.heap[m.name] = rest[i]
	}
	r := map[string]*Term{}
	put := func() {
		for _, ac := range f.Accs {
			for i, x := range n.vars[ac.Name].v {
				r[fmt.Sprintf("%s.%s#%d", f.Name, ac.Name, i)] = x
			}
		}
		for _, m := range f.State {
			r[f.Name+"@"+m] = st.heap[m]
		}
	}
	q := a[0]
	if q.Op == "seqnil" {
		vals := make([]SV, len(f.Accs))
		for i, ac := range f.Accs {
			vals[i] = n.coerce(f.Inits[i], n.ev(f.Inits[i]), e.styp(ac.Type, nil))
		}
		for i, ac := range f.Accs {
			n.vars[ac.Name] = vals[i]
		}
		put()
		e.unfMemo[k] = r
		return r
	}
	b := append([]*Term(nil), a...)
	b[0] = q.Args[0]
	for _, ac := range f.Accs {
		t := e.styp(ac.Type, nil)
		v := SV{t: t}
		for i, s := range t.leaves() {
			v.v = append(v.v, c.FoldApp(fmt.Sprintf("%s.%s#%d", f.Name, ac.Name, i), s, b))
		}
		n.vars[ac.Name] = v
	}
	for _, m := range f.State {
		st.heap[m] = c.FoldApp(f.Name+"@"+m, st.heap[m].Sort, b)
	}
	qt := e.styp(f.QT, nil)
	n.vars[f.X] = SV{v: c.untupAs(q.Args[1], qt.seq), t: qt.seq}
	if f.I != "" {
		n.vars[f.I] = SV{v: Value{c.SeqLen(q.Args[0])}, t: tIntT}
	}
	next := map[string]SV{}
	for i, ac := range f.Accs {
		if f.Next[i] != nil {
			next[ac.Name] = n.coerce(f.Next[i], n.ev(f.Next[i]), e.styp(ac.Type, nil))
		}
	}
	for nm, v := range next {
		n.vars[nm] = v
	}
	n.exec(f.Stmts)
	for _, ac := range f.Accs {
		n.vars[ac.Name] = n.coerce(nil, n.vars[ac.Name], e.styp(ac.Type, nil))
	}
	put()
	e.unfMemo[k] = r
	return r
}

type kv struct{ k, v *Term }

func reapply(c *Ctx, m *Term, d []kv) *Term {
	for _, x := range d {
		m = c.Store(m, x.k, x.v)
	}
	return m
}

// fresh objects a term mentions, and the latest time an unknown in it can
// refer to
type freshInfo struct {
	refs  map[*Term]bool
	limit int
}

func (e *Engine) freshOf(t *Term) *freshInfo {
	if r, ok := e.freshMemo[t]; ok {
		return r
	}
	r := &freshInfo{refs: map[*Term]bool{}}
	if t.Stamp == 0 {
		e.freshMemo[t] = r
		return r
	}
	if t.Op == "sym" {
		if t.Fresh {
			r.refs[t] = true
		} else if t.Sort == SRef || t.Sort == SVal || t.Sort.isMap() || t.Sort.isSeq() || t.Sort.isCon() {
			r.limit = t.Stamp
		}
	}
	for _, a := range t.Args {
		x := e.freshOf(a)
		for k := range x.refs {
			r.refs[k] = true
		}
		if x.limit > r.limit {
			r.limit = x.limit
		}
	}
	e.freshMemo[t] = r
	return r
}

// normArgs drops from the map arguments of a spec application the stores to
// fresh objects that cannot be reached from its other arguments.
func (e *Engine) normArgs(roots []*Term, ms []mapRef, maps []*Term) ([]*Term, [][]kv) {
	c := e.C
	any := false
	for _, m := range maps {
		for x := m; x.Op == "store"; x = x.Args[0] {
			if refRoot(x.Args[1]).Fresh {
				any = true
			}
		}
	}
	dropped := make([][]kv, len(maps))
	if !any {
		return maps, dropped
	}
	reach := map[*Term]bool{}
	limit := 0
	add := func(t *Term) bool {
		f := e.freshOf(t)
		ch := false
		for k := range f.refs {
			if !reach[k] {
				reach[k] = true
				ch = true
			}
		}
		if f.limit > limit {
			limit = f.limit
			ch = true
		}
		return ch
	}
	for _, r := range roots {
		add(r)
	}
	for _, m := range maps {
		x := m
		for x.Op == "store" {
			x = x.Args[0]
		}
		add(x)
	}
	keep := func(k *Term) bool {
		r := refRoot(k)
		return !r.Fresh || reach[r] || r.Stamp <= limit
	}
	for ch := true; ch; {
		ch = false
		for _, m := range maps {
			for x := m; x.Op == "store"; x = x.Args[0] {
				if x.Args[1].Sort == SRef && !keep(x.Args[1]) {
					continue
				}
				if add(x.Args[1]) {
					ch = true
				}
				if add(x.Args[2]) {
					ch = true
				}
			}
		}
	}
	out := make([]*Term, len(maps))
	for i, m := range maps {
		var chain []kv
		x := m
		for x.Op == "store" {
			chain = append(chain, kv{x.Args[1], x.Args[2]})
			x = x.Args[0]
		}
		for j := len(chain) - 1; j >= 0; j-- {
			if chain[j].k.Sort == SRef && !keep(chain[j].k) {
				dropped[i] = append(dropped[i], chain[j])
				continue
			}
			x = c.Store(x, chain[j].k, chain[j].v)
		}
		out[i] = x
	}
	return out, dropped
}

// ---------- statements

func (n *Env) exec(ss []*Stmt) {
	for _, s := range ss {
		if n.has {
			return
		}
		n.stmt(s)
	}
}

// applied is what a function value the code made returns for arguments.
func (n *Env) applied(x *Expr) SV {
	e, c := n.e, n.e.C
	f := n.ev(x.A[0])
	r := e.simp(n.st, f.v[0])
	sg, ok := f.t.t.Underlying().(*types.Signature)
	if !ok || sg.Results().Len() != 1 || len(x.A)-1 != sg.Params().Len() {
		n.errf(x, "cannot apply %s", f.t)
	}
	var args []Value
	for i := range x.A[1:] {
		args = append(args, n.coerce(x, n.ev(x.A[1+i]), &STyp{t: sg.Params().At(i).Type()}).v)
	}
	fn, bind := e.P.funcs[r.Name], []Value(nil)
	if cl := n.st.clos[r]; cl != nil {
		fn, bind = cl.fn, cl.bind
	} else if r.Op != "func" || fn == nil {
		n.errf(x, "unknown function %s", r)
	}
	st := n.st.clone()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], deferOf: -1, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	st.frames = []*Frame{fr}
	base := len(st.facts)
	var v Value
	for _, o := range e.run(st, 1, nil) {
		if o.kind != outRet {
			n.errf(x, "the function may panic")
		}
		if v == nil {
			v = append(Value(nil), o.ret...)
			continue
		}
		g := c.And(o.st.facts[base:]...)
		for i := range v {
			v[i] = c.Ite(g, o.ret[i], v[i])
		}
	}
	return SV{v: v, t: &STyp{t: sg.Results().At(0).Type()}}
}

func (n *Env) stmt(s *Stmt) {
	e, c := n.e, n.e.C
	switch s.Op {
	case "let":
		if len(s.Bind) == 1 {
			n.vars[s.Bind[0]] = n.ev(s.R[0])
			return
		}
		n.errf(s.R[0], "let with several names")
	case "forget":
		if n.old == nil {
			break
		}
		from := n.from
		if from == nil {
			from = n.old.heap
		}
		for m, t := range n.st.heap {
			if from[m] != t && !(s.S != "" && (m == "$alloc" || strings.Contains(m, ":"+s.S+"."))) {
				n.st.heap[m] = c.NewSym("some:"+m, t.Sort)
			}
		}
	case "set":
		n.vars[s.S] = n.ev(s.R[0])
	case "assign":
		vals := make([]func(), len(s.L))
		for i := range s.L {
			vals[i] = n.assign(s.L[i], n.assigned(s.L[i], s.R[i]))
		}
		for _, f := range vals {
			f()
		}
	case "return":
		for _, x := range s.R {
			n.ret = append(n.ret, n.ev(x))
		}
		n.has = true
	case "if":
		g := n.known(n.bool(s.R[0]))
		n.branch(s, g, func(m *Env) { m.exec(s.B[0]) }, func(m *Env) { m.exec(s.B[1]) })
	case "match":
		v := n.ev(s.R[0])
		n.matchStmt(s, v, 0)
	case "run":
		x := s.R[0]
		f, ok := e.S.fns[x.S]
		if !ok {
			n.errf(x, "unknown effect %s", x.S)
		}
		switch f.Kind {
		case "fold":
			args, _ := n.foldArgs(x, f)
			for _, a := range f.Accs {
				t := e.styp(a.Type, nil)
				r := SV{t: t}
				for i, srt := range t.leaves() {
					r.v = append(r.v, c.FoldApp(fmt.Sprintf("%s.%s#%d", f.Name, a.Name, i), srt, args))
				}
				if s.S != "" {
					n.vars["."+s.S+"."+a.Name] = r
				}
			}
			if s.S != "" {
				n.vars[s.S] = SV{v: Value{c.Zero}, t: tIntT}
			}
			np := len(args) - len(f.maps)
			for _, m := range f.State {
				for j, mr := range f.maps {
					if mr.name == m {
						n.st.heap[m] = c.FoldApp(f.Name+"@"+m, args[np+j].Sort, args)
					}
				}
			}
		case "effect":
			args := n.args(x, f.Params, x.A)
			if !f.Tail && (e.specTop > 0 || f.On == "" && !f.Sealed) {
				// the effect that is the contract itself: its definition;
				// effects that are not recursive are always expanded
				if (f.On != "" || f.Sealed) && e.specTop > 0 {
					e.specTop--
				}
				m := &Env{e: e, vars: map[string]SV{}, st: n.st, old: n.old, file: f.File, from: maps.Clone(n.st.heap)}
				for i, p := range f.Params {
					m.vars[p.Name] = args[i]
				}
				m.exec(f.Stmts)
				n.bindRun(s, f, m.flatRet(f))
				return
			}
			var a []*Term
			for _, v := range args {
				a = append(a, v.v...)
			}
			a = append(a, e.mapArgs(n.st, f)...)
			np := len(a) - len(f.maps)
			nw := map[string]*Term{}
			for _, m := range f.State {
				for j, mr := range f.maps {
					if mr.name == m {
						nw[m] = c.RecApp(f.Name+"@"+m, a[np+j].Sort, a)
					}
				}
			}
			var rv Value
			for _, ty := range f.Rets {
				for _, srt := range e.styp(ty, nil).leaves() {
					rv = append(rv, c.RecApp(fmt.Sprintf("%s#%d", f.Name, len(rv)), srt, a))
				}
			}
			for m, t := range nw {
				n.st.heap[m] = t
			}
			n.bindRun(s, f, rv)
		default:
			n.errf(x, "%s is not an effect", x.S)
		}
	}
}

func (n *Env) matchStmt(s *Stmt, v SV, i int) {
	if i >= len(s.B) {
		return
	}
	g, m := n.caseOf(s.R[0], v.v[0], v.t.t, s.Keys[i], s.Bind[i])
	g = n.known(g)
	_ = m
	n.branch(s, g, func(k *Env) {
		_, kk := k.caseOf(s.R[0], v.v[0], v.t.t, s.Keys[i], s.Bind[i])
		kk.exec(s.B[i])
		for nm, x := range kk.vars {
			if _, ok := k.vars[nm]; ok {
				k.vars[nm] = x
			}
		}
		k.ret, k.has = kk.ret, kk.has
	}, func(k *Env) { k.matchStmt(s, v, i+1) })
}

// branch runs two alternatives and joins their effects.
func (n *Env) branch(s *Stmt, g *Term, a, b func(*Env)) {
	c := n.e.C
	switch g {
	case c.True:
		a(n)
		return
	case c.False:
		b(n)
		return
	}
	s1, s2 := n.st.clone(), n.st.clone()
	n.e.learn(s1, g)
	n.e.learn(s2, c.Not(g))
	x, y := n.sub(), n.sub()
	x.st, y.st = s1, s2
	if n.old == n.st {
		x.old, y.old = s1, s2
	}
	a(x)
	b(y)
	for k := range s2.heap {
		if _, ok := s1.heap[k]; !ok {
			s1.heap[k] = n.e.initMaps[k]
		}
	}
	for k := range s1.heap {
		if _, ok := s2.heap[k]; !ok {
			s2.heap[k] = n.e.initMaps[k]
		}
		n.st.heap[k] = c.Ite(g, s1.heap[k], s2.heap[k])
	}
	for k, v := range n.vars {
		p, q := x.vars[k], y.vars[k]
		if len(p.v) == len(v.v) && len(q.v) == len(v.v) && p.t == v.t && q.t == v.t && p.num == "" && v.num == "" {
			same := true
			for i := range p.v {
				same = same && p.v[i] == v.v[i] && q.v[i] == v.v[i]
			}
			if same {
				continue
			}
		}
		if p.isL || q.isL || p.nil || q.nil || p.num != "" || q.num != "" {
			if v.t != nil {
				p, q = n.coerce(nil, p, v.t), n.coerce(nil, q, v.t)
			} else {
				continue
			}
		}
		n.vars[k] = n.merge(nil, g, p, q)
	}
	if x.has != y.has {
		fail("spec %s:%d: only one branch returns", n.file, s.line)
	}
	if x.has {
		n.has = true
		for i := range x.ret {
			n.ret = append(n.ret, n.merge(nil, g, x.ret[i], y.ret[i]))
		}
	}
}

// assign prepares the assignment of a value to a place.
// assigned evaluates what is assigned; a new slice kept by an owned field is
// no array of its own.
func (n *Env) assigned(l, r *Expr) SV {
	if r.Op == "call" && r.S == "slice" && len(r.A) == 1 && l.Op != "ident" && l.Op != "index" && l.Op != "call" {
		if a, t, ok := n.addr(l); ok {
			if el := n.e.ownedField(a, t); el != nil {
				q := n.coerce(r, n.ev(r.A[0]), &STyp{seq: &STyp{t: el}})
				return SV{v: ownedHdr(n.e.C, q.v), t: &STyp{t: types.NewSlice(el)}}
			}
		}
	}
	return n.ev(r)
}

func (n *Env) assign(l *Expr, v SV) func() {
	e, c := n.e, n.e.C
	if l.Op == "ident" {
		if g, ok := e.S.ghosts[l.S]; ok {
			t := e.styp(g.Type, n.pkg)
			x := n.coerce(l, v, t)
			e.getMap(n.st, g.Name, leaf1(t))
			return func() { n.st.heap[g.Name] = x.v[0] }
		}
	}
	if l.Op == "index" && l.A[0].Op == "ident" {
		if g, ok := e.S.ghosts[l.A[0].S]; ok && g.Key != "" {
			kt := e.styp(g.Key, n.pkg)
			k := n.coerce(l, n.ev(l.A[1]), kt)
			t := e.styp(g.Type, n.pkg)
			x := n.coerce(l, v, t)
			return func() {
				m := e.getMap(n.st, g.Name, MapOf(leaf1(kt), leaf1(t)))
				n.st.heap[g.Name] = c.Store(m, k.v[0], x.v[0])
			}
		}
	}
	if l.Op == "index" {
		b := n.ev(l.A[0])
		if b.t != nil && b.t.t != nil {
			if mt, ok := b.t.t.Underlying().(*types.Map); ok {
				k := n.coerce(l, n.ev(l.A[1]), &STyp{t: mt.Key()})
				x := n.coerce(l, v, &STyp{t: mt.Elem()})
				return func() { e.mapSet(n.st, b.t.t, b.v[0], k.v, x.v) }
			}
		}
	}
	if l.Op == "call" && l.S == "elems" {
		b := n.ev(l.A[0])
		el := b.t.t.Underlying().(*types.Slice).Elem()
		q := n.coerce(l, v, &STyp{seq: &STyp{t: el}})
		name := fmt.Sprintf("E:%s#0", elemName(el))
		return func() {
			m := e.getMap(n.st, name, leaves(el)[0])
			n.st.heap[name] = c.Store(m, b.v[0], c.CopyIn(c.Select(m, b.v[0]), b.v[1], q.v[0]))
		}
	}
	a, t, ok := n.addr(l)
	if !ok {
		n.errf(l, "cannot assign")
	}
	x := n.coerce(l, v, &STyp{t: t})
	return func() { e.store(n.st, a, t, x.v) }
}

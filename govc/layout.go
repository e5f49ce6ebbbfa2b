package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"strings"
	"sync"
)

// Value is a Go value flattened to its leaf terms.
type Value []*Term

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func fail(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

var leafCache sync.Map

// leaves is the flat layout of a Go type.
func leaves(t types.Type) []Sort {
	if l, ok := leafCache.Load(t); ok {
		return l.([]Sort)
	}
	l := leaves0(t)
	leafCache.Store(t, l)
	return l
}

func leaves0(t types.Type) []Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Sort{SBool}
		case u.Info()&types.IsInteger != 0:
			return []Sort{SInt}
		case u.Info()&types.IsFloat != 0:
			return []Sort{SF}
		case u.Info()&types.IsString != 0:
			return []Sort{SStr}
		case u.Kind() == types.UntypedNil:
			return []Sort{SRef}
		case u.Kind() == types.UnsafePointer:
			return []Sort{SRef}
		}
		fail("layout: basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Sort{SRef}
	case *types.Interface:
		return []Sort{SVal}
	case *types.Slice:
		return []Sort{SRef, SInt, SInt, SInt}
	case *types.Struct:
		var l []Sort
		for i := 0; i < u.NumFields(); i++ {
			l = append(l, leaves(u.Field(i).Type())...)
		}
		return l
	case *types.Array:
		var l []Sort
		for _, s := range leaves(u.Elem()) {
			l = append(l, ConOf(s))
		}
		return l
	case *types.Tuple:
		var l []Sort
		for i := 0; i < u.Len(); i++ {
			l = append(l, leaves(u.At(i).Type())...)
		}
		return l
	}
	fail("layout: type %s", t)
	return nil
}

func (c *Ctx) zeroOf(s Sort) *Term {
	switch s {
	case SBool:
		return c.False
	case SInt:
		return c.Zero
	case SF:
		return c.Flt(0)
	case SStr:
		return c.Str("")
	case SRef:
		return c.NilRef
	case SVal:
		return c.VNil
	}
	if s.isCon() {
		return c.Zeros(s.elem(), c.zeroOf(s.elem()))
	}
	if s.isSeq() {
		return c.SeqNil(s.elem())
	}
	if h, as := splitSort(s); h == "Tup" {
		var ts []*Term
		for _, a := range as {
			ts = append(ts, c.zeroOf(a))
		}
		return c.Tuple(s, ts...)
	}
	fail("zero of sort %s", s)
	return nil
}

func (c *Ctx) zeroValue(t types.Type) Value {
	var v Value
	for _, s := range leaves(t) {
		v = append(v, c.zeroOf(s))
	}
	return v
}

// structName names a struct type for field maps.
func structName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return typeName(n)
	}
	if a, ok := t.(*types.Alias); ok {
		return structName(types.Unalias(a))
	}
	s := typeName(t)
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("struct$%x", h[:4])
}

func fieldRefName(st types.Type, i int) string {
	u := st.Underlying().(*types.Struct)
	return structName(st) + "." + u.Field(i).Name()
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

// elemSortName names element maps.
func elemName(t types.Type) string { return typeName(types.Unalias(t)) }

// tupSort makes the sort of a flattened key.
func tupSort(ss []Sort) Sort {
	if len(ss) == 1 {
		return ss[0]
	}
	var p []string
	for _, s := range ss {
		p = append(p, string(s))
	}
	return Sort("Tup<" + strings.Join(p, ",") + ">")
}

func (c *Ctx) tup(v Value) *Term {
	if len(v) == 1 {
		return v[0]
	}
	var ss []Sort
	for _, t := range v {
		ss = append(ss, t.Sort)
	}
	return c.Tuple(tupSort(ss), v...)
}

func (c *Ctx) untup(t *Term) Value {
	h, as := splitSort(t.Sort)
	if h != "Tup" {
		return Value{t}
	}
	var v Value
	for i := range as {
		v = append(v, c.Proj(t, i))
	}
	return v
}

// Proj is component i of a tuple.
func (c *Ctx) Proj(t *Term, i int) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	_, as := splitSort(t.Sort)
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.Proj(t.Args[1], i), c.Proj(t.Args[2], i))
	}
	return c.mk("app", fmt.Sprintf("tupproj%d", i), as[i], t)
}

// loc is a place in the heap: one map entry per leaf.
type loc struct {
	maps []string
	key  *Term
	idx  *Term // for slice elements: the position in the contents
	sort []Sort
}

func mapSortOf(name string, leaf Sort) Sort {
	if strings.HasPrefix(name, "E:") {
		return MapOf(SRef, ConOf(leaf))
	}
	return MapOf(SRef, leaf)
}

// scalarLoc is the location of a non-struct value of type t at address a.
func scalarLoc(a *Term, t types.Type) loc {
	ss := leaves(t)
	l := loc{sort: ss}
	base := ""
	switch a.Op {
	case "fld":
		base, l.key = "F:"+a.Name, a.Args[0]
	case "idx":
		base, l.key, l.idx = "E:"+elemName(t), a.Args[0], a.Args[1]
	case "glob":
		base, l.key = "G:"+a.Name, a
	default:
		base, l.key = "C:"+elemName(t), a
	}
	for i := range ss {
		l.maps = append(l.maps, fmt.Sprintf("%s#%d", base, i))
	}
	return l
}

package main

import (
	"go/types"
	"sort"
)

// Sets: the domains of Go maps as values. keyset(q) has the elements of a
// sequence, union(a, b) those of either; "smem" is membership in a sequence.

func (c *Ctx) KeySet(q *Term) *Term {
	s := MapOf(q.Sort.elem(), SBool)
	switch q.Op {
	case "seqnil":
		return c.ConstMap(s, c.False)
	case "app":
		if isEnum(q) {
			return q.Args[0]
		}
	}
	return c.mk("keyset", "", s, q)
}

func isEnum(q *Term) bool {
	return q.Op == "app" && len(q.Name) > 5 && (q.Name[:5] == "enum!" || q.Name == "sortedkeys")
}

func (c *Ctx) Union(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Op == "constmap" && a.Args[0] == c.False {
		return b
	}
	if b.Op == "constmap" && b.Args[0] == c.False {
		return a
	}
	return c.mk("union", "", a.Sort, a, b)
}

func constSeq(q *Term) bool {
	for q.Op == "snoc" && q.Args[1].isConst() {
		q = q.Args[0]
	}
	return q.Op == "seqnil"
}

// Among says whether x is an element of q.
func (c *Ctx) Among(q, x *Term) *Term {
	switch q.Op {
	case "seqnil":
		return c.False
	case "snoc":
		if x.isConst() || !constSeq(q) {
			return c.Or(c.Among(q.Args[0], x), c.Eq(q.Args[1], x))
		}
	case "cat":
		return c.Or(c.Among(q.Args[0], x), c.Among(q.Args[1], x))
	case "ite":
		return c.Ite(q.Args[0], c.Among(q.Args[1], x), c.Among(q.Args[2], x))
	case "app":
		if isEnum(q) {
			return c.Select(q.Args[0], x)
		}
		if q.Name == "sortedseq" {
			return c.Among(q.Args[0], x)
		}
	}
	return c.mk("app", "smem", SBool, q, x)
}

// Sorted is a sequence in increasing order. The keys of a map have one sorted
// order, however they were listed.
func (c *Ctx) Sorted(q *Term) *Term {
	if isEnum(q) {
		return c.mk("app", "sortedkeys", q.Sort, q.Args[0])
	}
	return c.mk("app", "sortedseq", q.Sort, q)
}

// SortedKeys lists a set in increasing order.
func (c *Ctx) SortedKeys(d *Term) *Term {
	return c.mk("app", "sortedkeys", SeqOf(d.Sort.key()), d)
}

// table is a map that only initialisation writes.
type table struct {
	t types.Type
	m *Term
}

// tableFacts says what a look-up in a table gives: the keys it has, and the
// value at each.
func (e *Engine) tableFacts(t *Term) []*Term {
	c := e.C
	var name string
	var key *Term
	val := -1
	switch {
	case t.Op == "select" && t.Args[0].Op == "app" && len(t.Args[0].Name) > 7 && t.Args[0].Name[:7] == "tabdom:":
		name, key = t.Args[0].Name[7:], t.Args[1]
	case t.Op == "app" && len(t.Name) > 6 && t.Name[:6] == "table:":
		name, key = t.Name[6:], t.Args[0]
		for i := len(name) - 1; i >= 0; i-- {
			if name[i] == '#' {
				val = int(name[i+1] - '0')
				name = name[:i]
				break
			}
		}
	default:
		return nil
	}
	tb, ok := e.tables[name]
	if !ok || e.frz == nil {
		return nil
	}
	d, vals, ks, vs := mapNames(tb.t)
	dom := c.Select(e.getMap(e.frz, d, MapOf(SRef, MapOf(ks, SBool))), tb.m)
	keys, ok := literalKeys(dom)
	if !ok || len(keys) > 400 {
		return nil
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name < keys[j].Name })
	if val < 0 {
		any := c.False
		for _, k := range keys {
			any = c.Or(any, c.Eq(key, k))
		}
		return []*Term{c.mk("=", "", SBool, t, any)}
	}
	if len(keys) > 60 {
		return nil
	}
	vm := c.Select(e.getMap(e.frz, vals[val], MapOf(SRef, MapOf(ks, vs[val]))), tb.m)
	var out []*Term
	for _, k := range keys {
		out = append(out, c.Implies(c.Eq(key, k), c.mk("=", "", SBool, t, c.Select(vm, k))))
	}
	return out
}

package main

import (
	"fmt"
	"strings"
	"time"
)

// keeps: what an effect does not touch. "keeps walk mtex.visitor.nodes(q) if
// C;" says that walking leaves the field of every object that was there before
// as it was, where C holds of the object and the effect's arguments. It is
// shown once by induction on the effects' own recursion (lemma), and then used
// wherever such a field is read after the effect.
type Keep struct {
	Fn, Field string
	Q         string
	Cond      *Expr
	Props     []string
	Always    bool // of objects it makes as well
	File      string
	line      int
}

func (k *Keep) name() string { return "lemma " + k.Fn + " keeps " + k.Field }

// input: a value that was there before the function ran.
func input(t *Term) bool {
	if t.Stamp != 0 || t.Made || t.Fresh {
		return false
	}
	if t.Op == "sym" && (strings.HasPrefix(t.Name, "sk!") || strings.HasPrefix(t.Name, "any:")) {
		return false
	}
	for _, a := range t.Args {
		if !input(a) {
			return false
		}
	}
	return true
}

// kept reads a field after an effect that keeps it.
func (e *Engine) kept(m, q *Term) *Term {
	if e.sizing || !strings.Contains(m.Name, "@O:") {
		return nil
	}
	i := strings.Index(m.Name, "@")
	k := e.S.keeps[m.Name[:i]+"@"+m.Name[i+1:]]
	if k == nil || !k.Always && !input(q) {
		return nil
	}
	f := e.S.fns[k.Fn]
	base, cond := e.keepCond(k, f, m.Args, q)
	switch cond {
	case e.C.True:
		return e.C.Select(base, q)
	case e.C.False:
		return nil
	}
	return e.C.Ite(cond, e.C.Select(base, q), e.C.mk("select", "", m.Sort.elem(), m, q))
}

func (e *Engine) keepCond(k *Keep, f *SpecFn, a []*Term, q *Term) (base, cond *Term) {
	st := newState()
	n := &Env{e: e, vars: map[string]SV{}, st: st, old: st, file: k.File}
	if f.Kind == "fold" {
		a = a[1:]
	}
	rest := e.bindParams(n, f, a)
	for i, m := range f.maps {
		st.heap[m.name] = rest[i]
		if m.name == "O:"+k.Field {
			base = rest[i]
		}
	}
	if base == nil {
		fail("spec %s:%d: %s does not touch %s", k.File, k.line, k.Fn, k.Field)
	}
	if k.Cond == nil {
		return base, e.C.True
	}
	n.vars[k.Q] = SV{v: Value{q}, t: e.styp("*"+k.Field[:strings.LastIndex(k.Field, ".")], nil)}
	return base, n.bool(k.Cond)
}

// Lemma shows one "keeps" by induction.
func (e *Engine) Lemma(k *Keep, limit time.Duration) (res *Result) {
	t0 := time.Now()
	res = &Result{Target: k.name(), Props: k.Props, ByBack: map[string]int{}}
	e.reset()
	e.deadline = t0.Add(limit)
	q0, s0 := e.queries()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = u.msg
			} else {
				res.Err = fmt.Sprint("internal error: ", r)
			}
		}
		q1, s1 := e.queries()
		res.Queries, res.Solver = q1-q0, (s1 - s0).Seconds()
		res.Time = time.Since(t0).Seconds()
		for _, o := range e.sink {
			res.Total++
			if o.Status == "proved" {
				res.Proved++
				res.ByBack[o.By]++
			} else {
				res.Failed = append(res.Failed, fmt.Sprintf("%s: %s at %s: %s", o.Kind, o.Label, o.Pos, o.Why))
			}
		}
		res.Obls = e.sink
	}()
	c := e.C
	f := e.S.fns[k.Fn]
	if f == nil || f.Kind != "fold" && f.Kind != "effect" {
		fail("spec %s:%d: no effect %s", k.File, k.line, k.Fn)
	}
	var a []*Term
	if f.Kind == "fold" {
		qt := e.styp(f.QT, nil)
		q := c.Sym("q", qt.leaves()[0], 0)
		var x Value
		for i, s := range qt.seq.leaves() {
			x = append(x, c.Sym(fmt.Sprintf("x#%d", i), s, 0))
		}
		a = append(a, c.Snoc(q, c.tup(x)))
	}
	for _, p := range f.Params {
		for i, s := range e.styp(p.Type, nil).leaves() {
			a = append(a, c.Sym(fmt.Sprintf("%s#%d", p.Name, i), s, 0))
		}
	}
	for _, m := range f.maps {
		a = append(a, c.Sym("H:"+m.name, m.sort, 0))
	}
	q := c.Sym("kept", SRef, 0)
	if k.Always {
		q = c.Sym("kept", SRef, 1<<30)
	}
	base, cond := e.keepCond(k, f, a, q)
	var r map[string]*Term
	if f.Kind == "fold" {
		r = e.foldAll(f, a)
	} else {
		r = e.unfoldRec(f, a)
	}
	after := r[k.Fn+"@O:"+k.Field]
	if after == nil {
		fail("spec %s:%d: %s does not touch %s", k.File, k.line, k.Fn, k.Field)
	}
	st := newState()
	e.learn(st, cond)
	goal := c.Eq(c.Select(after, q), c.Select(base, q))
	e.oblige(st, "lemma", k.name(), nil, fmt.Sprintf("%s:%d", k.File, k.line), goal)
	for _, o := range e.sink {
		if o.Status == "" {
			e.prove(o)
		}
	}
	return res
}

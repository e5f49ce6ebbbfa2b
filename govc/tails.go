package main

import (
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Loops described by a tail-recursive effect of the specification:
//
//	tail effect rest(params, acc) ... { one step; run rest(params, acc') }
//
// At the head of the loop, what remains to be done from the current state is
// what remained at the entry: rest(now) = rest(entry). The step from one head
// to the next is proved; behind the loop rest(entry) is rewritten to one
// unfolding of rest(now), whose first test the exit has decided.

type tailHint struct {
	fn   *SpecFn
	pars []*Term
	full []*Term
	key  string
}

func (e *Engine) isDead(m string) bool {
	for _, d := range e.S.dead {
		if m == "F:"+d || strings.HasPrefix(m, "F:"+d+"#") {
			return true
		}
	}
	return false
}

func (e *Engine) nPars(f *SpecFn) int {
	np := 0
	for _, p := range f.Params {
		np += len(e.styp(p.Type, nil).leaves())
	}
	return np
}

func recName(s string) string {
	i := strings.LastIndexAny(s, "#@")
	if k := strings.Index(s, "@"); k >= 0 {
		i = k
	}
	return s[:i]
}

// tailHints collects the loops the specification mentions, and those of
// their steps.
func (e *Engine) tailHints(roots []*Term) {
	seen := map[*Term]bool{}
	have := map[string]bool{}
	var todo [][]*Term
	todo = append(todo, roots)
	for len(todo) > 0 && len(e.tails) < 40 {
		r := todo[0]
		todo = todo[1:]
		var found []*Term
		collect(r, seen, func(x *Term) {
			if x.Op == "rec" {
				if f := e.S.fns[recName(x.Name)]; f != nil && f.Tail {
					found = append(found, x)
				}
			}
		})
		sort.Slice(found, func(i, j int) bool { return found[i].id < found[j].id })
		for _, x := range found {
			f := e.S.fns[recName(x.Name)]
			np := e.nPars(f)
			key := argKey(f.Name, x.Args[:np])
			if have[key] {
				continue
			}
			have[key] = true
			e.tails = append(e.tails, tailHint{fn: f, pars: x.Args[:np], full: x.Args, key: key})
			n := 0
			for _, h := range e.tails {
				if h.fn == f {
					n++
				}
			}
			if n > 6 {
				continue
			}
			var vs []*Term
			for _, v := range e.unfoldRec(f, x.Args) {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
			todo = append(todo, vs)
		}
	}
}

// tailInst is an application of a tail effect in a state.
type tailInst struct{ args []*Term }

func (e *Engine) tailAt(f *SpecFn, pars []*Term, st *State) tailInst {
	var maps []*Term
	for _, m := range f.maps {
		maps = append(maps, e.simp(st, e.getMapFull(st, m.name, m.sort)))
	}
	core, _ := e.normArgs(pars, f.maps, maps)
	return tailInst{append(append([]*Term(nil), pars...), core...)}
}

// comps are the names and sorts of what the effect yields.
func (e *Engine) tailComps(f *SpecFn) (names []string, sorts []Sort) {
	for _, m := range f.State {
		for _, r := range f.maps {
			if r.name == m {
				names, sorts = append(names, f.Name+"@"+m), append(sorts, r.sort)
			}
		}
	}
	k := 0
	for _, ty := range f.Rets {
		for _, s := range e.styp(ty, nil).leaves() {
			names, sorts = append(names, f.Name+"#"+strconv.Itoa(k)), append(sorts, s)
			k++
		}
	}
	return
}

// tailEqs finds the effects the loop runs and rewrites them for what follows.
func (e *Engine) tailEqs(entry, base *State, comps []*comp, k *Term, outs, exits, ends []*Outcome, binds map[*Outcome]*binder, solved map[*Outcome]*Term) {
	c := e.C
	if len(e.tails) == 0 || e.sizing {
		return
	}
	var backs []*Outcome
	for _, o := range outs {
		if o.kind == outBack && e.feasible(o.st, c.True) {
			backs = append(backs, o)
		}
	}
	held := false
	dead := map[*Outcome]bool{}
	for i := 0; i < 2*len(e.tails); i++ {
		h := e.tails[i%len(e.tails)]
		try := i >= len(e.tails) // with a solver
		if try && held {
			break
		}
		// how each parameter may move
		type alt struct {
			head *Term
			at   func(o *Outcome) *Term
		}
		var alts [][]alt
		for _, p := range h.pars {
			p := p
			as := []alt{{p, func(*Outcome) *Term { return p }}}
			p0 := e.simp(entry, p)
			if p.Sort == SInt {
				as = append(as, alt{c.Add(p, k), func(*Outcome) *Term { return c.Add(p, c.Add(k, c.One)) }})
			}
			for _, cp := range comps {
				cp := cp
				if !cp.opq {
					continue
				}
				if cp.isSlice() {
					if !p.Sort.isSeq() || len(leaves(cp.el)) != 1 || SeqOf(leaves(cp.el)[0]) != p.Sort {
						continue
					}
					if e.simp(entry, e.view(entry, cp.init, cp.el)[0]) != p0 {
						continue
					}
					as = append(as, alt{e.simp(base, e.view(base, cp.val, cp.el)[0]), func(o *Outcome) *Term {
						return e.view(o.st, e.compNow(cp, o.st, e.backVals(o.st, o.blk, o.prev)), cp.el)[0]
					}})
					continue
				}
				if cp.sort != p.Sort || len(cp.val) != 1 {
					continue
				}
				i0 := cp.init[0]
				if cp.mp == "$sb" && cp.key != nil {
					i0 = e.sbGet(entry, cp.key)
				}
				if e.simp(entry, i0) != p0 {
					continue
				}
				as = append(as, alt{cp.val[0], func(o *Outcome) *Term {
					return e.compNow(cp, o.st, e.backVals(o.st, o.blk, o.prev))[0]
				}})
			}
			alts = append(alts, as)
		}
		total := 1
		for _, as := range alts {
			total *= len(as)
		}
		if total > 256 {
			debugf("tail %s: %d choices", h.fn.Name, total)
			total = 256
		}
		names, sorts := e.tailComps(h.fn)
		pick := make([]int, len(alts))
		for n := 0; n < total; n++ {
			x := n
			for i := range alts {
				pick[i] = x % len(alts[i])
				x /= len(alts[i])
			}
			hp := make([]*Term, len(alts))
			for i := range alts {
				hp[i] = alts[i][pick[i]].head
			}
			head := e.tailAt(h.fn, hp, base)
			def := e.unfoldRec(h.fn, head.args)
			ok := false
			for _, d := range def {
				collect([]*Term{e.simp(base, d)}, map[*Term]bool{}, func(x *Term) {
					if x.Op == "rec" && recName(x.Name) == h.fn.Name {
						ok = true
					}
				})
			}
			if !ok {
				break // nothing remains to be done
			}
			trial := map[*Outcome]*binder{}
		check:
			for _, o := range backs {
				lb := binds[o].clone()
				trial[o] = lb
				bp := make([]*Term, len(alts))
				for i := range alts {
					bp[i] = e.simp(o.st, alts[i][pick[i]].at(o))
				}
				now := e.tailAt(h.fn, bp, o.st)
				for j, nm := range names {
					a := e.simp(o.st, def[nm])
					b := e.simp(o.st, c.RecApp(nm, sorts[j], now.args))
					if a != b && !e.eqSk(o.st, b, a, lb) && !(try && (e.eqBound(o.st, b, a, lb) || e.contradicts(o, dead))) {
						if traceLoop {
							debugf("  tail %s %v: %s %s", h.fn.Name, pick, nm, termDiff(a, b))
							if os.Getenv("GOVC_TRACE") == "eq" {
								debugf("      facts %v\n      code %v\n      spec %v", o.st.facts, b, a)
							}
						}
						ok = false
						break check
					}
				}
			}
			if !ok {
				continue
			}
			held = true
			for o, lb := range trial {
				binds[o] = lb
			}
			first := e.tailAt(h.fn, h.pars, entry)
			rw := map[*Term]*Term{}
			for j, nm := range names {
				t := c.RecApp(nm, sorts[j], first.args)
				for t.Op == "store" {
					t = t.Args[0]
				}
				if def[nm] != t {
					rw[t] = def[nm]
				}
				if u := e.simp(entry, t); u != t && u.Op == "rec" && u != def[nm] {
					rw[u] = def[nm]
				}
			}
			debugf("  tail %s %v holds, %d backs", h.fn.Name, pick, len(backs))
			for _, os := range [][]*Outcome{exits, ends} {
				for _, o := range os {
					m := map[*Term]*Term{}
					for a, b := range o.st.rw {
						m[a] = b
					}
					for a, b := range rw {
						if n := solved[o]; n != nil {
							s := map[*Term]*Term{k: n}
							a, b = c.Subst(a, s), c.Subst(b, s)
						}
						m[a] = b
					}
					o.st.rw = m
					e.tailBefore(h, first, names, sorts, o.st)
				}
			}
			break
		}
	}
}

func (b *binder) clone() *binder {
	r := *b
	r.b, r.used = map[*Term]*Term{}, map[*Term]*Term{}
	for k, v := range b.b {
		r.b[k] = v
		r.used[v] = k
	}
	r.sk = append([]*Term(nil), b.sk...)
	return &r
}

// eqSk says that two terms are the same once the objects the specification
// makes are those the code made.
func (e *Engine) eqSk(st *State, a, w *Term, lb *binder) bool {
	if a.Op != w.Op {
		return false
	}
	t := lb.clone()
	t.bind(a, w)
	if a != t.sub(w) {
		return false
	}
	return len(t.sk) == 0 || e.eqBound(st, a, w, lb)
}

// contradicts says that a path cannot be taken, by the definitions of what
// its facts mention.
func (e *Engine) contradicts(o *Outcome, memo map[*Outcome]bool) bool {
	r, ok := memo[o]
	if !ok {
		e.unfLevel, e.unfDepth = 1, map[*Term]int{}
		scr := e.C.Script(o.st.facts, false, e.unfoldOne)
		r = e.sv[0].Check(scr, 1500*time.Millisecond) == "unsat"
		e.unfLevel = 0
		memo[o] = r
	}
	return r
}

// tailBefore adds the instances that lead to a rewritten one in steps the path
// has decided: iterations of the loop that were run before it was cut.
func (e *Engine) tailBefore(h tailHint, first tailInst, names []string, sorts []Sort, st *State) {
	c := e.C
	want := make([]*Term, len(names))
	for j, nm := range names {
		want[j] = e.simp(st, c.RecApp(nm, sorts[j], first.args))
	}
	for i := len(e.tails) - 1; i >= 0; i-- {
		g := e.tails[i]
		if g.fn != h.fn {
			continue
		}
		def := e.unfoldRec(g.fn, g.full)
		rw := map[*Term]*Term{}
		for j, nm := range names {
			t := c.RecApp(nm, sorts[j], g.full)
			for t.Op == "store" {
				t = t.Args[0]
			}
			if t.Op != "rec" || st.rw[t] != nil || e.simp(st, def[nm]) != want[j] {
				if traceLoop {
					debugf("  before %s: %s", nm, termDiff(e.simp(st, def[nm]), want[j]))
				}
				rw = nil
				break
			}
			rw[t] = want[j]
		}
		for a, b := range rw {
			st.rw[a] = b
		}
	}
}

package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver is a running SMT solver process.
type Solver struct {
	name  string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cache map[[32]byte]string

	Queries int
	Time    time.Duration
	lastErr string
}

func NewSolver(name string) *Solver {
	return &Solver{name: name, cache: map[[32]byte]string{}}
}

func (s *Solver) start() error {
	var args []string
	switch s.name {
	case "cvc5":
		args = []string{"--incremental", "--lang=smt2", "--quiet", "--produce-models"}
	default:
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.name, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	s.in, s.out = in, bufio.NewReader(out)
	return s.cmd.Start()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check runs a script (declarations and assertions) and returns sat, unsat
// or unknown.
func (s *Solver) Check(script string, timeout time.Duration) string {
	key := sha256.Sum256([]byte(fmt.Sprint(timeout) + script))
	if r, ok := s.cache[key]; ok {
		return r
	}
	t0 := time.Now()
	s.Queries++
	r := s.check(script, timeout)
	s.Time += time.Since(t0)
	s.cache[key] = r
	return r
}

func (s *Solver) check(script string, timeout time.Duration) string {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.cmd = nil
			s.lastErr = err.Error()
			return "unknown"
		}
	}
	var b strings.Builder
	ms := timeout.Milliseconds()
	if s.name == "cvc5" {
		fmt.Fprintf(&b, "(reset)\n(set-option :tlimit-per %d)\n(set-logic ALL)\n", ms)
	} else {
		fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n", ms)
	}
	b.WriteString(script)
	b.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
	done := make(chan string, 1)
	go func() {
		io.WriteString(s.in, b.String())
		res := "unknown"
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				done <- "dead"
				return
			}
			l = strings.Trim(strings.TrimSpace(l), "\"")
			switch {
			case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
				res = l
			case strings.HasPrefix(l, "(error"):
				s.lastErr = l
				res = "error"
			case l == "<<done>>":
				done <- res
				return
			}
		}
	}()
	select {
	case r := <-done:
		if r == "dead" {
			s.Close()
			return "unknown"
		}
		if r == "timeout" {
			r = "unknown"
		}
		return r
	case <-time.After(timeout + 3*time.Second):
		s.Close()
		<-done
		return "unknown"
	}
}

// ---------- script generation

type smtGen struct {
	c      *Ctx
	real   bool
	decl   map[string]bool
	decls  []string
	defs   []string
	names  map[*Term]string
	names2 map[string]string
	refs   map[*Term]int
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '@':
			b.WriteRune(r)
		default:
			fmt.Fprintf(&b, "~%x", r)
		}
	}
	return b.String()
}

func (g *smtGen) sort(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SF:
		if g.real {
			return "Real"
		}
	}
	if s.isMap() {
		_, a := splitSort(s)
		return "(Array " + g.sort(a[0]) + " " + g.sort(a[1]) + ")"
	}
	n := "S" + sanitize(string(s))
	if !g.decl["sort "+n] {
		g.decl["sort "+n] = true
		g.decls = append(g.decls, "(declare-sort "+n+" 0)")
	}
	return n
}

func (g *smtGen) fun(name string, res Sort, args ...Sort) string {
	if !g.decl[name] {
		g.decl[name] = true
		var a []string
		for _, s := range args {
			a = append(a, g.sort(s))
		}
		rs := g.sort(res)
		g.decls = append(g.decls, "(declare-fun "+name+" ("+strings.Join(a, " ")+") "+rs+")")
	}
	return name
}

func (g *smtGen) uf(name string, t *Term, args ...string) string {
	var ss []Sort
	full := name
	for _, a := range t.Args {
		ss = append(ss, a.Sort)
	}
	g.fun(full, t.Sort, ss...)
	if len(args) == 0 {
		return full
	}
	return "(" + full + " " + strings.Join(args, " ") + ")"
}

// bundled prints an application with a long tail of heap maps as one of a
// tuple of them, which all applications to the same heap share.
func (g *smtGen) bundled(name string, t *Term, a []string) string {
	p := 0
	for p < len(t.Args) && !t.Args[p].Sort.isMap() {
		p++
	}
	sig := ""
	var ss []Sort
	for _, x := range t.Args[p:] {
		sig += string(x.Sort) + ";"
		ss = append(ss, x.Sort)
	}
	h := sha256.Sum256([]byte(sig))
	srt := Sort(fmt.Sprintf("World%x", h[:4]))
	mk := g.fun(fmt.Sprintf("world.%x", h[:4]), srt, ss...)
	key := mk + " " + strings.Join(a[p:], " ")
	w, ok := g.names2[key]
	if !ok {
		w = fmt.Sprintf("w%d", len(g.names2))
		if g.names2 == nil {
			g.names2 = map[string]string{}
		}
		g.names2[key] = w
		g.defs = append(g.defs, "(define-fun "+w+" () "+g.sort(srt)+" ("+key+"))")
	}
	name += "." + sanitize(string(t.Sort))
	ss = nil
	for _, x := range t.Args[:p] {
		name += "." + shortSort(x.Sort)
		ss = append(ss, x.Sort)
	}
	ss = append(ss, srt)
	g.fun(name+"."+string(srt), t.Sort, ss...)
	return "(" + name + "." + string(srt) + " " + strings.Join(append(append([]string(nil), a[:p]...), w), " ") + ")"
}

func (g *smtGen) term(t *Term) string {
	if n, ok := g.names[t]; ok {
		return n
	}
	s := g.raw(t)
	if len(t.Args) > 0 && g.refs[t] > 1 && len(s) > 24 {
		n := fmt.Sprintf("t%d", t.id)
		srt := g.sort(t.Sort)
		g.defs = append(g.defs, "(define-fun "+n+" () "+srt+" "+s+")")
		g.names[t] = n
		return n
	}
	g.names[t] = s
	return s
}

func (g *smtGen) raw(t *Term) string {
	a := make([]string, len(t.Args))
	for i, x := range t.Args {
		a[i] = g.term(x)
	}
	j := strings.Join(a, " ")
	q := func(s Sort) string { return sanitize(string(s)) }
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		if strings.HasPrefix(t.Name, "-") {
			return "(- " + t.Name[1:] + ")"
		}
		return t.Name
	case "flt":
		v, _ := t.fltVal()
		if g.real {
			switch {
			case math.IsInf(v, 1):
				g.fun("f.pinf", SF)
				return "f.pinf"
			case math.IsInf(v, -1):
				g.fun("f.pinf", SF)
				return "(- f.pinf)"
			case math.IsNaN(v):
				return g.fun("f.nan", SF)
			}
			return ratOf(v)
		}
		return g.fun("f."+sanitize(t.Name), SF)
	case "str":
		h := sha256.Sum256([]byte(t.Name))
		return g.fun(fmt.Sprintf("s.%s.%x", sanitize(trunc(t.Name, 12)), h[:4]), SStr)
	case "sym", "glob", "func":
		return g.fun(t.Op+"."+sanitize(t.Name)+"."+q(t.Sort), t.Sort)
	case "vnil", "nilref":
		return g.fun(t.Op, t.Sort)
	case "not", "and", "ite", "=", "+", "*", ">=":
		return "(" + t.Op + " " + j + ")"
	case "select", "store":
		return "(" + t.Op + " " + j + ")"
	case "constmap":
		srt := g.sort(t.Sort)
		return "((as const " + srt + ") " + j + ")"
	}
	if g.real {
		switch t.Op {
		case "fadd":
			return "(+ " + j + ")"
		case "fsub":
			return "(- " + j + ")"
		case "fmul":
			return "(* " + j + ")"
		case "fdiv":
			if _, ok := t.Args[1].fltVal(); ok {
				return "(/ " + j + ")"
			}
			return g.uf("fdiv", t, a...)
		case "fneg":
			return "(- " + j + ")"
		case "fmax":
			return "(ite (>= " + j + ") " + j + ")"
		case "fmin":
			return "(ite (<= " + j + ") " + j + ")"
		case "fless":
			return "(< " + j + ")"
		case "fle":
			return "(<= " + j + ")"
		case "feq":
			return "(= " + j + ")"
		}
	}
	name := t.Op
	if t.Name != "" {
		name += "." + sanitize(t.Name)
	}
	switch t.Op {
	case "seqnil", "zeros", "constmap", "tuple", "snoc", "cat", "seqat", "seqlen", "at", "write", "copyin", "sub", "take", "hav", "union", "keyset":
		name += "." + q(t.Sort)
		if len(t.Args) > 0 {
			name += "." + q(t.Args[0].Sort)
		}
		if t.Op == "tuple" {
			name += "." + strconv.Itoa(len(t.Args))
		}
	case "scat":
		name += strconv.Itoa(len(t.Args))
	case "app", "fold", "rec", "skref":
		if (t.Op == "fold" || t.Op == "rec") && len(t.Args) > 10 {
			return g.bundled(name, t, a)
		}
		name += "." + q(t.Sort)
		for _, x := range t.Args {
			name += "." + shortSort(x.Sort)
		}
	}
	return g.uf(name, t, a...)
}

func shortSort(s Sort) string {
	if len(s) < 8 {
		return sanitize(string(s))
	}
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("%x", h[:3])
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// collect returns all subterms of ts.
func collect(ts []*Term, seen map[*Term]bool, visit func(*Term)) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		visit(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// Script builds the script asserting all of ts, with the axiom instances they
// need.  unfold returns definitional axioms of a spec-function application.
func (c *Ctx) Script(ts []*Term, real bool, unfold func(*Term) []*Term) string {
	seen := map[*Term]bool{}
	var all []*Term
	asserts := append([]*Term(nil), ts...)
	tagConsts := map[int64]bool{}
	tagged := map[*Term]bool{}
	var queue []*Term
	visit := func(t *Term) { all = append(all, t); queue = append(queue, t) }
	collect(asserts, seen, visit)
	addAx := func(a *Term) {
		if a == c.True {
			return
		}
		asserts = append(asserts, a)
		collect([]*Term{a}, seen, visit)
	}
	var extra []string
	g := &smtGen{c: c, real: real, decl: map[string]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}}
	done := map[*Term]bool{}
	doneTag := map[string]bool{}
	rawMk := func(op, name string, s Sort, args ...*Term) *Term { return c.mk(op, name, s, args...) }
	for rounds := 0; rounds < 40; rounds++ {
		n := len(queue)
		if n == 0 {
			break
		}
		cur := queue
		queue = nil
		for _, t := range cur {
			if done[t] {
				continue
			}
			done[t] = true
			switch t.Op {
			case "=":
				for i := range t.Args {
					if t.Args[i].Op == "tag" {
						if v, ok := t.Args[1-i].intVal(); ok {
							tagConsts[v] = true
						}
					}
				}
			case "tag":
				tagged[t.Args[0]] = true
			case "vptr", "vbox":
				id, _ := strconv.ParseInt(t.Name, 10, 64)
				addAx(rawMk("=", "", SBool, rawMk("tag", "", SInt, t), c.Int(id)))
				if t.Op == "vptr" {
					addAx(rawMk("=", "", SBool, rawMk("vptrof", t.Name, SRef, t), t.Args[0]))
				} else {
					for i, a := range t.Args {
						addAx(rawMk("=", "", SBool, rawMk("unbox", fmt.Sprintf("%d.%d", id, i), a.Sort, t), a))
					}
				}
			case "vnil":
				addAx(rawMk("=", "", SBool, rawMk("tag", "", SInt, t), c.Zero))
			case "fld":
				addAx(rawMk("=", "", SBool, rawMk("app", "unfld:"+t.Name, SRef, t), t.Args[0]))
				addAx(rawMk("=", "", SBool, rawMk("app", "kindref", SInt, t), c.Int(int64(1000+c.TagID("fld:"+t.Name)))))
				addAx(rawMk("=", "", SBool, c.age(t), c.age(t.Args[0])))
			case "idx":
				addAx(rawMk("=", "", SBool, rawMk("app", "unidx", SRef, t), t.Args[0]))
				addAx(rawMk("=", "", SBool, rawMk("app", "idxof", SInt, t), t.Args[1]))
				addAx(rawMk("=", "", SBool, rawMk("app", "kindref", SInt, t), c.Int(999)))
				addAx(rawMk("=", "", SBool, c.age(t), c.age(t.Args[0])))
			case "nilref":
				addAx(rawMk("=", "", SBool, c.age(t), c.Int(-1)))
				addAx(rawMk("=", "", SBool, rawMk("app", "kindref", SInt, t), c.Int(1)))
			case "glob", "func":
				if t.Sort == SRef {
					addAx(rawMk("=", "", SBool, c.age(t), c.Zero))
					addAx(rawMk("=", "", SBool, rawMk("app", "globid", SInt, t), c.Int(int64(c.TagID("glob:"+t.Op+t.Name)))))
				}
			case "slen", "seqlen":
				addAx(rawMk(">=", "", SBool, t, c.Zero))
			case "select":
				m, k := t.Args[0], t.Args[1]
				switch m.Op {
				case "store":
					addAx(rawMk("=", "", SBool, t, c.Ite(c.Eq(k, m.Args[1]), m.Args[2], c.Select(m.Args[0], k))))
				case "hav":
					if k.Sort == SRef {
						addAx(c.Implies(rawMk(">=", "", SBool, c.Int(int64(havTime(m))), c.age(k)), rawMk("=", "", SBool, t, c.Select(m.Args[0], k))))
					}
				}
			case "take":
				addAx(c.Implies(c.Eq(t.Args[1], c.SeqLen(t.Args[0])), rawMk("=", "", SBool, t, t.Args[0])))
			case "sym":
				if t.Sort == SInt && nonneg(t) {
					addAx(rawMk(">=", "", SBool, t, c.Zero))
				}
			case "app":
				if strings.HasPrefix(t.Name, "nat:") {
					addAx(rawMk(">=", "", SBool, t, c.Zero))
				}
			case "tuple":
				for i, a := range t.Args {
					addAx(rawMk("=", "", SBool, rawMk("app", "tupproj"+strconv.Itoa(i), a.Sort, t), a))
				}
			case "snoc":
				addAx(rawMk("=", "", SBool, rawMk("app", "last", t.Args[1].Sort, t), t.Args[1]))
				addAx(rawMk("=", "", SBool, rawMk("app", "init", t.Sort, t), t.Args[0]))
			}
			if t.Sort.isSeq() && t.Op != "ite" {
				l := c.SeqLen(t)
				raw := rawMk("seqlen", "", SInt, t)
				if l != raw {
					addAx(rawMk("=", "", SBool, raw, l))
				}
				if t.Op == "sub" {
					// shape facts on views of a known array
					_ = l
				}
			}
			if t.Sort == SRef && t.Op != "ite" && t.Op != "fld" && t.Op != "idx" && t.Op != "nilref" && t.Op != "glob" && t.Op != "func" {
				if t.Op == "skref" {
					addAx(rawMk(">=", "", SBool, c.age(t), c.One))
					addAx(rawMk("=", "", SBool, rawMk("app", "kindref", SInt, t), c.Int(0)))
				} else if t.Fresh {
					addAx(rawMk("=", "", SBool, c.age(t), c.Int(int64(t.Stamp))))
					addAx(rawMk("=", "", SBool, rawMk("app", "kindref", SInt, t), c.Int(0)))
				} else if t.Made {
					// perhaps an object of the specification, of unknown age
				} else if t.Op != "app" || !strings.HasPrefix(t.Name, "unfld:") && t.Name != "unidx" {
					addAx(rawMk(">=", "", SBool, c.Int(int64(t.Stamp)), c.age(t)))
				}
			}
			if unfold != nil {
				for _, ax := range unfold(t) {
					addAx(ax)
				}
			}
		}
		if len(queue) == 0 || rounds > 36 {
			// tag reconstruction
			for v := range tagged {
				if v.Op == "vptr" || v.Op == "vbox" || v.Op == "vnil" || v.Op == "ite" {
					continue
				}
				for id := range tagConsts {
					k := fmt.Sprintf("%d/%d", v.id, id)
					if doneTag[k] {
						continue
					}
					doneTag[k] = true
					is := rawMk("=", "", SBool, rawMk("tag", "", SInt, v), c.Int(id))
					var rec *Term
					if id == 0 {
						rec = c.VNil
					} else if ss, ok := c.boxSort[int(id)]; ok {
						var args []*Term
						for i, s := range ss {
							args = append(args, rawMk("unbox", fmt.Sprintf("%d.%d", id, i), s, v))
						}
						rec = rawMk("vbox", strconv.FormatInt(id, 10), SVal, args...)
					} else if c.ptrTags[int(id)] {
						sid := strconv.FormatInt(id, 10)
						rec = rawMk("vptr", sid, SVal, rawMk("vptrof", sid, SRef, v))
					} else {
						continue
					}
					addAx(c.Implies(is, rawMk("=", "", SBool, v, rec)))
				}
			}
		}
	}
	// distinct literals
	var strs, flts []string
	usesSlen := false
	for _, t := range all {
		if t.Op == "slen" {
			usesSlen = true
		}
	}
	for _, t := range all {
		for _, a := range t.Args {
			g.refs[a]++
		}
	}
	var body strings.Builder
	for _, a := range asserts {
		s := g.term(a)
		body.WriteString("(assert " + s + ")\n")
	}
	lits := append([]*Term(nil), all...)
	sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
	for _, t := range lits {
		switch t.Op {
		case "str":
			n := g.term(t)
			strs = append(strs, n)
			if usesSlen {
				g.fun("slen", SInt, SStr)
				extra = append(extra, fmt.Sprintf("(assert (= (slen %s) %d))", n, len(t.Name)))
			}
		case "flt":
			if !real {
				flts = append(flts, g.term(t))
			}
		}
	}
	for _, l := range [][]string{strs, flts} {
		if len(l) > 1 {
			extra = append(extra, "(assert (distinct "+strings.Join(l, " ")+"))")
		}
	}
	var b strings.Builder
	for _, d := range g.decls {
		b.WriteString(d + "\n")
	}
	for _, d := range g.defs {
		b.WriteString(d + "\n")
	}
	b.WriteString(body.String())
	for _, e := range extra {
		b.WriteString(e + "\n")
	}
	return b.String()
}

func (c *Ctx) age(r *Term) *Term { return c.mk("app", "age", SInt, r) }

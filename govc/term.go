package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is the sort of a term.  Composite sorts are written Seq<X>, Con<X>,
// Map<K,V>.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SF    Sort = "F"
	SStr  Sort = "Str"
	SRef  Sort = "Ref"
	SVal  Sort = "Val"
	STr   Sort = "Tr"
)

func SeqOf(s Sort) Sort    { return "Seq<" + s + ">" }
func ConOf(s Sort) Sort    { return "Con<" + s + ">" }
func MapOf(k, v Sort) Sort { return "Map<" + k + "," + v + ">" }

// splitSort returns the parameters of a composite sort.
func splitSort(s Sort) (head string, args []Sort) {
	i := strings.IndexByte(string(s), '<')
	if i < 0 {
		return string(s), nil
	}
	head = string(s[:i])
	body := string(s[i+1 : len(s)-1])
	depth, start := 0, 0
	for j := 0; j < len(body); j++ {
		switch body[j] {
		case '<':
			depth++
		case '>':
			depth--
		case ',':
			if depth == 0 {
				args = append(args, Sort(body[start:j]))
				start = j + 1
			}
		}
	}
	args = append(args, Sort(body[start:]))
	return head, args
}
func (s Sort) isSeq() bool { return strings.HasPrefix(string(s), "Seq<") }
func (s Sort) isCon() bool { return strings.HasPrefix(string(s), "Con<") }
func (s Sort) isMap() bool { return strings.HasPrefix(string(s), "Map<") }
func (s Sort) elem() Sort {
	_, a := splitSort(s)
	return a[len(a)-1]
}
func (s Sort) key() Sort {
	_, a := splitSort(s)
	return a[0]
}

// Term is a hash-consed term.
type Term struct {
	Op    string
	Name  string
	Args  []*Term
	Sort  Sort
	Made  bool // may be an object the specification makes
	Stamp int  // latest allocation time any leaf can know about
	Fresh bool
	id    int
}

// Ctx owns the terms of one function verification.
type Ctx struct {
	tab    map[string]*Term
	n      int
	tags   map[string]int
	tagTy  []string
	clock  int
	symN   map[string]int
	True   *Term
	False  *Term
	VNil   *Term
	NilRef *Term
	Zero   *Term
	One    *Term

	foldApp func(name string, s Sort, a []*Term) *Term
	recApp  func(name string, s Sort, a []*Term) *Term
	kept    func(m, q *Term) *Term

	ptrTags map[int]bool // tags whose values are pointers
	boxSort map[int][]Sort
}

func NewCtx() *Ctx {
	c := &Ctx{clock: 1, tab: map[string]*Term{}, tags: map[string]int{}, symN: map[string]int{},
		ptrTags: map[int]bool{}, boxSort: map[int][]Sort{}}
	c.tagTy = append(c.tagTy, "nil")
	c.True = c.mk("true", "", SBool)
	c.False = c.mk("false", "", SBool)
	c.VNil = c.mk("vnil", "", SVal)
	c.NilRef = c.mk("nilref", "", SRef)
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	return c
}

func (c *Ctx) mk(op, name string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, Name: name, Args: append([]*Term(nil), args...), Sort: s, id: c.n}
	t.Made = op == "rec" || op == "fold" || op == "skref"
	for i, a := range args {
		t.Made = t.Made || a.Made
		if op == "at" && i == 1 {
			continue // an element is as old as its sequence, whatever its place
		}
		if a.Stamp > t.Stamp {
			t.Stamp = a.Stamp
		}
	}
	c.tab[k] = t
	return t
}

// Tag returns the number of a dynamic type.
func (c *Ctx) TagID(ty string) int {
	if i, ok := c.tags[ty]; ok {
		return i
	}
	i := len(c.tagTy)
	c.tagTy = append(c.tagTy, ty)
	c.tags[ty] = i
	return i
}

// Sym makes a named free symbol known at the given time.
func (c *Ctx) Sym(name string, s Sort, stamp int) *Term {
	t := c.mk("sym", name, s)
	if stamp > t.Stamp {
		t.Stamp = stamp
	}
	return t
}

// NewSym makes a new symbol at the current time.
func (c *Ctx) NewSym(prefix string, s Sort) *Term {
	c.symN[prefix]++
	return c.Sym(fmt.Sprintf("%s!%d", prefix, c.symN[prefix]), s, c.clock)
}

// FreshRef makes a reference to an object allocated now.
func (c *Ctx) FreshRef(prefix string) *Term {
	c.clock++
	t := c.NewSym(prefix, SRef)
	t.Fresh = true
	t.Stamp = c.clock
	return t
}

func (c *Ctx) Int(i int64) *Term { return c.mk("int", strconv.FormatInt(i, 10), SInt) }
func (c *Ctx) Str(s string) *Term {
	return c.mk("str", s, SStr)
}
func (c *Ctx) Flt(f float64) *Term {
	if f == 0 {
		f = 0 // no negative zero literals
	}
	return c.mk("flt", strconv.FormatFloat(f, 'g', -1, 64), SF)
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) intVal() (int64, bool) {
	if t.Op != "int" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Name, 10, 64)
	return v, err == nil
}
func (t *Term) fltVal() (float64, bool) {
	if t.Op != "flt" {
		return 0, false
	}
	v, err := strconv.ParseFloat(t.Name, 64)
	return v, err == nil
}
func (t *Term) isConst() bool {
	switch t.Op {
	case "int", "str", "flt", "true", "false", "vnil", "nilref":
		return true
	}
	return false
}

// ---------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	}
	return c.mk("not", "", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		seen[a.id] = true
		if n, ok := c.tab["not||Bool,"+strconv.Itoa(a.id)]; ok && seen[n.id] {
			return false
		}
		if a.Op == "not" && seen[a.Args[0].id] {
			return false
		}
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("and", "", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = c.Not(a)
	}
	r := c.Not(c.And(n...))
	return r
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	switch {
	case g.Op == "true":
		return a
	case g.Op == "false":
		return b
	case a == b:
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	if g.Op == "not" {
		return c.Ite(g.Args[0], b, a)
	}
	if a.Sort == SBool {
		return c.And(c.Or(c.Not(g), a), c.Or(g, b))
	}
	if a.Op == "ite" && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return c.mk("ite", "", a.Sort, g, a, b)
}

// Eq builds an equality, deciding it when possible.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SF {
		return c.FEqId(a, b)
	}
	switch c.same(a, b) {
	case 1:
		return c.True
	case -1:
		return c.False
	}
	if a.Sort == SBool {
		switch {
		case a == c.True:
			return b
		case b == c.True:
			return a
		case a == c.False:
			return c.Not(b)
		case b == c.False:
			return c.Not(a)
		}
	}
	if a.Sort == SInt {
		d := c.linOf(a)
		d.addScaled(c.linOf(b), -1)
		if len(d.co) == 0 {
			return c.Bool(d.k == 0)
		}
		// canonical: positive leading coefficient, variable part = constant
		ids := d.sorted()
		if d.co[ids[0].id].c < 0 {
			d.scale(-1)
		}
		// tag comparisons keep the simple shape x = const
		k := -d.k
		d.k = 0
		l := c.linTerm(d)
		r := c.Int(k)
		return c.mk("=", "", SBool, l, r)
	}
	// ite against something: push when it helps
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if x.Op == "ite" {
			e1, e2 := c.same(x.Args[1], y), c.same(x.Args[2], y)
			if e1 != 0 || e2 != 0 {
				return c.Ite(x.Args[0], c.Eq(x.Args[1], y), c.Eq(x.Args[2], y))
			}
		}
	}
	if a.Op == b.Op && a.Sort == SVal && a.Op == "vptr" && a.Name == b.Name {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "tuple" && b.Op == "tuple" && len(a.Args) == len(b.Args) {
		r := c.True
		for i := range a.Args {
			r = c.And(r, c.Eq(a.Args[i], b.Args[i]))
		}
		return r
	}
	if a.Op == "fld" && b.Op == "fld" && a.Name == b.Name {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Sort == SStr {
		if a.Op == "scat" || b.Op == "scat" {
			if r := c.eqCat(a, b); r != nil {
				return r
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, a, b)
}

// eqCat strips equal constant affixes off two concatenations.
func (c *Ctx) eqCat(a, b *Term) *Term {
	pa, pb := catParts(a), catParts(b)
	changed := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb, changed = pa[1:], pb[1:], true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb, changed = pa[:len(pa)-1], pb[:len(pb)-1], true
	}
	if len(pa) > 0 && len(pb) > 0 && pa[0].Op == "str" && pb[0].Op == "str" {
		x, y := pa[0].Name, pb[0].Name
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[:n] != y[:n] {
			return c.False
		}
	}
	if !changed {
		return nil
	}
	return c.Eq(c.SCat(pa...), c.SCat(pb...))
}

// same: 1 equal, -1 distinct, 0 unknown (syntactic).
func (c *Ctx) same(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.isConst() && b.isConst() {
		return -1
	}
	switch a.Sort {
	case SRef:
		return c.sameRef(a, b)
	case SInt:
		d := c.linOf(a)
		d.addScaled(c.linOf(b), -1)
		if len(d.co) == 0 {
			if d.k == 0 {
				return 1
			}
			return -1
		}
		// len >= 0 knowledge: strlen/seqlen + positive constant != 0
		if d.k != 0 {
			pos, neg := true, true
			for _, m := range d.co {
				if !nonneg(m.t) {
					pos, neg = false, false
					break
				}
				if m.c < 0 {
					pos = false
				} else {
					neg = false
				}
			}
			if pos && d.k > 0 || neg && d.k < 0 {
				return -1
			}
		}
		return 0
	case SVal:
		if a.Op == "vnil" {
			a, b = b, a
		}
		if b.Op == "vnil" {
			if a.Op == "vptr" || a.Op == "vbox" || isBoxSeq(a) {
				return -1
			}
			return 0
		}
		ca := a.Op == "vptr" || a.Op == "vbox"
		cb := b.Op == "vptr" || b.Op == "vbox"
		if ca && cb {
			if a.Op != b.Op || a.Name != b.Name {
				return -1
			}
			all := 1
			for i := range a.Args {
				switch c.same(a.Args[i], b.Args[i]) {
				case -1:
					return -1
				case 0:
					all = 0
				}
			}
			return all
		}
	case SStr:
		if a.Op == "str" && b.Op == "scat" {
			a, b = b, a
		}
		if a.Op == "scat" && b.Op == "str" {
			ps := a.Args
			if ps[0].Op == "str" && !strings.HasPrefix(b.Name, ps[0].Name) {
				return -1
			}
			if l := ps[len(ps)-1]; l.Op == "str" && !strings.HasSuffix(b.Name, l.Name) {
				return -1
			}
		}
	}
	if a.Op == "tuple" && b.Op == "tuple" && len(a.Args) == len(b.Args) {
		all := 1
		for i := range a.Args {
			switch c.same(a.Args[i], b.Args[i]) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	}
	return 0
}

func nonneg(t *Term) bool {
	switch t.Op {
	case "slen", "seqlen":
		return true
	case "app", "sym":
		return strings.HasPrefix(t.Name, "nat:")
	}
	return false
}

func (c *Ctx) sameRef(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.Op == "ite" {
		x, y := c.sameRef(a.Args[1], b), c.sameRef(a.Args[2], b)
		if x == y {
			return x
		}
		return 0
	}
	if b.Op == "ite" {
		return c.sameRef(b, a)
	}
	if isOwned(a) {
		a, b = b, a
	}
	if isOwned(b) && !isOwned(a) && (a.Fresh || a.Op == "glob" || a.Op == "fld" || a.Op == "idx") {
		return -1
	}
	if a.Op == "nilref" {
		a, b = b, a
	}
	if b.Op == "nilref" {
		if a.Op == "fld" || a.Op == "idx" || a.Fresh || a.Op == "glob" || a.Op == "func" || a.Op == "skref" {
			return -1
		}
		return 0
	}
	if a.Op == "glob" && b.Op == "glob" {
		return -1
	}
	if a.Op == "fld" && b.Op == "fld" {
		if a.Name != b.Name {
			return -1
		}
		return c.sameRef(a.Args[0], b.Args[0])
	}
	if a.Op == "idx" && b.Op == "idx" {
		x, y := c.sameRef(a.Args[0], b.Args[0]), c.same(a.Args[1], b.Args[1])
		if x == -1 || y == -1 {
			return -1
		}
		if x == 1 && y == 1 {
			return 1
		}
		return 0
	}
	if a.Op == "fld" && b.Op == "idx" || a.Op == "idx" && b.Op == "fld" {
		return -1
	}
	// freshness by age of the root
	ra, rb := refRoot(a), refRoot(b)
	if ra.Fresh && rb.Stamp < ra.Stamp || rb.Fresh && ra.Stamp < rb.Stamp {
		return -1
	}
	if ra.Fresh && rb.Fresh && ra != rb {
		return -1
	}
	if ra.Fresh && ra == rb {
		// same object, one is the object itself and the other a part of it:
		// different addresses as far as typed access goes
		return -1
	}
	return 0
}

func refRoot(a *Term) *Term {
	for a.Op == "fld" || a.Op == "idx" {
		a = a.Args[0]
	}
	return a
}

// ---------- integers

type mono struct {
	t *Term
	c int64
}
type lin struct {
	k  int64
	co map[int]mono
}

func (c *Ctx) linOf(t *Term) *lin {
	l := &lin{co: map[int]mono{}}
	switch t.Op {
	case "int":
		v, _ := t.intVal()
		l.k = v
	case "+":
		for _, a := range t.Args {
			l.addScaled(c.linOf(a), 1)
		}
	case "*":
		if v, ok := t.Args[0].intVal(); ok && len(t.Args) == 2 {
			l.addScaled(c.linOf(t.Args[1]), v)
			return l
		}
		l.co[t.id] = mono{t, 1}
	default:
		l.co[t.id] = mono{t, 1}
	}
	return l
}
func (l *lin) addScaled(o *lin, s int64) {
	l.k += o.k * s
	for id, m := range o.co {
		x := l.co[id]
		x.t = m.t
		x.c += m.c * s
		if x.c == 0 {
			delete(l.co, id)
		} else {
			l.co[id] = x
		}
	}
}
func (l *lin) scale(s int64) {
	l.k *= s
	for id, m := range l.co {
		m.c *= s
		l.co[id] = m
	}
}
func (l *lin) sorted() []*Term {
	var ts []*Term
	for _, m := range l.co {
		ts = append(ts, m.t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}
func (c *Ctx) linTerm(l *lin) *Term {
	var args []*Term
	for _, t := range l.sorted() {
		m := l.co[t.id]
		if m.c == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk("*", "", SInt, c.Int(m.c), t))
		}
	}
	if l.k != 0 || len(args) == 0 {
		args = append(args, c.Int(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "", SInt, args...)
}
func (c *Ctx) Add(a, b *Term) *Term {
	l := c.linOf(a)
	l.addScaled(c.linOf(b), 1)
	return c.linTerm(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.linOf(a)
	l.addScaled(c.linOf(b), -1)
	return c.linTerm(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if v, ok := a.intVal(); ok {
		l := c.linOf(b)
		l.scale(v)
		if v == 0 {
			return c.Zero
		}
		return c.linTerm(l)
	}
	if _, ok := b.intVal(); ok {
		return c.Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", "", SInt, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term { // a <= b
	l := c.linOf(b)
	l.addScaled(c.linOf(a), -1) // b-a >= 0
	if len(l.co) == 0 {
		return c.Bool(l.k >= 0)
	}
	pos := l.k >= 0
	neg := l.k < 0
	for _, m := range l.co {
		if !nonneg(m.t) {
			pos, neg = false, false
			break
		}
		if m.c < 0 {
			pos = false
		} else {
			neg = false
		}
	}
	if pos {
		return c.True
	}
	if neg {
		return c.False
	}
	k := l.k
	l.k = 0
	return c.mk(">=", "", SBool, c.linTerm(l), c.Int(-k))
}

// geNeg is the negation of x >= k on integers, -x >= 1-k.
func (c *Ctx) geNeg(f *Term) *Term {
	if f.Op != ">=" || f.Args[0].Sort != SInt {
		return nil
	}
	k, ok := f.Args[1].intVal()
	if !ok {
		return nil
	}
	g := c.Le(c.Int(1-k), c.Sub(c.Zero, f.Args[0]))
	if g.Op != ">=" {
		return nil
	}
	return g
}

func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.One), b) }

// ---------- floats

func ff(op string, x, y float64) float64 {
	switch op {
	case "fadd":
		return x + y
	case "fsub":
		return x - y
	case "fmul":
		return x * y
	case "fdiv":
		return x / y
	case "fmax":
		return math.Max(x, y)
	case "fmin":
		return math.Min(x, y)
	}
	panic(op)
}

func (c *Ctx) FOp(op string, a, b *Term) *Term {
	x, ok1 := a.fltVal()
	y, ok2 := b.fltVal()
	if ok1 && ok2 {
		r := ff(op, x, y)
		if !math.IsNaN(r) {
			return c.Flt(r)
		}
	}
	switch op {
	case "fmul":
		if ok1 && x == 1 {
			return b
		}
		if ok2 && y == 1 {
			return a
		}
		if ok1 && x == -1 {
			return c.FNeg(b)
		}
		if ok2 && y == -1 {
			return c.FNeg(a)
		}
	case "fdiv":
		if ok2 && y == 1 {
			return a
		}
		if ok2 && y != 0 {
			// exact for powers of two
			if fr, _ := math.Frexp(math.Abs(y)); fr == 0.5 {
				return c.FOp("fmul", a, c.Flt(1/y))
			}
		}
	case "fsub":
		if ok2 && y == 0 {
			return a
		}
		// a - b = a + (-b) exactly
		if ok2 {
			return c.FOp("fadd", a, c.Flt(-y))
		}
		if b.Op == "fneg" {
			return c.FOp("fadd", a, b.Args[0])
		}
	case "fadd":
		if ok2 && y == 0 {
			return a
		}
		if ok1 && x == 0 {
			return b
		}
		if b.Op == "fneg" {
			return c.FOp("fsub", a, b.Args[0])
		}
		if a.Op == "fneg" {
			return c.FOp("fsub", b, a.Args[0])
		}
	}
	if op == "fmul" {
		// move signs out
		if a.Op == "fneg" {
			return c.FNeg(c.FOp(op, a.Args[0], b))
		}
		if b.Op == "fneg" {
			return c.FNeg(c.FOp(op, a, b.Args[0]))
		}
		if ok1 && x < 0 {
			return c.FNeg(c.FOp(op, c.Flt(-x), b))
		}
		if ok2 && y < 0 {
			return c.FNeg(c.FOp(op, a, c.Flt(-y)))
		}
	}
	if op == "fadd" || op == "fmul" || op == "fmax" || op == "fmin" {
		if a == b && (op == "fmax" || op == "fmin") {
			return a
		}
		if a == b && op == "fadd" {
			return c.FOp("fmul", c.Flt(2), a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, "", SF, a, b)
}
func (c *Ctx) FNeg(a *Term) *Term {
	if x, ok := a.fltVal(); ok {
		return c.Flt(-x)
	}
	if a.Op == "fneg" {
		return a.Args[0]
	}
	if a.Op == "fsub" { // up to the sign of zero
		return c.FOp("fsub", a.Args[1], a.Args[0])
	}
	return c.mk("fneg", "", SF, a)
}

// FLt is the IEEE a < b.
func (c *Ctx) FLt(a, b *Term) *Term {
	x, ok1 := a.fltVal()
	y, ok2 := b.fltVal()
	if ok1 && ok2 {
		return c.Bool(x < y)
	}
	if ok1 && math.IsInf(x, 1) || ok2 && math.IsInf(y, -1) || a == b {
		return c.False
	}
	return c.mk("fless", "", SBool, a, b)
}
func (c *Ctx) FLe(a, b *Term) *Term {
	x, ok1 := a.fltVal()
	y, ok2 := b.fltVal()
	if ok1 && ok2 {
		return c.Bool(x <= y)
	}
	return c.mk("fle", "", SBool, a, b)
}

// FEq is the IEEE a == b; FEqId is identity of float values (used by specs).
func (c *Ctx) FEq(a, b *Term) *Term {
	x, ok1 := a.fltVal()
	y, ok2 := b.fltVal()
	if ok1 && ok2 {
		return c.Bool(x == y)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("feq", "", SBool, a, b)
}
func (c *Ctx) FEqId(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Op == "flt" && b.Op == "flt" {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, a, b)
}
func (c *Ctx) FIsInf(a, sign *Term) *Term {
	x, ok1 := a.fltVal()
	s, ok2 := sign.intVal()
	if ok1 && ok2 {
		return c.Bool(math.IsInf(x, int(s)))
	}
	return c.mk("app", "math.IsInf", SBool, a, sign)
}

// ---------- strings

func catParts(t *Term) []*Term {
	if t.Op == "scat" {
		return t.Args
	}
	if t.Op == "str" && t.Name == "" {
		return nil
	}
	return []*Term{t}
}
func (c *Ctx) SCat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range catParts(a) {
			if n := len(out); n > 0 && out[n-1].Op == "str" && p.Op == "str" {
				out[n-1] = c.Str(out[n-1].Name + p.Name)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.mk("scat", "", SStr, out...)
}
func (c *Ctx) SLen(a *Term) *Term {
	switch a.Op {
	case "str":
		return c.Int(int64(len(a.Name)))
	case "scat":
		r := c.Zero
		for _, p := range a.Args {
			r = c.Add(r, c.SLen(p))
		}
		return r
	case "ite":
		return c.Ite(a.Args[0], c.SLen(a.Args[1]), c.SLen(a.Args[2]))
	case "substr":
		return c.Sub(a.Args[2], a.Args[1])
	}
	return c.mk("slen", "", SInt, a)
}
func (c *Ctx) SAt(a, i *Term) *Term {
	if v, ok := i.intVal(); ok && v >= 0 {
		if a.Op == "str" && v < int64(len(a.Name)) {
			return c.Int(int64(a.Name[v]))
		}
		if a.Op == "scat" && a.Args[0].Op == "str" && v < int64(len(a.Args[0].Name)) {
			return c.Int(int64(a.Args[0].Name[v]))
		}
	}
	return c.mk("sat", "", SInt, a, i)
}
func (c *Ctx) SSub(a, i, j *Term) *Term {
	x, ok1 := i.intVal()
	y, ok2 := j.intVal()
	if a.Op == "str" && ok1 && ok2 && 0 <= x && x <= y && y <= int64(len(a.Name)) {
		return c.Str(a.Name[x:y])
	}
	if i == c.Zero && j == c.SLen(a) {
		return a
	}
	if a.Op == "scat" && ok1 && j == c.SLen(a) && a.Args[0].Op == "str" && x >= 0 && x <= int64(len(a.Args[0].Name)) {
		return c.SCat(append([]*Term{c.Str(a.Args[0].Name[x:])}, a.Args[1:]...)...)
	}
	if c.same(i, j) == 1 {
		return c.Str("")
	}
	return c.mk("substr", "", SStr, a, i, j)
}

// ---------- interface values

func (c *Ctx) VPtr(ty string, r *Term) *Term {
	id := c.TagID(ty)
	c.ptrTags[id] = true
	if r.Op == "vptrof" && r.Name == strconv.Itoa(id) {
		return r.Args[0]
	}
	return c.mk("vptr", strconv.Itoa(id), SVal, r)
}
func (c *Ctx) VBox(ty string, args ...*Term) *Term {
	id := c.TagID(ty)
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.Sort)
	}
	c.boxSort[id] = ss
	return c.mk("vbox", strconv.Itoa(id), SVal, args...)
}

// BoxSeq is an interface value holding a new slice of the given content.
func (c *Ctx) BoxSeq(ty string, q *Term) *Term {
	c.TagID(ty)
	return c.App("boxseq:"+ty, SVal, q)
}

func isBoxSeq(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "boxseq:") }

func (c *Ctx) Tag(v *Term) *Term {
	if isBoxSeq(v) {
		return c.Int(int64(c.TagID(v.Name[7:])))
	}
	switch v.Op {
	case "vnil":
		return c.Zero
	case "vptr", "vbox":
		n, _ := strconv.ParseInt(v.Name, 10, 64)
		return c.Int(n)
	case "ite":
		return c.Ite(v.Args[0], c.Tag(v.Args[1]), c.Tag(v.Args[2]))
	}
	return c.mk("tag", "", SInt, v)
}

// Ptr is the pointer held by interface value v of dynamic type ty.
func (c *Ctx) Ptr(ty string, v *Term) *Term {
	id := c.TagID(ty)
	c.ptrTags[id] = true
	if v.Op == "vptr" && v.Name == strconv.Itoa(id) {
		return v.Args[0]
	}
	if v.Op == "ite" {
		return c.Ite(v.Args[0], c.Ptr(ty, v.Args[1]), c.Ptr(ty, v.Args[2]))
	}
	return c.mk("vptrof", strconv.Itoa(id), SRef, v)
}
func (c *Ctx) Unbox(ty string, i int, s Sort, v *Term) *Term {
	id := c.TagID(ty)
	if v.Op == "vbox" && v.Name == strconv.Itoa(id) {
		return v.Args[i]
	}
	if v.Op == "ite" {
		return c.Ite(v.Args[0], c.Unbox(ty, i, s, v.Args[1]), c.Unbox(ty, i, s, v.Args[2]))
	}
	return c.mk("unbox", fmt.Sprintf("%d.%d", id, i), s, v)
}

// ---------- maps

func (c *Ctx) Select(m, k *Term) *Term {
	if k.Op == "app" && k.Name == "ownarr" && m.Sort.elem().isCon() {
		el := m.Sort.elem().elem()
		return c.CopyIn(c.Zeros(el, c.zeroOf(el)), c.Zero, k.Args[0])
	}
	for {
		switch m.Op {
		case "store":
			switch c.same(m.Args[1], k) {
			case 1:
				return m.Args[2]
			case -1:
				m = m.Args[0]
				continue
			}
			if k.Op == "ite" {
				return c.Ite(k.Args[0], c.Select(m, k.Args[1]), c.Select(m, k.Args[2]))
			}
		case "ite":
			return c.Ite(m.Args[0], c.Select(m.Args[1], k), c.Select(m.Args[2], k))
		case "hav":
			if k.Sort == SRef && k.Stamp <= havTime(m) {
				m = m.Args[0]
				continue
			}
		case "constmap":
			return m.Args[0]
		case "union":
			return c.Or(c.Select(m.Args[0], k), c.Select(m.Args[1], k))
		case "keyset":
			return c.Among(m.Args[0], k)
		case "rec", "fold":
			if c.kept != nil {
				if r := c.kept(m, k); r != nil {
					return r
				}
			}
		}
		break
	}
	if k.Op == "ite" {
		return c.Ite(k.Args[0], c.Select(m, k.Args[1]), c.Select(m, k.Args[2]))
	}
	return c.mk("select", "", m.Sort.elem(), m, k)
}
func (c *Ctx) Store(m, k, v *Term) *Term {
	if k.Op == "app" && k.Name == "ownarr" {
		fail("write to a slice loaded from an append-only field")
	}
	if m.Sort.elem() != v.Sort {
		panic(fmt.Sprintf("store sort %s into %s", v.Sort, m.Sort))
	}
	if m.Op == "store" {
		switch c.same(m.Args[1], k) {
		case 1:
			return c.Store(m.Args[0], k, v)
		case -1:
			// canonical order of independent stores
			if m.Args[1].id > k.id {
				return c.mk("store", "", m.Sort, c.Store(m.Args[0], k, v), m.Args[1], m.Args[2])
			}
		}
	}
	if v.Op == "select" && v.Args[0] == m && v.Args[1] == k {
		return m
	}
	return c.mk("store", "", m.Sort, m, k, v)
}

// Hav is a map that agrees with base on every reference that existed at time
// t and is unknown elsewhere.
func (c *Ctx) Hav(base *Term, t int) *Term {
	if base.Op == "hav" && havTime(base) >= t {
		// still has to be a different unknown on younger references
		_ = base
	}
	c.symN["hav"]++
	h := c.mk("hav", fmt.Sprintf("%d.%d", t, c.symN["hav"]), base.Sort, base)
	if c.clock > h.Stamp {
		h.Stamp = c.clock
	}
	return h
}

func havTime(m *Term) int {
	i := strings.IndexByte(m.Name, '.')
	t, _ := strconv.Atoi(m.Name[:i])
	return t
}

func (c *Ctx) ConstMap(s Sort, v *Term) *Term { return c.mk("constmap", "", s, v) }

// ---------- sequences and array contents

func (c *Ctx) SeqNil(el Sort) *Term { return c.mk("seqnil", "", SeqOf(el)) }
func (c *Ctx) Snoc(q, v *Term) *Term {
	return c.mk("snoc", "", q.Sort, q, v)
}
func (c *Ctx) Cat(a, b *Term) *Term {
	switch b.Op {
	case "seqnil":
		return a
	case "snoc":
		return c.Snoc(c.Cat(a, b.Args[0]), b.Args[1])
	case "cat":
		return c.Cat(c.Cat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "seqnil" {
		return b
	}
	return c.mk("cat", "", a.Sort, a, b)
}
func (c *Ctx) SeqLen(q *Term) *Term {
	switch q.Op {
	case "seqnil":
		return c.Zero
	case "snoc":
		return c.Add(c.SeqLen(q.Args[0]), c.One)
	case "cat":
		return c.Add(c.SeqLen(q.Args[0]), c.SeqLen(q.Args[1]))
	case "sub":
		return q.Args[2]
	case "take":
		return q.Args[1]
	case "ite":
		return c.Ite(q.Args[0], c.SeqLen(q.Args[1]), c.SeqLen(q.Args[2]))
	case "app":
		if isEnum(q) { // any listing of a set has as many elements
			return c.mk("app", "nat:card", SInt, q.Args[0])
		}
		if q.Name == "sortedseq" {
			return c.SeqLen(q.Args[0])
		}
	}
	return c.mk("seqlen", "", SInt, q)
}
func (c *Ctx) SeqAt(q, i *Term) *Term {
	switch q.Op {
	case "sub":
		return c.At(q.Args[0], c.Add(q.Args[1], i))
	case "take":
		return c.SeqAt(q.Args[0], i)
	case "snoc":
		n := c.SeqLen(q.Args[0])
		switch c.same(n, i) {
		case 1:
			return q.Args[1]
		case -1:
			// i differs from n; if in range it is below n
			return c.SeqAt(q.Args[0], i)
		}
		return c.Ite(c.Eq(n, i), q.Args[1], c.SeqAt(q.Args[0], i))
	case "cat":
		n := c.SeqLen(q.Args[0])
		lt := c.Lt(i, n)
		return c.Ite(lt, c.SeqAtIf(lt, q.Args[0], i), c.SeqAt(q.Args[1], c.Sub(i, n)))
	case "ite":
		return c.Ite(q.Args[0], c.SeqAt(q.Args[1], i), c.SeqAt(q.Args[2], i))
	}
	return c.mk("seqat", "", q.Sort.elem(), q, i)
}
func (c *Ctx) SeqAtIf(g, q, i *Term) *Term {
	if g == c.False {
		return c.mk("seqat", "", q.Sort.elem(), q, i)
	}
	return c.SeqAt(q, i)
}

func (c *Ctx) Zeros(el Sort, z *Term) *Term { return c.mk("zeros", "", ConOf(el), z) }
func (c *Ctx) Write(con, i, v *Term) *Term {
	if con.Op == "write" && c.same(con.Args[1], i) == 1 {
		con = con.Args[0]
	}
	return c.mk("write", "", con.Sort, con, i, v)
}

// CopyIn overwrites con from position i with sequence q.
func (c *Ctx) CopyIn(con, i, q *Term) *Term {
	switch q.Op {
	case "seqnil":
		return con
	case "snoc":
		return c.Write(c.CopyIn(con, i, q.Args[0]), c.Add(i, c.SeqLen(q.Args[0])), q.Args[1])
	}
	return c.mk("copyin", "", con.Sort, con, i, q)
}
func (c *Ctx) At(con, i *Term) *Term {
	for {
		switch con.Op {
		case "write":
			switch c.same(con.Args[1], i) {
			case 1:
				return con.Args[2]
			case -1:
				con = con.Args[0]
				continue
			}
			return c.Ite(c.Eq(con.Args[1], i), con.Args[2], c.At(con.Args[0], i))
		case "zeros":
			return con.Args[0]
		case "copyin":
			lo, q := con.Args[1], con.Args[2]
			hi := c.Add(lo, c.SeqLen(q))
			in := c.And(c.Le(lo, i), c.Lt(i, hi))
			if in == c.False {
				con = con.Args[0]
				continue
			}
			return c.Ite(in, c.SeqAt(q, c.Sub(i, lo)), c.At(con.Args[0], i))
		case "ite":
			return c.Ite(con.Args[0], c.At(con.Args[1], i), c.At(con.Args[2], i))
		}
		break
	}
	return c.mk("at", "", con.Sort.elem(), con, i)
}

// SubSeq is the view con[off:off+n] as a sequence.
func (c *Ctx) SubSeq(con, off, n *Term) *Term {
	el := con.Sort.elem()
	if n == c.Zero {
		return c.SeqNil(el)
	}
	if off.Op == "ite" && con.Op == "ite" && off.Args[0] == con.Args[0] {
		return c.Ite(con.Args[0], c.SubSeq(con.Args[1], off.Args[1], n), c.SubSeq(con.Args[2], off.Args[2], n))
	}
	if off.Op == "ite" {
		g := off.Args[0]
		return c.Ite(g, c.SubSeq(c.underIte(con, g, true), off.Args[1], n), c.SubSeq(c.underIte(con, g, false), off.Args[2], n))
	}
	if n.Op == "ite" {
		return c.Ite(n.Args[0], c.SubSeq(con, off, n.Args[1]), c.SubSeq(con, off, n.Args[2]))
	}
	if m := c.natPred(n); m != nil && con.Op != "write" && con.Op != "copyin" && con.Op != "ite" {
		return c.Snoc(c.SubSeq(con, off, m), c.At(con, c.Add(off, m)))
	}
	switch con.Op {
	case "ite":
		return c.Ite(con.Args[0], c.SubSeq(con.Args[1], off, n), c.SubSeq(con.Args[2], off, n))
	case "write":
		i := con.Args[1]
		last := c.Sub(c.Add(off, n), c.One)
		switch {
		case c.same(i, last) == 1:
			return c.Snoc(c.SubSeq(con.Args[0], off, c.Sub(n, c.One)), con.Args[2])
		case c.Lt(last, i) == c.True, c.Lt(i, off) == c.True:
			return c.SubSeq(con.Args[0], off, n)
		}
		// constant length: enumerate
		if k, ok := n.intVal(); ok && k <= 64 {
			q := c.SeqNil(el)
			for j := int64(0); j < k; j++ {
				q = c.Snoc(q, c.At(con, c.Add(off, c.Int(j))))
			}
			return q
		}
	case "copyin":
		lo, q := con.Args[1], con.Args[2]
		m := c.SeqLen(q)
		end := c.Add(lo, m)
		switch {
		case c.same(lo, off) == 1 && c.same(m, n) == 1:
			return q
		case c.same(end, c.Add(off, n)) == 1:
			return c.Cat(c.SubSeq(con.Args[0], off, c.Sub(n, m)), q)
		case c.Le(c.Add(off, n), lo) == c.True, c.Le(end, off) == c.True:
			return c.SubSeq(con.Args[0], off, n)
		}
	case "zeros":
		if k, ok := n.intVal(); ok && k <= 64 {
			q := c.SeqNil(el)
			for j := int64(0); j < k; j++ {
				q = c.Snoc(q, con.Args[0])
			}
			return q
		}
	}
	return c.mk("sub", "", SeqOf(el), con, off, n)
}

// natPred returns n-1 when n is a natural-number symbol plus a positive
// constant.
func (c *Ctx) natPred(n *Term) *Term {
	if n.Op != "+" || len(n.Args) != 2 {
		return nil
	}
	v, ok := n.Args[1].intVal()
	if !ok || v < 1 || n.Args[0].Op != "sym" || !nonneg(n.Args[0]) {
		return nil
	}
	return c.Sub(n, c.One)
}

// Take is the prefix of length n of q.
func (c *Ctx) Take(q, n *Term) *Term {
	if n == c.Zero {
		return c.SeqNil(q.Sort.elem())
	}
	if n == c.SeqLen(q) {
		return q
	}
	switch q.Op {
	case "sub":
		return c.SubSeq(q.Args[0], q.Args[1], n)
	case "ite":
		return c.Ite(q.Args[0], c.Take(q.Args[1], n), c.Take(q.Args[2], n))
	case "snoc":
		l := c.SeqLen(q)
		if c.Lt(n, l) == c.True {
			return c.Take(q.Args[0], n)
		}
	case "take":
		return c.Take(q.Args[0], n)
	}
	if m := c.natPred(n); m != nil {
		return c.Snoc(c.Take(q, m), c.SeqAt(q, m))
	}
	return c.mk("take", "", q.Sort, q, n)
}

func (c *Ctx) underIte(t, g *Term, v bool) *Term {
	if t.Op == "ite" && t.Args[0] == g {
		if v {
			return t.Args[1]
		}
		return t.Args[2]
	}
	return t
}

// ---------- generic

func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	return c.mk("app", name, s, args...)
}

var fltFuncs = map[string]func(float64) float64{"math.Round": math.Round, "math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Trunc": math.Trunc}

// FApp applies a function on floats, computing it on constants.
func (c *Ctx) FApp(name string, x *Term) *Term {
	if v, ok := x.fltVal(); ok {
		if r := fltFuncs[name](v); !math.IsNaN(r) {
			return c.Flt(r)
		}
	}
	return c.App(name, SF, x)
}
func (c *Ctx) Fld(name string, r *Term) *Term {
	if r.Op == "ite" {
		return c.Ite(r.Args[0], c.Fld(name, r.Args[1]), c.Fld(name, r.Args[2]))
	}
	return c.mk("fld", name, SRef, r)
}
func (c *Ctx) Idx(arr, i *Term) *Term { return c.mk("idx", "", SRef, arr, i) }
func (c *Ctx) Tuple(s Sort, args ...*Term) *Term {
	return c.mk("tuple", "", s, args...)
}

// FoldApp and RecApp apply spec functions.
func (c *Ctx) FoldApp(name string, s Sort, a []*Term) *Term { return c.foldApp(name, s, a) }
func (c *Ctx) RecApp(name string, s Sort, a []*Term) *Term  { return c.recApp(name, s, a) }

// Subst replaces terms bottom-up, re-simplifying.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.Rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// Rebuild makes a term like t with other arguments, simplifying.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "+":
		r := c.Zero
		for _, x := range a {
			r = c.Add(r, x)
		}
		return r
	case "*":
		return c.Mul(a[0], a[1])
	case ">=":
		return c.Le(a[1], a[0])
	case "fadd", "fsub", "fmul", "fdiv", "fmax", "fmin":
		return c.FOp(t.Op, a[0], a[1])
	case "fneg":
		return c.FNeg(a[0])
	case "fless":
		return c.FLt(a[0], a[1])
	case "fle":
		return c.FLe(a[0], a[1])
	case "feq":
		return c.FEq(a[0], a[1])
	case "scat":
		return c.SCat(a...)
	case "slen":
		return c.SLen(a[0])
	case "sat":
		return c.SAt(a[0], a[1])
	case "substr":
		return c.SSub(a[0], a[1], a[2])
	case "tag":
		return c.Tag(a[0])
	case "vptr":
		id, _ := strconv.Atoi(t.Name)
		return c.VPtr(c.tagTy[id], a[0])
	case "vptrof":
		id, _ := strconv.Atoi(t.Name)
		return c.Ptr(c.tagTy[id], a[0])
	case "unbox":
		var id, i int
		fmt.Sscanf(t.Name, "%d.%d", &id, &i)
		return c.Unbox(c.tagTy[id], i, t.Sort, a[0])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "snoc":
		return c.Snoc(a[0], a[1])
	case "cat":
		return c.Cat(a[0], a[1])
	case "seqlen":
		return c.SeqLen(a[0])
	case "seqat":
		return c.SeqAt(a[0], a[1])
	case "at":
		return c.At(a[0], a[1])
	case "write":
		return c.Write(a[0], a[1], a[2])
	case "copyin":
		return c.CopyIn(a[0], a[1], a[2])
	case "sub":
		return c.SubSeq(a[0], a[1], a[2])
	case "take":
		return c.Take(a[0], a[1])
	case "hav":
		h := c.mk("hav", t.Name, t.Sort, a[0])
		if t.Stamp > h.Stamp {
			h.Stamp = t.Stamp
		}
		return h
	case "fold":
		return c.FoldApp(t.Name, t.Sort, a)
	case "rec":
		return c.RecApp(t.Name, t.Sort, a)
	case "fld":
		return c.Fld(t.Name, a[0])
	case "app":
		if strings.HasPrefix(t.Name, "tupproj") {
			i, _ := strconv.Atoi(t.Name[7:])
			return c.Proj(a[0], i)
		}
		if t.Name == "math.IsInf" {
			return c.FIsInf(a[0], a[1])
		}
		if fltFuncs[t.Name] != nil {
			return c.FApp(t.Name, a[0])
		}
	case "f2i":
		return c.F2I(a[0])
	case "i2f":
		return c.I2F(a[0])
	}
	return c.mk(t.Op, t.Name, t.Sort, a...)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.Op {
	case "sym":
		return strings.TrimPrefix(t.Name, "nat:")
	case "int", "glob":
		return t.Name
	case "flt":
		if t.Sort == SF {
			return t.Name
		}
	case "str":
		return strconv.Quote(t.Name)
	}
	n := t.Op
	if t.Name != "" {
		n += ":" + t.Name
	}
	if len(t.Args) == 0 {
		return n
	}
	var b strings.Builder
	b.WriteString("(" + n)
	for _, a := range t.Args {
		if (t.Op == "fold" || t.Op == "rec") && a.Op == "sym" && strings.HasPrefix(a.Name, "H:") {
			continue
		}
		if (t.Op == "fold" || t.Op == "rec") && a.Sort.isMap() {
			b.WriteString(" {…}")
			continue
		}
		b.WriteString(" " + a.str(d+1))
	}
	b.WriteString(")")
	return b.String()
}

func ratOf(f float64) string {
	r := new(big.Rat)
	r.SetFloat64(f)
	neg := r.Sign() < 0
	if neg {
		r.Neg(r)
	}
	s := fmt.Sprintf("(/ %s.0 %s.0)", r.Num().String(), r.Denom().String())
	if r.IsInt() {
		s = r.Num().String() + ".0"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

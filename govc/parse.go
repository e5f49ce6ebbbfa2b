package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// The contract language: a small expression language over Go values, and a
// few statements describing the effect of a function on its state.

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tInt
	tFloat
	tString
	tPunct
)

type tok struct {
	k    tokKind
	s    string
	line int
}

type Expr struct {
	Op   string // ident int float string bool nil field index slice call unary bin cond match let new seqlit old typ
	S    string
	A    []*Expr
	Keys []string
	Bind []string
	N    int
	line int
}

type Stmt struct {
	Op   string // assign set let if match run return
	L    []*Expr
	R    []*Expr
	S    string
	B    [][]*Stmt
	Keys []string
	Bind []string
	line int
}

type Param struct{ Name, Type string }

type Clause struct {
	E     *Expr
	Label string
	Props []string
	Src   string
	All   bool // holds in every loop met, also those of inlined functions
}

// LoopInv is a user-given invariant of the loops of a function.
type LoopInv struct {
	Label string
	E     *Expr
}

type Contract struct {
	Kind     string // func, iface
	Name     string
	Pkg      string
	Params   []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Body     []*Stmt
	Inv      []Clause
	Decr     []*Expr // a measure that goes down from caller to callee, lexicographically
	Variant  *Expr   // goes down with every round of a loop
	Hints    []*Expr
	Split    []*Expr
	Lets     []*Stmt
	MayPanic bool
	PanicsAs *Expr
	Forks    bool
	Never    bool
	Closed   bool // its effects are not expanded
	Assumed  bool
	Pure     bool
	Any      []string // universally quantified in ensures and invariants
	Inline   bool
	Only     []string // implementers to verify (iface)
	Except   []string
	Trusted  []string
	Panics   *Expr // when the function panics
	Fails    *Expr // the same, in terms of the contract's own steps
	Havoc    []*Expr
	File     string
	Line     int
}

type SpecFn struct {
	Kind   string // macro rec fold uf effect
	Name   string
	Params []Param
	Ret    string
	Rets   []string // effect
	Body   *Expr
	Stmts  []*Stmt
	On     string
	Sealed bool // only expanded where it is the contract itself
	Tail   bool // describes a loop: never expanded at the top
	// fold
	Q, X, I string
	QT      string
	Accs    []Param
	Inits   []*Expr
	Next    []*Expr
	State   []string
	File    string
	line    int

	maps    []mapRef
	mapsOK  bool
	mapping bool
}

type mapRef struct {
	name string
	sort Sort
}

type Ghost struct {
	Name string
	Key  string
	Type string
}

// SpecDB holds all contracts.
type SpecDB struct {
	Contracts []*Contract
	byName    map[string]*Contract
	iface     map[string]*Contract
	frames    []*FrameSpec
	functype  map[string]*Contract
	fns       map[string]*SpecFn
	ghosts    map[string]*Ghost
	sorts     map[string]bool
	dead      []string
	pureTy    map[string]bool
	owned     map[string]bool
	keeps     map[string]*Keep
	keepList  []*Keep
	fieldInv  map[string]*SpecFn
	mapInv    []*MapInv
	writers   []*WriteSpec
	elemInv   map[string]*SpecFn
	Lemmas    []*Contract
}

func LoadSpecs(dir string) (db *SpecDB, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(r)
		}
	}()
	defer func() {
		if db != nil {
			db.ghosts["$alloc"] = &Ghost{Name: "$alloc", Type: "int"}
		}
	}()
	db = &SpecDB{keeps: map[string]*Keep{}, byName: map[string]*Contract{}, iface: map[string]*Contract{}, functype: map[string]*Contract{}, fns: map[string]*SpecFn{}, ghosts: map[string]*Ghost{}, sorts: map[string]bool{}, pureTy: map[string]bool{}, owned: map[string]bool{}, fieldInv: map[string]*SpecFn{}, elemInv: map[string]*SpecFn{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := &sparser{file: filepath.Base(f), db: db}
		p.lex(string(b))
		p.top()
	}
	return db, nil
}

type specErr string

type sparser struct {
	file string
	src  string
	toks []tok
	p    int
	db   *SpecDB
	pkg  string
}

func (p *sparser) errf(format string, a ...any) {
	line := 0
	if p.p < len(p.toks) {
		line = p.toks[p.p].line
	}
	panic(specErr(fmt.Sprintf("%s:%d: ", p.file, line) + fmt.Sprintf(format, a...)))
}

var puncts = []string{"<==>", "==>", ":=", "==", "!=", "<=", ">=", "&&", "||", "->", "++", "..", "(", ")", "{", "}", "[", "]", ",", ";", ":", ".", "+", "-", "*", "/", "%", "<", ">", "=", "!", "?", "&", "#", "|"}

func (p *sparser) lex(s string) {
	p.src = s
	line := 1
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '_' || c == '$' || c == '@' || unicode.IsLetter(rune(c)):
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] == '@' || unicode.IsLetter(rune(s[j])) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			p.toks = append(p.toks, tok{tIdent, s[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			k := tInt
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.' && !strings.HasPrefix(s[j:], "..") || s[j] == 'x' || (s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') && strings.HasPrefix(s[i:], "0x") || s[j] == 'e') {
				if s[j] == '.' || s[j] == 'e' && !strings.HasPrefix(s[i:], "0x") {
					k = tFloat
				}
				j++
			}
			p.toks = append(p.toks, tok{k, s[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic(specErr(fmt.Sprintf("%s:%d: bad string %s", p.file, line, s[i:j+1])))
			}
			p.toks = append(p.toks, tok{tString, v, line})
			i = j + 1
		case c == '`':
			j := i + 1
			for s[j] != '`' {
				j++
			}
			p.toks = append(p.toks, tok{tString, s[i+1 : j], line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic(specErr(fmt.Sprintf("%s:%d: bad char %s", p.file, line, s[i:j+1])))
			}
			p.toks = append(p.toks, tok{tInt, strconv.Itoa(int(r)), line})
			i = j + 1
		default:
			ok := false
			for _, q := range puncts {
				if strings.HasPrefix(s[i:], q) {
					p.toks = append(p.toks, tok{tPunct, q, line})
					i += len(q)
					ok = true
					break
				}
			}
			if !ok {
				panic(specErr(fmt.Sprintf("%s:%d: bad character %q", p.file, line, c)))
			}
		}
	}
	p.toks = append(p.toks, tok{tEOF, "", line})
}

func (p *sparser) peek() tok { return p.toks[p.p] }
func (p *sparser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == tPunct || t.k == tIdent) && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.errf("expected %q, got %q", s, p.peek().s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != tIdent {
		p.p--
		p.errf("expected identifier, got %q", t.s)
	}
	return t.s
}

// typ reads a type expression as text.
func (p *sparser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		n := ""
		if !p.is("]") {
			n = p.toks[p.p].s
			p.p++
		}
		p.expect("]")
		return "[" + n + "]" + p.typ()
	case p.is("seq"):
		p.p++
		return "seq " + p.typ()
	case p.is("set"):
		p.p++
		return "set " + p.typ()
	case p.is("map"):
		p.p++
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	}
	s := p.ident()
	for p.is("/") {
		p.p++
		s += "/" + p.ident()
	}
	if p.accept(".") {
		s += "." + p.ident()
	}
	return s
}

func (p *sparser) params(end string) []Param {
	var out []Param
	for !p.is(end) {
		n := p.ident()
		t := ""
		if !p.is(",") && !p.is(end) {
			t = p.typ()
		}
		out = append(out, Param{n, t})
		if !p.accept(",") {
			break
		}
	}
	p.expect(end)
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}

// fname reads a function name such as tex.(*Box).Shrink or font/lm.Fonts.
func (p *sparser) fname() string {
	var b strings.Builder
	if p.peek().k == tString {
		return p.next().s
	}
	b.WriteString(p.ident())
	for {
		switch {
		case p.accept("/"):
			b.WriteString("/" + p.ident())
		case p.accept("."):
			if p.accept("(") {
				p.expect("*")
				b.WriteString(".(*" + p.ident() + ")")
				p.expect(")")
			} else {
				b.WriteString("." + p.ident())
			}
		default:
			return b.String()
		}
	}
}

func (p *sparser) top() {
	for p.peek().k != tEOF {
		line := p.peek().line
		kw := p.ident()
		switch kw {
		case "sort":
			p.db.sorts[p.ident()] = true
		case "ghost":
			g := &Ghost{Name: p.ident()}
			if p.accept("[") {
				g.Key = p.typ()
				p.expect("]")
			}
			g.Type = p.typ()
			p.db.ghosts[g.Name] = g
		case "macro", "rec", "uf":
			f := &SpecFn{Kind: kw, Name: p.ident(), File: p.file, line: line}
			p.expect("(")
			f.Params = p.params(")")
			f.Ret = p.typ()
			if p.accept("on") {
				f.On = p.ident()
			}
			if kw != "uf" {
				p.expect("=")
				f.Body = p.expr()
			}
			p.accept(";")
			p.def(f)
		case "dead":
			for {
				p.db.dead = append(p.db.dead, p.fname())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "owned":
			// owned mtex.visitor.nodes; see owned.go
			for {
				p.db.owned[p.fname()] = true
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "keeps":
			// keeps [C20] walk mtex.visitor.nodes(q) if ...; see keeps.go
			k := &Keep{File: p.file, line: line}
			if p.accept("[") {
				for !p.accept("]") {
					k.Props = append(k.Props, p.ident())
					p.accept(",")
				}
			}
			k.Always = p.accept("always")
			k.Fn = p.ident()
			k.Field = p.fname()
			p.expect("(")
			k.Q = p.ident()
			p.expect(")")
			if p.accept("if") {
				k.Cond = p.expr()
			}
			p.expect(";")
			p.db.keeps[k.Fn+"@O:"+k.Field] = k
			p.db.keepList = append(p.db.keepList, k)
		case "tail", "sealed", "effect":
			tail, sealed := kw == "tail", kw == "sealed"
			if tail || sealed {
				if p.ident() != "effect" {
					p.errf("tail what?")
				}
				kw = "effect"
			}
			f := &SpecFn{Kind: kw, Name: p.ident(), File: p.file, line: line, Tail: tail, Sealed: sealed}
			p.expect("(")
			f.Params = p.params(")")
			if !p.is("on") && !p.is("{") {
				if p.accept("(") {
					for !p.accept(")") {
						f.Rets = append(f.Rets, p.typ())
						p.accept(",")
					}
				} else {
					f.Rets = []string{p.typ()}
				}
			}
			if p.accept("on") {
				f.On = p.ident()
			}
			f.Stmts = p.block()
			p.def(f)
		case "fieldinv":
			// fieldinv tex.Glue.stretchOrder(v) = ...
			f := &SpecFn{Kind: kw, Name: p.fname(), File: p.file, line: line}
			p.expect("(")
			f.X = p.ident()
			p.expect(")")
			p.expect("=")
			f.Body = p.expr()
			p.accept(";")
			p.db.fieldInv[f.Name] = f
		case "mapinv":
			// mapinv font/ttf.Backend.glyphs(b, k, v) = ...
			f := &MapInv{Field: p.fname(), File: p.file}
			p.expect("(")
			f.B = p.ident()
			p.expect(",")
			f.K = p.ident()
			p.expect(",")
			f.V = p.ident()
			p.expect(")")
			p.expect("=")
			f.Body = p.expr()
			p.accept(";")
			p.db.mapInv = append(p.db.mapInv, f)
		case "writers":
			f := &WriteSpec{File: p.file}
			if p.accept("[") {
				for !p.accept("]") {
					f.Props = append(f.Props, p.ident())
					p.accept(",")
				}
			}
			for l := &f.Vars; ; {
				*l = append(*l, p.fname())
				if p.accept(",") {
					continue
				}
				if l == &f.By || !p.accept("by") {
					break
				}
				l = &f.By
			}
			p.expect(";")
			p.db.writers = append(p.db.writers, f)
		case "eleminv":
			f := &SpecFn{Kind: kw, Name: p.fname(), File: p.file, line: line}
			p.expect("(")
			f.X = p.ident()
			p.expect(")")
			p.expect("=")
			f.Body = p.expr()
			p.accept(";")
			p.db.elemInv[f.Name] = f
		case "fold":
			p.fold(line)
		case "frame":
			f := &FrameSpec{File: p.file, Props: p.propList()}
			p.expect("{")
			for !p.accept("}") {
				l := &f.Skip
				if !p.accept("skip") {
					if !p.accept("readonly") {
						p.errf("unexpected %q", p.peek().s)
					}
					l = &f.ReadOnly
				}
				for {
					*l = append(*l, p.fname())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			}
			p.db.frames = append(p.db.frames, f)
		case "func", "iface", "lemma", "functype":
			p.contract(kw, line)
		default:
			p.p--
			p.errf("unexpected %q", kw)
		}
	}
}

func (p *sparser) def(f *SpecFn) {
	if _, ok := p.db.fns[f.Name]; ok {
		p.errf("%s defined twice", f.Name)
	}
	p.db.fns[f.Name] = f
}

// fold NAME(q seq T; x, i)(params) { acc T = init -> step; ... do { stmts } }
func (p *sparser) fold(line int) {
	f := &SpecFn{Kind: "fold", Name: p.ident(), File: p.file, line: line}
	p.expect("(")
	f.Q = p.ident()
	f.QT = p.typ()
	p.expect(";")
	f.X = p.ident()
	if p.accept(",") {
		f.I = p.ident()
	}
	p.expect(")")
	if p.accept("(") {
		f.Params = p.params(")")
	}
	p.expect("{")
	for !p.accept("}") {
		if p.is("do") {
			p.p++
			f.Stmts = p.block()
			p.accept(";")
			continue
		}
		a := Param{Name: p.ident()}
		a.Type = p.typ()
		p.expect("=")
		init := p.expr()
		var nx *Expr
		if p.accept("->") {
			nx = p.expr()
		}
		f.Accs = append(f.Accs, a)
		f.Inits = append(f.Inits, init)
		f.Next = append(f.Next, nx)
		p.expect(";")
	}
	p.def(f)
}

func (p *sparser) propList() []string {
	var out []string
	for {
		t := p.peek()
		if t.k == tIdent && len(t.s) == 3 && t.s[0] == 'C' && t.s[1] >= '0' && t.s[1] <= '9' {
			out = append(out, t.s)
			p.p++
			p.accept(",")
			continue
		}
		return out
	}
}

func (p *sparser) clause() Clause {
	c := Clause{}
	if p.accept("[") {
		c.Props = p.propList()
		if !p.is("]") {
			c.Label = p.ident()
		}
		p.expect("]")
	}
	i := p.p
	c.E = p.expr()
	c.Src = p.text(i, p.p)
	if c.Label == "" {
		c.Label = c.Src
	}
	p.expect(";")
	return c
}

func (p *sparser) text(i, j int) string {
	var b strings.Builder
	for ; i < j; i++ {
		t := p.toks[i]
		s := t.s
		if t.k == tString {
			s = strconv.Quote(s)
		}
		if b.Len() > 0 && (t.k != tPunct || len(s) > 1 || strings.Contains("+-*/<>=?:", s)) && p.toks[i-1].s != "." && p.toks[i-1].s != "(" && p.toks[i-1].s != "!" {
			b.WriteByte(' ')
		}
		b.WriteString(s)
	}
	s := b.String()
	if len(s) > 120 {
		s = s[:117] + "..."
	}
	return s
}

func (p *sparser) contract(kw string, line int) {
	c := &Contract{Kind: kw, File: p.file, Line: line}
	c.Name = p.fname()
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		if !p.is(",") && !p.is(")") {
			n += " " + p.typ()
		}
		c.Params = append(c.Params, n)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	for !p.is("{") && !p.is(";") {
		switch w := p.ident(); w {
		case "assumed":
			c.Assumed = true
		case "maypanic":
			c.MayPanic = true
		case "pure":
			c.Pure = true
			c.Assumed = true
		case "never":
			c.Never = true
			c.MayPanic = true
		default:
			p.errf("unexpected %q", w)
		}
	}
	if !p.accept(";") {
		p.expect("{")
		for !p.accept("}") {
			switch {
			case p.accept("props"):
				c.Props = append(c.Props, p.propList()...)
				p.expect(";")
			case p.accept("requires"):
				c.Requires = append(c.Requires, p.clause())
			case p.accept("ensures"):
				c.Ensures = append(c.Ensures, p.clause())
			case p.accept("any"):
				for {
					n := p.ident()
					c.Any = append(c.Any, n+" "+p.typ())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case p.accept("invariant"):
				c.Inv = append(c.Inv, p.clause())
			case p.accept("everywhere"):
				cl := p.clause()
				cl.All = true
				c.Inv = append(c.Inv, cl)
			case p.accept("decreases"):
				for {
					c.Decr = append(c.Decr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case p.accept("variant"):
				c.Variant = p.expr()
				p.expect(";")
			case p.accept("panics"):
				c.Panics = p.expr()
				c.MayPanic = true
				p.expect(";")
			case p.accept("fails"):
				c.Fails = p.expr()
				c.MayPanic = true
				p.expect(";")
			case p.accept("maypanic"):
				// maypanic E: E names the case, whatever it is
				c.MayPanic = true
				if !p.is(";") {
					c.PanicsAs = p.expr()
				}
				p.expect(";")
			case p.accept("forks"):
				// a caller goes on separately with either outcome
				c.Forks = true
				p.expect(";")
			case p.accept("hint"):
				c.Hints = append(c.Hints, p.expr())
				p.expect(";")
			case p.accept("opaque"):
				c.Closed = true
				p.expect(";")
			case p.accept("split"):
				for {
					c.Split = append(c.Split, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case p.accept("havoc"):
				for {
					c.Havoc = append(c.Havoc, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case p.accept("for"):
				for {
					c.Only = append(c.Only, p.typ())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case p.accept("trusted"):
				for {
					c.Trusted = append(c.Trusted, p.typ())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			case p.accept("except"):
				for {
					c.Except = append(c.Except, p.typ())
					if !p.accept(",") {
						break
					}
				}
				p.expect(";")
			default:
				c.Body = append(c.Body, p.stmt())
			}
		}
	}
	p.db.Contracts = append(p.db.Contracts, c)
	m := p.db.byName
	if kw == "iface" {
		m = p.db.iface
	}
	if kw == "functype" {
		c.Assumed = true
		m = p.db.functype
	}
	if _, ok := m[c.Name]; ok {
		p.errf("contract %s given twice", c.Name)
	}
	m[c.Name] = c
}

func (p *sparser) block() []*Stmt {
	p.expect("{")
	var out []*Stmt
	for !p.accept("}") {
		out = append(out, p.stmt())
	}
	return out
}

// stmt: assigns a = e, b = f;  let x = e;  if c {} else {};  match v {T as x: {...}};
// run eff(args);  returns e, f;  x = e (accumulators)
func (p *sparser) stmt() *Stmt {
	s := &Stmt{line: p.peek().line}
	switch {
	case p.accept("assigns"):
		s.Op = "assign"
		for {
			s.L = append(s.L, p.unary())
			p.expect("=")
			s.R = append(s.R, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case p.is("forget") && (p.toks[p.p+1].s == ";" || p.toks[p.p+1].s == "but"):
		// forget but ast: the state, other than that of the types of package ast
		p.accept("forget")
		s.Op = "forget"
		if p.accept("but") {
			s.S = p.ident()
		}
		p.expect(";")
	case p.accept("let"):
		s.Op = "let"
		for {
			s.Bind = append(s.Bind, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect("=")
		if p.accept("run") {
			s.Op = "run"
		}
		s.R = []*Expr{p.expr()}
		p.expect(";")
	case p.accept("returns"):
		s.Op = "return"
		for {
			s.R = append(s.R, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case p.accept("run"):
		s.Op = "run"
		s.R = []*Expr{p.expr()}
		if p.accept("as") {
			s.S = p.ident()
		}
		p.expect(";")
	case p.accept("if"):
		s.Op = "if"
		s.R = []*Expr{p.expr()}
		s.B = append(s.B, p.block())
		if p.accept("else") {
			if p.is("if") {
				s.B = append(s.B, []*Stmt{p.stmt()})
			} else {
				s.B = append(s.B, p.block())
			}
		} else {
			s.B = append(s.B, nil)
		}
	case p.accept("match"):
		s.Op = "match"
		s.R = []*Expr{p.expr()}
		p.expect("{")
		for !p.accept("}") {
			t := "_"
			if !p.accept("_") {
				if p.accept("nil") {
					t = "nil"
				} else {
					t = p.typ()
				}
			}
			b := ""
			if p.accept("as") {
				b = p.ident()
			}
			p.expect(":")
			s.Keys = append(s.Keys, t)
			s.Bind = append(s.Bind, b)
			s.B = append(s.B, p.block())
		}
	default:
		s.Op = "set"
		s.S = p.ident()
		p.expect("=")
		s.R = []*Expr{p.expr()}
		p.expect(";")
	}
	return s
}

// ---------- expressions

func (p *sparser) mk(op string, a ...*Expr) *Expr {
	return &Expr{Op: op, A: a, line: p.toks[p.p-1].line}
}

func (p *sparser) expr() *Expr {
	if p.accept("let") {
		n := p.ident()
		p.expect("=")
		v := p.expr()
		if !p.accept("in") {
			p.expect(";")
		}
		b := p.expr()
		x := p.mk("let", v, b)
		x.S = n
		return x
	}
	l := p.or()
	if p.accept("==>") {
		r := p.expr()
		return p.mk("cond", l, r, &Expr{Op: "bool", S: "true"})
	}
	if p.accept("<==>") {
		r := p.expr()
		x := p.mk("bin", l, r)
		x.S = "=="
		return x
	}
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return p.mk("cond", l, a, b)
	}
	return l
}

func (p *sparser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		r := p.and()
		l = p.mk("bin", l, r)
		l.S = "||"
	}
	return l
}
func (p *sparser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		r := p.cmp()
		l = p.mk("bin", l, r)
		l.S = "&&"
	}
	return l
}
func (p *sparser) cmp() *Expr {
	l := p.add()
	for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
		if p.peek().k == tPunct && p.accept(o) {
			r := p.add()
			x := p.mk("bin", l, r)
			x.S = o
			return x
		}
	}
	return l
}
func (p *sparser) add() *Expr {
	l := p.mul()
	for {
		o := p.peek().s
		if p.peek().k != tPunct || o != "+" && o != "-" && o != "++" {
			return l
		}
		p.p++
		r := p.mul()
		l = p.mk("bin", l, r)
		l.S = o
	}
}
func (p *sparser) mul() *Expr {
	l := p.unary()
	for {
		o := p.peek().s
		if p.peek().k != tPunct || o != "*" && o != "/" && o != "%" {
			return l
		}
		p.p++
		r := p.unary()
		l = p.mk("bin", l, r)
		l.S = o
	}
}
func (p *sparser) unary() *Expr {
	for _, o := range []string{"!", "-", "*", "&"} {
		if p.peek().k == tPunct && p.accept(o) {
			x := p.mk("unary", p.unary())
			x.S = o
			return x
		}
	}
	return p.postfix(p.primary())
}

func (p *sparser) args(end string) []*Expr {
	var out []*Expr
	for !p.is(end) {
		out = append(out, p.expr())
		if !p.accept(",") {
			break
		}
	}
	p.expect(end)
	return out
}

func (p *sparser) postfix(x *Expr) *Expr {
	for {
		switch {
		case p.is(".") && p.toks[p.p+1].k == tIdent:
			p.p++
			n := p.ident()
			x = p.mk("field", x)
			x.S = n
		case p.is(".") && p.toks[p.p+1].s == "(":
			p.p += 2
			t := p.typ()
			p.expect(")")
			x = p.mk("assert", x)
			x.S = t
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				x = p.mk("slice", x, nil, hi)
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				x = p.mk("slice", x, i, hi)
				continue
			}
			p.expect("]")
			x = p.mk("index", x, i)
		case p.is("(") && (x.Op == "ident" || x.Op == "field" || x.Op == "call"):
			p.p++
			a := p.args(")")
			if x.Op == "call" { // second argument list of a fold
				x.A = append(x.A, a...)
				continue
			}
			y := p.mk("call", a...)
			y.S = x.S
			if x.Op == "field" {
				if x.A[0].Op != "ident" {
					p.errf("method calls are not part of the language")
				}
				y.S = x.A[0].S + "." + x.S
			}
			x = y
		default:
			return x
		}
	}
}

func (p *sparser) primary() *Expr {
	t := p.next()
	switch t.k {
	case tInt, tFloat, tString:
		op := map[tokKind]string{tInt: "int", tFloat: "float", tString: "string"}[t.k]
		x := p.mk(op)
		x.S = t.s
		return x
	case tIdent:
		switch t.s {
		case "true", "false":
			x := p.mk("bool")
			x.S = t.s
			return x
		case "nil":
			return p.mk("nil")
		case "old":
			p.expect("(")
			x := p.expr()
			p.expect(")")
			return p.mk("old", x)
		case "new", "struct", "new@":
			// new@(i, j) T{...}: object number (i, j) made by a run of the
			// specification; $alloc tells the runs apart
			x := p.mk("new")
			if t.s == "struct" {
				x.Op = "struct"
			}
			var tags []*Expr
			if t.s == "new@" {
				x.Op = "newat"
				p.expect("(")
				tags = p.args(")")
				x.N = len(tags)
			}
			x.S = p.typ()
			p.expect("{")
			for !p.is("}") {
				k := p.ident()
				for p.accept(".") {
					k += "." + p.ident()
				}
				p.expect(":")
				x.Keys = append(x.Keys, k)
				x.A = append(x.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			x.A = append(x.A, tags...)
			return x
		case "type":
			p.expect("(")
			x := p.mk("typ")
			x.S = p.typ()
			p.expect(")")
			return x
		case "is":
			p.expect("(")
			v := p.expr()
			p.expect(",")
			x := p.mk("is", v)
			x.S = p.typ()
			p.expect(")")
			return x
		case "box":
			// box(T, v): the interface value of type T holding v
			p.expect("(")
			ty := p.typ()
			p.expect(",")
			x := p.mk("box", p.args(")")...)
			x.S = ty
			return x
		case "wrapped":
			p.expect("(")
			return p.mk("wrapped", p.args(")")...)
		case "some":
			p.expect("(")
			x := p.mk("some")
			x.S = p.typ()
			p.expect(")")
			return x
		case "mapof":
			// mapof(T, s): a new map of type T, a set, with the keys s
			p.expect("(")
			ty := p.typ()
			p.expect(",")
			x := p.mk("mapof", p.args(")")...)
			x.S = ty
			return x
		case "newmap":
			// newmap(T): a new, empty map of type T
			p.expect("(")
			x := p.mk("mapof")
			x.S = p.typ()
			p.expect(")")
			return x
		case "zero":
			p.expect("(")
			x := p.mk("zero")
			x.S = p.typ()
			p.expect(")")
			return x
		case "match":
			x := p.mk("match", p.expr())
			p.expect("{")
			for !p.accept("}") {
				ty := "_"
				if !p.accept("_") {
					if p.accept("nil") {
						ty = "nil"
					} else if p.peek().k == tString {
						ty = "=" + p.next().s
					} else {
						ty = p.typ()
					}
				}
				b := ""
				if p.accept("as") {
					b = p.ident()
				}
				p.expect(":")
				x.Keys = append(x.Keys, ty)
				x.Bind = append(x.Bind, b)
				x.A = append(x.A, p.expr())
				if !p.accept(";") {
					p.expect("}")
					break
				}
			}
			return x
		}
		x := p.mk("ident")
		x.S = t.s
		return x
	case tPunct:
		switch t.s {
		case "(":
			x := p.expr()
			p.expect(")")
			return x
		case "[":
			return p.mk("seqlit", p.args("]")...)
		}
	}
	p.p--
	p.errf("unexpected %q", t.s)
	return nil
}

package drive

import (
	"bytes"
	"fmt"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"

	"github.com/go-latex/latex/verifharness/cs"
)

func isNil(n ast.Node) bool {
	switch n := n.(type) {
	case nil:
		return true
	case *ast.Macro:
		return n == nil
	case *ast.Ident:
		return n == nil
	case *ast.Arg:
		return n == nil
	case *ast.OptArg:
		return n == nil
	}
	return false
}

// dump lists a syntax tree; with positions if pos is set.
func (r *rec) dump(n ast.Node, pos bool) {
	if isNil(n) {
		r.add("nil")
		return
	}
	at := func(p token.Pos) {
		if pos {
			r.add(int(p))
		}
	}
	list := func(l []ast.Node) {
		r.add("<")
		for _, x := range l {
			r.dump(x, pos)
		}
		r.add(">")
	}
	switch n := n.(type) {
	case ast.List:
		r.add("List")
		list(n)
	case *ast.Macro:
		r.add("Macro")
		if n.Name == nil {
			r.add("no name")
		} else {
			r.add(n.Name.Name)
			at(n.Name.NamePos)
		}
		list(n.Args)
	case *ast.Arg:
		r.add("Arg")
		at(n.Lbrace)
		at(n.Rbrace)
		list(n.List)
	case *ast.OptArg:
		r.add("OptArg")
		at(n.Lbrack)
		at(n.Rbrack)
		list(n.List)
	case *ast.Ident:
		r.add("Ident", n.Name)
		at(n.NamePos)
	case *ast.MathExpr:
		r.add("Math", n.Delim)
		at(n.Left)
		at(n.Right)
		list(n.List)
	case *ast.Word:
		r.add("Word", n.Text)
		at(n.WordPos)
	case *ast.Literal:
		r.add("Literal", n.Text)
		at(n.LitPos)
	case *ast.Symbol:
		r.add("Symbol", n.Text)
		at(n.SymPos)
	case *ast.Sub:
		r.add("Sub")
		at(n.UnderPos)
		r.dump(n.Node, pos)
	case *ast.Sup:
		r.add("Sup")
		at(n.HatPos)
		r.dump(n.Node, pos)
	default:
		r.add(fmt.Sprintf("%T", n))
	}
}

func build(n *cs.N) ast.Node {
	list := func() ast.List {
		var l ast.List
		for _, c := range n.C {
			l = append(l, build(c))
		}
		return l
	}
	p := func(i int) token.Pos { return token.Pos(n.I[i]) }
	switch n.K {
	case "word":
		return &ast.Word{Text: n.S, WordPos: p(0)}
	case "lit":
		return &ast.Literal{Text: n.S, LitPos: p(0)}
	case "sym":
		return &ast.Symbol{Text: n.S, SymPos: p(0)}
	case "ident":
		return &ast.Ident{Name: n.S, NamePos: p(0)}
	case "list":
		return list()
	case "macro":
		return &ast.Macro{Name: &ast.Ident{Name: n.S, NamePos: p(0)}, Args: list()}
	case "arg":
		return &ast.Arg{Lbrace: p(0), Rbrace: p(1), List: list()}
	case "opt":
		return &ast.OptArg{Lbrack: p(0), Rbrack: p(1), List: list()}
	case "math":
		return &ast.MathExpr{Delim: n.S, Left: p(0), Right: p(1), List: list()}
	case "sub":
		return &ast.Sub{UnderPos: p(0), Node: build(n.C[0])}
	case "sup":
		return &ast.Sup{HatPos: p(0), Node: build(n.C[0])}
	}
	panic("harness: unknown node " + n.K)
}

func (r *rec) parse(src string) (n ast.Node, ok bool) {
	var err error
	if !r.try(func() { n, err = latex.ParseExpr(src) }) {
		return nil, false
	}
	if err != nil {
		Last = err.Error()
		r.add("error")
		if !isNil(n) {
			r.add("and a result")
		}
		return nil, false
	}
	if isNil(n) {
		if _, ok := n.(ast.List); !ok {
			r.add("neither result nor error")
			return nil, false
		}
	}
	return n, true
}

func runSource(r *rec, c *cs.Case) {
	src := c.S[0]
	switch c.P {
	case "C01":
		r.scan(src)
		if n, ok := r.parse(src); ok {
			r.dump(n, true)
		}
	case "C02", "C03", "C04":
		if n, ok := r.parse(src); ok {
			r.dump(n, c.P == "C04")
		}
	case "C05":
		if n, ok := r.parse(src); ok {
			r.spans(n)
		}
	case "C06":
		r.scanOnly(src)
		r.parse(src)
	case "C07":
		if _, ok := r.parse(src); ok {
			r.add("parsed")
		}
		r.typesetOutcome(src)
	case "C08":
		if n, ok := r.parse(src); ok {
			r.walks(n, c)
		}
	case "C09":
		if n, ok := r.parse(src); ok {
			r.print(n)
		}
	}
}

func runTree(r *rec, c *cs.Case) {
	n := build(c.T[0])
	switch c.P {
	case "C05":
		r.spans(n)
	case "C08":
		r.walks(n, c)
	case "C09":
		r.print(n)
		// a tree with a missing node
		i := c.I[0]
		switch i % 4 {
		case 1:
			r.print(ast.List{n, nil, n})
		case 3:
			r.print(&ast.Sub{Node: nil})
			r.print(&ast.Arg{List: ast.List{nil, n}})
		}
		r.print(nil)
	}
}

func (r *rec) print(n ast.Node) {
	r.try(func() {
		var buf bytes.Buffer
		ast.Print(&buf, n)
		r.add(buf.String())
	})
}

// spans reports Pos and End of every node.
func (r *rec) spans(n ast.Node) {
	if isNil(n) {
		return
	}
	r.try(func() { r.add(fmt.Sprintf("%T", n), int(n.Pos())) })
	r.try(func() { r.add(int(n.End())) })
	each := func(l []ast.Node) {
		for _, x := range l {
			r.spans(x)
		}
	}
	switch n := n.(type) {
	case ast.List:
		each(n)
	case *ast.Macro:
		if n.Name != nil {
			r.spans(n.Name)
		}
		each(n.Args)
	case *ast.Arg:
		each(n.List)
	case *ast.OptArg:
		each(n.List)
	case *ast.MathExpr:
		each(n.List)
	case *ast.Sub:
		r.spans(n.Node)
	case *ast.Sup:
		r.spans(n.Node)
	}
}

type walker struct {
	r    *rec
	id   int
	n    *int
	stop map[int]bool
}

func (w *walker) Visit(n ast.Node) ast.Visitor {
	k := *w.n
	*w.n++
	if n == nil {
		w.r.add("close", w.id)
		return nil
	}
	w.r.add("visit", w.id)
	w.r.one(n)
	if w.stop[k] {
		if k%2 == 0 {
			return nil
		}
		return &walker{w.r, w.id + 1, w.n, w.stop}
	}
	return w
}

// one reports a single node.
func (r *rec) one(n ast.Node) {
	switch n := n.(type) {
	case ast.List:
		r.add("List", len(n))
	case *ast.Macro:
		r.add("Macro", len(n.Args))
	case *ast.Ident:
		r.add("Ident", n.Name, int(n.NamePos))
	case *ast.Word:
		r.add("Word", n.Text, int(n.WordPos))
	case *ast.Literal:
		r.add("Lit", n.Text, int(n.LitPos))
	case *ast.Symbol:
		r.add("Sym", n.Text, int(n.SymPos))
	case *ast.Arg:
		r.add("Arg", int(n.Lbrace))
	case *ast.OptArg:
		r.add("Opt", int(n.Lbrack))
	case *ast.MathExpr:
		r.add("Math", int(n.Left))
	case *ast.Sub:
		r.add("Sub", int(n.UnderPos))
	case *ast.Sup:
		r.add("Sup", int(n.HatPos))
	default:
		r.add(fmt.Sprintf("%T", n))
	}
}

func (r *rec) walks(n ast.Node, c *cs.Case) {
	stop := map[int]bool{}
	for _, i := range c.I {
		stop[i] = true
	}
	r.try(func() {
		k := 0
		ast.Walk(&walker{r, 0, &k, stop}, n)
	})
	r.add("inspect")
	k := 0
	r.try(func() {
		ast.Inspect(n, func(n ast.Node) bool {
			k++
			if n == nil {
				r.add("close")
				return false
			}
			r.one(n)
			return !stop[k-1]
		})
	})
}

func runKinds(r *rec, c *cs.Case) {
	k := token.Kind(c.I[0])
	r.try(func() { r.add(k.String()) })
	r.try(func() { r.add(fmt.Sprint(k)) })
	t := token.Token{Kind: k, Pos: token.Pos(c.I[0]), Text: c.S[0]}
	r.try(func() { r.add(t.String(), fmt.Sprint(t)) })
	if c.I[0] == 0 {
		for _, k := range []token.Kind{token.Invalid, token.Macro, token.EmptyLine, token.Comment, token.Space, token.Word, token.Number, token.Symbol, token.Lbrace, token.Rbrace,
			token.Lbrack, token.Rbrack, token.Lparen, token.Rparen, token.Other, token.Verbatim, token.EOF} {
			r.try(func() { r.add(k.String()) })
		}
	}
}

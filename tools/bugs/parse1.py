PH = '''package latex_test

import (
	"bytes"
	"testing"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
)

func show(x string) string {
	n, err := latex.ParseExpr(x)
	if err != nil {
		return "error"
	}
	o := new(bytes.Buffer)
	ast.Print(o, n)
	return o.String()
}

'''
AH = '''package ast_test

import (
	"bytes"
	"testing"

	"github.com/go-latex/latex/ast"
)

var _ bytes.Buffer

'''
MH = '''package mtex_test

import (
	"math"
	"fmt"
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
)

var _ = math.Inf
var _ tex.Node
var _ drawtex.Canvas

type be struct {
	m   func(sym string, f font.Font, dpi float64, math bool) font.Metrics
	log []string
}

func (b *be) RenderGlyph(x, y float64, f font.Font, sym string, dpi float64) {}
func (b *be) RenderRectFilled(x1, y1, x2, y2 float64)                        {}
func (b *be) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return 0
}
func (b *be) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	b.log = append(b.log, fmt.Sprint(sym, " ", f.Type, " ", math))
	if b.m != nil {
		return b.m(sym, f, dpi, math)
	}
	return font.Metrics{Advance: f.Size, Width: f.Size, Height: 8, Iceberg: 6, XMax: 8, YMax: 6}
}
func (b *be) XHeight(f font.Font, dpi float64) float64            { return 4 }
func (b *be) UnderlineThickness(f font.Font, dpi float64) float64 {
	if b.m != nil {
		return b.m("rule", f, dpi, false).Height
	}
	return 1
}

func (b *be) asked(s string) bool {
	for _, l := range b.log {
		if l == s {
			return true
		}
	}
	return false
}

'''
TH = '''package ttf_test

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
)

func load(raw []byte) *sfnt.Font {
	f, err := sfnt.Parse(raw)
	if err != nil {
		panic(err)
	}
	return f
}

var (
	mono, reg, it, bold = load(gomono.TTF), load(goregular.TTF), load(goitalic.TTF), load(gobold.TTF)
)

var _ font.Font

func backend() (*ttf.Backend, *drawtex.Canvas) {
	c := drawtex.New()
	return ttf.NewFrom(c, &ttf.Fonts{Default: mono, Rm: reg, It: it, Bf: bold, BfIt: bold}), c
}

'''
BUGS = [
 dict(id="C01-tab-space", prop="C01", pkg=".", edits=[("scanner.go", '''		case ' ':
			s.next()''', '''		case ' ', '\\t':
			s.next()''')],
  needs="a backslash followed by a tab", breaks="the token claims the text backslash-blank, which is not what the source has",
  demo=PH+'''func TestDemo(t *testing.T) {
	if got := show("a\\\\\\tb"); got != "error" {
		t.Fatal(got)
	}
}
'''),
 dict(id="C02-group-of-group", prop="C02", pkg=".", edits=[("parser.go", '''	return lst
}''', '''	if len(lst) == 1 {
		if in, ok := lst[0].(ast.List); ok {
			return in
		}
	}
	return lst
}''')],
  needs="a brace group in math that holds nothing but another brace group", breaks="one of the two groups is lost",
  demo=PH+'''func TestDemo(t *testing.T) {
	if got := show("${{x}}$"); got != `ast.List{ast.MathExpr{List:ast.List{ast.List{ast.Word{"x"}}}}}` {
		t.Fatal(got)
	}
}
'''),
 dict(id="C03-nested-math", prop="C03", pkg=".", edits=[("parser.go", '''	defer func() {
		p.state = state
	}()''', '''	defer func() {
		if p.state == mathState {
			p.state = normalState
		}
	}()'''), ("parser.go", '''	state := p.state
	p.state = mathState
''', '''	p.state = mathState
''')],
  needs="a math expression inside the argument of a macro of another math expression, and blanks or a group after it", breaks="the mode after the inner expression is text, not math",
  demo=PH+'''func TestDemo(t *testing.T) {
	if got := show(`$\\frac{a$b$ c}{d}$`); got != `ast.List{ast.MathExpr{List:ast.Macro{"\\\\frac", Args:{ast.Word{"a"}, ast.MathExpr{List:ast.Word{"b"}}, ast.Word{"c"}}, {ast.Word{"d"}}}}}` {
		t.Fatal(got)
	}
}
'''),
 dict(id="C04-blank-before-optional", prop="C04", pkg=".", edits=[("parser.go", '''	nxt := p.s.sc.Peek()
	if nxt != '[' {''', '''	for p.s.sc.Peek() == ' ' {
		p.s.sc.Next()
	}
	nxt := p.s.sc.Peek()
	if nxt != '[' {''')],
  needs="a blank between a root and a bracket", breaks="the bracket does not follow immediately and is no argument",
  demo=PH+'''func TestDemo(t *testing.T) {
	if got := show(`$\\sqrt [3]{x}$`); got != "error" {
		t.Fatal(got)
	}
}
'''),
 dict(id="C05-word-runes", prop="C05", pkg="ast", edits=[("ast/ast.go", '''func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len(x.Text)) }''', '''func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len([]rune(x.Text))) }''')],
  needs="a word with a letter outside ASCII", breaks="the word's end is not a byte offset",
  demo=AH+'''func TestDemo(t *testing.T) {
	w := &ast.Word{WordPos: 3, Text: "h\\u00e9t\\u00e9"}
	if w.End() != 9 {
		t.Fatal(w.End())
	}
}
'''),
 dict(id="C07-stray-brace", prop="C07", pkg=".", edits=[("parser.go", '''	case token.Lparen, token.Rparen,
		token.Lbrack, token.Rbrack:
''', '''	case token.Lparen, token.Rparen,
		token.Lbrack, token.Rbrack, token.Rbrace:
''')],
  needs="a closing brace nothing opened", breaks="it is accepted as a symbol",
  demo=PH+'''func TestDemo(t *testing.T) {
	if got := show("$a$ }"); got != "error" {
		t.Fatal(got)
	}
	if got := show("$a}b$"); got != "error" {
		t.Fatal(got)
	}
}
'''),
 dict(id="C08-empty-list", prop="C08", pkg="ast", edits=[("ast/walk.go", '''	case List:
		for''', '''	case List:
		if len(n) == 0 {
			return
		}
		for''')],
  needs="an empty list in the tree", breaks="no closing call for it",
  demo=AH+'''func TestDemo(t *testing.T) {
	n, closed := 0, 0
	ast.Inspect(&ast.Sub{Node: ast.List{}}, func(x ast.Node) bool {
		if x == nil {
			closed++
		} else {
			n++
		}
		return true
	})
	if n != 2 || closed != 2 {
		t.Fatal(n, closed)
	}
}
'''),
 dict(id="C09-optional-comma", prop="C09", pkg="ast", edits=[("ast/ast.go", '''		fmt.Fprintf(o, "[")
		for i, n := range node.List {
			if i > 0 {''', '''		fmt.Fprintf(o, "[")
		for i, n := range node.List {
			if i > 1 {''')],
  needs="an optional argument with two elements", breaks="no separator between them",
  demo=AH+'''func TestDemo(t *testing.T) {
	o := new(bytes.Buffer)
	ast.Print(o, &ast.OptArg{List: ast.List{&ast.Word{Text: "a"}, &ast.Literal{Text: "2"}}})
	if o.String() != `[ast.Word{"a"}, ast.Lit{"2"}]` {
		t.Fatal(o.String())
	}
}
'''),
 dict(id="C20-word-bytes", prop="C20", pkg="mtex", edits=[("mtex/parser.go", '''		for _, x := range n.Text {
			nodes''', '''		for i := 0; i < len(n.Text); i++ {
			x := n.Text[i]
			nodes''')],
  needs="a word with a letter outside ASCII", breaks="one character per byte, not per letter",
  demo=MH+'''func TestDemo(t *testing.T) {
	b := &be{}
	n, err := mtex.Parse("\\u00e9t", 10, 72, b)
	if err != nil || n.Width() != 20 || !b.asked("\\u00e9 rm false") {
		t.Fatal(n, err, b.log)
	}
}
'''),
 dict(id="C20-index-in-math", prop="C20", pkg="mtex", edits=[("mtex/parser.go", '''		root = p.handleNode(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, math,
		)''', '''		root = p.handleNode(
			ast.List(macro.Args[0].(*ast.OptArg).List),
			state, false,
		)''')],
  needs="a symbol in the index of a root", breaks="the index is set as text",
  demo=MH+'''func TestDemo(t *testing.T) {
	b := &be{}
	_, err := mtex.Parse(`$\\sqrt[-]{x}$`, 10, 72, b)
	if err != nil || !b.asked("- it true") {
		t.Fatal(err, b.log)
	}
}
'''),
 dict(id="C21-axis-font", prop="C21", pkg="mtex", edits=[("mtex/parser.go", '''	fnt := state.Font
	fnt.Type = rcparams("mathtext.default").(string)
	metrics''', '''	fnt := state.Font
	metrics''')],
  needs="a fraction outside math with a font whose equals sign differs between roman and italic", breaks="the rule is not on the axis of the equals sign of the math font",
  demo=MH+'''func TestDemo(t *testing.T) {
	b := &be{}
	_, err := mtex.Parse(`\\frac{a}{b}`, 10, 72, b)
	if err != nil || !b.asked("= it true") {
		t.Fatal(err, b.log)
	}
}
'''),
 dict(id="C23-decimal-at-end", prop="C23", pkg="mtex", edits=[("mtex/parser.go", '''(pos < len(p.expr)-1 && isdigit(''', '''(pos < len(p.expr)-2 && isdigit(''')],
  needs="a number outside math, one decimal digit, at the very end of the expression", breaks="its decimal point is spaced",
  demo=MH+'''func TestDemo(t *testing.T) {
	b := &be{}
	n, err := mtex.Parse("1.5", 10, 72, b)
	if err != nil || n.Width() != 30 {
		t.Fatal(n.Width(), err)
	}
}
'''),
 dict(id="C24-whole-height", prop="C24", pkg="mtex", edits=[("mtex/render.go", '''math.Ceil(h+math.Max(d, 0))/72''', '''(math.Floor(h+math.Max(d, 0))+1)/72''')],
  needs="a box whose height and depth add up to a whole number of points", breaks="the page is one point too high",
  demo=MH+'''type ren struct{ h float64 }

func (r *ren) Render(w, h, dpi float64, c *drawtex.Canvas) error { r.h = h; return nil }

func TestDemo(t *testing.T) {
	r := &ren{h: -1}
	if err := mtex.Render(r, "", 10, 72, nil); err != nil || r.h != 0 {
		t.Fatal(err, r.h)
	}
}
'''),
 dict(id="C26-upper-rune", prop="C26", pkg="font/ttf", edits=[("font/ttf/ttf.go", '''!unicode.Is(unicode.L, idx)''', '''!unicode.In(idx, unicode.L, unicode.Mn)''')],
  needs="a combining mark in the italic face", breaks="something that is no letter is set in italics",
  demo=TH+'''func TestDemo(t *testing.T) {
	be, _ := backend()
	if m := be.Metrics(`\\widetilde`, font.Font{Name: "d", Type: "it", Size: 12}, 72, true); m.Slanted {
		t.Fatal(m)
	}
}
'''),
 dict(id="C31-regular-class", prop="C31", pkg="font/ttf", edits=[("font/ttf/ttf.go", '''be.fonts["regular"] = fnts.Rm''', '''be.fonts["regular"] = fnts.Default''')],
  needs="a font set whose default is not its roman face, and the class regular", breaks="the class is served from the wrong face",
  demo=TH+'''func TestDemo(t *testing.T) {
	be, c := backend()
	be.RenderGlyph(0, 0, font.Font{Name: "d", Type: "regular", Size: 12}, "x", 72)
	if c.Ops()[0].(drawtex.GlyphOp).Glyph.Font != reg {
		t.Fatal("wrong face")
	}
}
'''),
 dict(id="C19-negative-depth", prop="C19", pkg="mtex", edits=[("tex/box.go", '''	for _, v := range alts {
		state.Font.Name = v.font
''', '''	if depth < 0 {
		target = height
	}

	for _, v := range alts {
		state.Font.Name = v.font
''')],
  needs="a delimiter around a body that lies above the baseline", breaks="the delimiter is higher than requested",
  demo=MH+'''var _ = mtex.Parse

func TestDemo(t *testing.T) {
	b := &be{m: func(sym string, f font.Font, dpi float64, m bool) font.Metrics {
		return font.Metrics{Advance: f.Size, Width: f.Size, Height: f.Size, Iceberg: f.Size}
	}}
	l := tex.AutoHeightChar("(", 12, -4, tex.NewState(b, font.Font{Name: "default", Type: "rm", Size: 8}, 72), 0)
	if d := l.Depth() + l.Height(); d != 8 {
		t.Fatal(d)
	}
}
'''),
 dict(id="C30-rule-cache", prop="C30", pkg="mtex", edits=[("mtex/parser.go", '''var spaceWidth = map''', '''var thicks = map[float64]float64{}

var spaceWidth = map'''), ("mtex/parser.go", '''	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	height := body.Height() - body.Shift() + 3*thickness
''', '''	thickness, ok := thicks[state.Font.Size*state.DPI]
	if !ok {
		thickness = state.Backend().UnderlineThickness(state.Font, state.DPI)
		thicks[state.Font.Size*state.DPI] = thickness
	}
	height := body.Height() - body.Shift() + 3*thickness
''')],
  needs="two expressions with overlines typeset at the same size with different backends", breaks="the second gets the rule of the first",
  demo=MH+'''func TestDemo(t *testing.T) {
	var hs [2]float64
	for k := range hs {
		b := &be{m: func(sym string, f font.Font, dpi float64, m bool) font.Metrics {
			if sym == "rule" {
				return font.Metrics{Height: float64(k + 1)}
			}
			return font.Metrics{Advance: 5, Width: 5, Height: 8}
		}}
		n, err := mtex.Parse(`$\\overline{a}$`, 10, 72, b)
		if err != nil {
			t.Fatal(n, err)
		}
		hs[k] = n.Height()
	}
	if hs[0] == hs[1] {
		t.Fatal(hs)
	}
}
'''),
]

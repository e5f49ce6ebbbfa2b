package drive

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/gomonobold"
	"golang.org/x/image/font/gofont/gomonoitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"
	"golang.org/x/image/font/sfnt"

	"github.com/go-latex/latex"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/tex2unicode"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"

	"github.com/go-latex/latex/verifharness/cs"
)

var (
	facesOnce sync.Once
	faces     []*sfnt.Font
)

func face(i int) *sfnt.Font {
	facesOnce.Do(func() {
		for _, raw := range [][]byte{goregular.TTF, goitalic.TTF, gobold.TTF, gobolditalic.TTF, gomono.TTF, gomonobold.TTF, gomonoitalic.TTF, gosmallcaps.TTF} {
			ft, err := sfnt.Parse(raw)
			if err != nil {
				panic(err)
			}
			faces = append(faces, ft)
		}
	})
	return faces[i%len(faces)]
}

func family(i int, is []int) *ttf.Fonts {
	switch i {
	case 1:
		return lm.Fonts()
	case 2:
		return liberation.Fonts()
	case 3:
		f := func(k, d int) *sfnt.Font {
			if k < len(is) {
				return face(is[k])
			}
			return face(d)
		}
		return &ttf.Fonts{Default: f(0, 4), Rm: f(1, 0), It: f(2, 1), Bf: f(3, 2), BfIt: f(4, 3)}
	}
	return nil
}

func backend(c *drawtex.Canvas, i int, is []int) *ttf.Backend {
	if i == 0 {
		return ttf.New(c)
	}
	return ttf.NewFrom(c, family(i, is))
}

func faceName(f *sfnt.Font) string {
	if f == nil {
		return "no face"
	}
	var buf sfnt.Buffer
	s, err := f.Name(&buf, sfnt.NameIDFull)
	if err != nil {
		return "error"
	}
	p, _ := f.Name(&buf, sfnt.NameIDPostScript)
	return s + "/" + p
}

func (r *rec) metrics(m font.Metrics) {
	r.add(m.Advance, m.Height, m.Width, m.XMin, m.XMax, m.YMin, m.YMax, m.Iceberg, m.Slanted)
}

func (r *rec) ops(c *drawtex.Canvas) {
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			g := op.Glyph
			r.add("glyph", op.X, op.Y, g.Symbol, int(g.Num), g.Size, g.Offset, g.Postscript, faceName(g.Font))
			r.metrics(g.Metrics)
		case drawtex.RectOp:
			r.add("rect", op.X1, op.Y1, op.X2, op.Y2)
		default:
			r.add(fmt.Sprintf("%T", op))
		}
	}
}

type fakeRenderer struct {
	r   *rec
	err error
}

func (f *fakeRenderer) Render(w, h, dpi float64, c *drawtex.Canvas) error {
	f.r.add("render", w, h, dpi)
	f.r.ops(c)
	return f.err
}

func runRender(r *rec, c *cs.Case) {
	ren := &fakeRenderer{r: r}
	if c.I[1] == 0 {
		ren.err = errors.New("no paper")
	}
	r.try(func() {
		err := mtex.Render(ren, c.S[0], c.F[0], c.F[1], family(c.I[0], nil))
		r.add(err != nil)
		if ren.err != nil {
			r.add(errors.Is(err, ren.err))
		}
	})
}

func runMetrics(r *rec, c *cs.Case) {
	cnv := drawtex.New()
	var be *ttf.Backend
	if !r.try(func() { be = backend(cnv, c.I[0], nil) }) {
		return
	}
	for _, q := range c.T {
		f := func(i int) font.Font { return font.Font{Name: q.S, Type: q.C[i].K, Size: q.C[i].F[0]} }
		r.try(func() {
			switch q.K {
			case "metrics":
				r.metrics(be.Metrics(q.C[0].S, f(0), q.F[0], q.B))
			case "kern":
				r.add(be.Kern(f(0), q.C[0].S, f(1), q.C[1].S, q.F[0]))
				g := f(1)
				g.Name += "x"
				r.add(be.Kern(f(0), q.C[0].S, g, q.C[1].S, q.F[0]))
			case "ul":
				r.add(be.UnderlineThickness(f(0), q.F[0]))
			case "xh":
				r.add(be.XHeight(f(0), q.F[0]))
			case "glyph":
				be.RenderGlyph(1, 2, f(0), q.C[0].S, q.F[0])
			}
		})
	}
	r.ops(cnv)
}

func runSymbol(r *rec, c *cs.Case) {
	s := c.S[0]
	r.try(func() { r.add(int(tex2unicode.Index(s, true))) })
	r.try(func() { r.add(int(tex2unicode.Index(s, false))) })
	r.add(tex2unicode.HasSymbol(s))
	if len(s) > 0 {
		r.add(tex2unicode.HasSymbol(s[1:]))
	}
	if s == `\alpha` {
		l := tex2unicode.Symbols()
		sort.Strings(l)
		r.add(len(l), fmt.Sprintf("%q", l))
	}
	for _, ty := range []string{"default", "regular", "rm", "it", "bf"} {
		cnv := drawtex.New()
		be := backend(cnv, c.I[1]+1, nil)
		f := font.Font{Name: "default", Type: ty, Size: c.F[0]}
		r.try(func() { r.metrics(be.Metrics(s, f, c.F[1], true)) })
		r.try(func() { be.RenderGlyph(c.F[2], c.F[3], f, s, c.F[1]) })
		r.ops(cnv)
		// in text, on a backend of its own
		be = backend(drawtex.New(), c.I[1]+1, nil)
		r.try(func() { r.metrics(be.Metrics(s, f, c.F[1], false)) })
	}
}

type failing struct{ n int }

var errFull = errors.New("disk full")

func (f *failing) Write(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errFull
	}
	f.n--
	return len(p), nil
}

func runCanvas(r *rec, c *cs.Case) {
	cnv := drawtex.New()
	other := drawtex.New()
	var want []drawtex.Op
	for i, t := range c.T {
		switch t.K {
		case "rect":
			cnv.RenderRectFilled(t.F[0], t.F[1], t.F[2], t.F[3])
			want = append(want, drawtex.RectOp{X1: t.F[0], Y1: t.F[1], X2: t.F[2], Y2: t.F[3]})
		case "glyph":
			g := drawtex.Glyph{Font: face(t.I[0]), Size: t.F[2], Postscript: fmt.Sprint("ps", t.I[1]), Symbol: t.S, Num: sfnt.GlyphIndex(t.I[1]), Offset: t.F[3],
				Metrics: font.Metrics{Advance: t.F[4], Height: t.F[5], Width: 3, XMin: 1, YMax: 4, Slanted: t.I[1]%2 == 0}}
			cnv.RenderGlyph(t.F[0], t.F[1], g)
			want = append(want, drawtex.GlyphOp{X: t.F[0], Y: t.F[1], Glyph: g})
		}
		if i%2 == 0 {
			other.RenderRectFilled(9, 9, 9, 9)
		}
	}
	same := len(cnv.Ops()) == len(want)
	for i, op := range cnv.Ops() {
		same = same && i < len(want) && op == want[i]
	}
	r.add("recorded", same)
	r.ops(cnv)
	r.try(func() {
		var buf bytes.Buffer
		err := drawimg.NewRenderer(&buf).Render(c.F[0], c.F[1], c.F[2], cnv)
		r.add("png", err != nil, h(buf.String()))
	})
	r.try(func() {
		err := drawimg.NewRenderer(&failing{c.I[0] / 2}).Render(c.F[0], c.F[1], c.F[2], cnv)
		r.add("failing", errors.Is(err, errFull))
	})
	if c.I[0] < 2 {
		dir, err := os.MkdirTemp("", "verif-pdf")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		r.try(func() {
			name := filepath.Join(dir, "a.pdf")
			err := drawpdf.Write(name, 72*c.F[0], 72*c.F[1], cnv)
			r.add("pdf", err != nil)
			raw, _ := os.ReadFile(name)
			r.add(bytes.HasPrefix(raw, []byte("%PDF")))
		})
		r.try(func() {
			err := drawpdf.Write(filepath.Join(dir, "none", "a.pdf"), 72*c.F[0], 72*c.F[1], cnv)
			r.add("pdf", err != nil)
		})
	}
	r.add("recorded", len(cnv.Ops()) == len(want))
}

func runSets(r *rec, c *cs.Case) {
	r.try(func() {
		var sets []symbols.Set
		for _, t := range c.T {
			var vs []string
			for _, x := range t.C {
				vs = append(vs, x.S)
			}
			sets = append(sets, symbols.NewSet(vs...))
		}
		u := symbols.UnionOf(sets...)
		show := func(s symbols.Set) {
			r.add(fmt.Sprintf("%q", s.Keys()))
			for _, x := range c.S {
				r.add(s.Has(x))
			}
		}
		for _, s := range sets {
			show(s)
		}
		show(u)
		u["only in the union"] = struct{}{}
		for _, s := range sets {
			show(s)
		}
		for _, x := range c.S {
			r.add(symbols.IsSpaced(x), symbols.BinaryOperators.Has(x), symbols.RelationSymbols.Has(x), symbols.ArrowSymbols.Has(x), symbols.SpacedSymbols.Has(x),
				symbols.PunctuationSymbols.Has(x), symbols.FunctionNames.Has(x), symbols.LeftDelim.Has(x))
		}
	})
}

func (r *rec) tables() {
	for _, s := range []symbols.Set{symbols.AmbiDelim, symbols.ArrowSymbols, symbols.BinaryOperators, symbols.DropSubSymbols, symbols.FontNames, symbols.FunctionNames,
		symbols.LeftDelim, symbols.OverUnderFunctions, symbols.OverUnderSymbols, symbols.PunctuationSymbols, symbols.RelationSymbols, symbols.RightDelim, symbols.SpacedSymbols} {
		r.add(int(h(fmt.Sprintf("%q", s.Keys())) >> 1))
	}
	r.add(fmt.Sprintf("%+v", tex.DefaultFontConstants))
	l := tex2unicode.Symbols()
	sort.Strings(l)
	x := uint64(0)
	for _, s := range l {
		x = x*31 + h(s, tex2unicode.Index(`\`+s, true))
	}
	r.add(int(x >> 1))
	for _, fs := range []*ttf.Fonts{lm.Fonts(), liberation.Fonts()} {
		for _, f := range []*sfnt.Font{fs.Default, fs.Rm, fs.It, fs.Bf, fs.BfIt} {
			r.add(faceName(f))
		}
	}
}

// once runs one expression through everything.
func (r *rec) once(c *cs.Case, s string) {
	if n, ok := r.parse(s); ok {
		r.dump(n, true)
	}
	f := &fake{ops: r}
	var n tex.Node
	var err error
	if r.try(func() { n, err = mtex.Parse(s, c.F[0], 72, f) }) && r.outcome(n, err) {
		r.try(func() {
			r.box(n)
			var ship tex.Ship
			ship.Call(0, 0, n.(tex.Tree))
		})
	}
	r.try(func() {
		err := mtex.Render(&fakeRenderer{r: r}, s, c.F[0], 72, family(c.I[0], nil))
		r.add(err != nil)
	})
}

func same(a, b cs.Obs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runMany(r *rec, c *cs.Case) {
	var seq []cs.Obs
	for _, s := range c.S {
		q := &rec{}
		q.once(c, s)
		seq = append(seq, q.o)
		r.o = append(r.o, q.o...)
		_, _ = latex.ParseExpr(s)
	}
	// again, the other way round
	for i := len(c.S) - 1; i >= 0; i-- {
		q := &rec{}
		q.once(c, c.S[i])
		r.add("same again", same(q.o, seq[i]))
	}
	if c.I[1] == 0 {
		// concurrently
		var wg sync.WaitGroup
		out := make([]bool, 8)
		for g := range out {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				i := g % len(c.S)
				q := &rec{}
				q.once(c, c.S[i])
				out[g] = same(q.o, seq[i])
			}(g)
		}
		wg.Wait()
		for _, ok := range out {
			r.add("same concurrently", ok)
		}
	}
	r.tables()
}

func runFonts(r *rec, c *cs.Case) {
	r.try(func() {
		fs := family(c.I[0], c.I[2:])
		if fs != nil {
			gs := family(c.I[0], c.I[2:])
			r.add(fs == gs || c.I[0] == 3, *fs == *gs)
			for _, f := range []*sfnt.Font{fs.Default, fs.Rm, fs.It, fs.Bf, fs.BfIt} {
				r.add(faceName(f))
			}
			r.add(fs.Default == fs.Rm)
		}
		cnv := drawtex.New()
		be := backend(cnv, c.I[0], c.I[2:])
		for _, ty := range []string{"default", "regular", "rm", "it", "bf"} {
			f := font.Font{Name: "default", Type: ty, Size: c.F[0]}
			r.metrics(be.Metrics(c.S[0], f, c.F[1], true))
			r.add(be.XHeight(f, c.F[1]))
			be.RenderGlyph(0, 0, f, c.S[0], c.F[1])
		}
		r.ops(cnv)
	})
}

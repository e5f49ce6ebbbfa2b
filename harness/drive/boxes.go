package drive

import (
	"fmt"
	"hash/fnv"
	"math"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"

	"github.com/go-latex/latex/verifharness/cs"
)

// fake is a backend whose metrics are a fixed function of what is asked,
// multiples of 1/1024 so that sums are exact.
type fake struct{ ops *rec }

func h(xs ...any) uint64 {
	f := fnv.New64a()
	for _, x := range xs {
		fmt.Fprintf(f, "%v\x00", x)
	}
	v := f.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	return v
}

func (f *fake) Metrics(symbol string, ft font.Font, dpi float64, math bool) font.Metrics {
	k := h(symbol, ft.Name, ft.Type, dpi, math)
	d := func(i uint, lo, hi int) float64 {
		return (float64(lo) + float64((k>>(i*7))%128)*float64(hi-lo)/128) / 64 * ft.Size / 4
	}
	m := font.Metrics{
		Width: d(0, 8, 40), Height: d(1, 8, 48), Advance: d(2, 8, 48),
		XMin: d(3, -4, 4), XMax: d(4, 4, 40), YMin: d(5, -16, 4), YMax: d(6, 8, 40), Iceberg: d(7, 0, 40),
	}
	switch k % 5 {
	case 0:
		m.Advance = m.Width
	case 1:
		m.Height = m.Iceberg
	}
	return m
}

func (f *fake) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	k := h(f1.Name, f1.Type, f1.Size, s1, f2.Name, f2.Type, f2.Size, s2, dpi)
	switch k % 4 {
	case 0:
		return 0
	case 1: // cancels the bearing
		m := f.Metrics(s1, f1, dpi, true)
		return m.Width - m.Advance
	}
	return (float64(k>>8%64) - 32) / 64
}

func (f *fake) XHeight(ft font.Font, dpi float64) float64 {
	return float64(1+h("x", ft.Name, ft.Type, dpi)%8) / 16 * ft.Size
}

func (f *fake) UnderlineThickness(ft font.Font, dpi float64) float64 {
	return float64(1+h("u", ft.Name, ft.Type, dpi)%8) / 64 * ft.Size
}

func (f *fake) RenderGlyph(x, y float64, ft font.Font, symbol string, dpi float64) {
	if f.ops != nil {
		f.ops.add("glyph", x, y, ft.Name, ft.Type, ft.Size, symbol, dpi)
	}
}

func (f *fake) RenderRectFilled(x1, y1, x2, y2 float64) {
	if f.ops != nil {
		f.ops.add("rect", x1, y1, x2, y2)
	}
}

var _ font.Backend = (*fake)(nil)

var texFonts = []font.Font{
	{Name: "default", Type: "rm", Size: 12}, {Name: "default", Type: "it", Size: 12}, {Name: "default", Type: "rm", Size: 8},
	{Name: "it", Type: "it", Size: 10}, {Name: "bf", Type: "bf", Size: 12}, {Name: "", Type: "rm", Size: 12},
}

func (f *fake) state(i int) tex.State { return tex.NewState(f, texFonts[i], 72) }

func fl(v float64) float64 {
	if v >= 1e300 {
		return math.Inf(+1)
	}
	return v
}

func (f *fake) nodes(cs []*cs.N) []tex.Node {
	var o []tex.Node
	for _, c := range cs {
		if c.K == "same" { // a node that is there already
			if len(o) > 0 {
				o = append(o, o[len(o)-1])
			}
			continue
		}
		o = append(o, f.node(c))
	}
	return o
}

func (f *fake) node(n *cs.N) tex.Node {
	switch n.K {
	case "char":
		return tex.NewChar(n.S, f.state(n.I[0]), n.B)
	case "accent":
		return tex.NewAccent(n.S, f.state(n.I[0]), n.B)
	case "kern":
		return tex.NewKern(n.F[0])
	case "glue":
		return tex.NewGlue(n.S)
	case "rule":
		return tex.NewRule(fl(n.F[0]), fl(n.F[1]), fl(n.F[2]), f.state(0))
	case "hbox":
		return tex.HBox(n.F[0])
	case "vbox":
		return tex.VBox(n.F[0], n.F[1])
	case "hrule":
		return tex.HRule(f.state(n.I[0]), n.F[0])
	case "vrule":
		return tex.VRule(f.state(n.I[0]))
	case "auto":
		return tex.AutoHeightChar(n.S, n.F[0], n.F[1], f.state(n.I[0]), n.F[2])
	case "hcentered":
		return tex.HCentered(f.nodes(n.C))
	case "list":
		return tex.ListOf(f.nodes(n.C))
	case "cluster":
		return &tex.SubSuperCluster{HList: tex.HListOf(f.nodes(n.C), true)}
	case "hlist":
		l := tex.HListOf(f.nodes(n.C), n.B)
		for i, a := range n.I {
			l.HPack(n.F[2*i], a == 1)
		}
		return l
	case "vlist", "vcentered":
		var l *tex.VList
		if n.K == "vlist" {
			l = tex.VListOf(f.nodes(n.C))
		} else {
			l = tex.VCentered(f.nodes(n.C))
		}
		for i, a := range n.I {
			l.VPack(n.F[2*i], a == 1, fl(n.F[2*i+1]))
		}
		if n.B {
			l.SetShift(n.F[len(n.F)-1])
		}
		return l
	}
	panic("harness: unknown box " + n.K)
}

func (r *rec) dims(n tex.Node) { r.add(n.Width(), n.Height(), n.Depth()) }

func (r *rec) glue(t tex.Tree) {
	r.add("glue", t.GlueSign(), t.GlueOrder())
	if t.GlueSign() != 0 {
		r.add(t.GlueSet())
	}
}

// box reports a box tree.
func (r *rec) box(n tex.Node) {
	if n == nil {
		r.add("nil")
		return
	}
	r.add(kind(n))
	r.dims(n)
	switch n := n.(type) {
	case *tex.Char:
		r.add(n.String())
	case *tex.Accent:
		r.add(n.String())
	case *tex.HList:
		r.glue(n)
		r.add(n.Shift())
		r.boxes(n.Nodes())
	case *tex.VList:
		r.glue(n)
		r.boxes(n.Nodes())
	case *tex.List:
		r.glue(n)
		r.boxes(n.Nodes())
	case *tex.SubSuperCluster:
		r.box(n.HList)
	case *tex.Glue:
		r.gluePar(n)
	}
}

// kind names the type of a node, without its package.
func kind(n tex.Node) string {
	switch n.(type) {
	case *tex.Box:
		return "Box"
	case *tex.Char:
		return "Char"
	case *tex.Accent:
		return "Accent"
	case *tex.List:
		return "List"
	case *tex.HList:
		return "HList"
	case *tex.VList:
		return "VList"
	case *tex.Rule:
		return "Rule"
	case *tex.Glue:
		return "Glue"
	case *tex.Kern:
		return "Kern"
	case *tex.SubSuperCluster:
		return "SubSuperCluster"
	case nil:
		return "nil"
	}
	return "other"
}

func (r *rec) boxes(ns []tex.Node) {
	r.add("<")
	for _, n := range ns {
		r.box(n)
	}
	r.add(">")
}

// gluePar makes the stretch and shrink of a glue visible.
func (r *rec) gluePar(g *tex.Glue) {
	for _, w := range []float64{64, -64} {
		l := tex.HListOf([]tex.Node{g}, false)
		l.HPack(w, true)
		r.glue(l)
	}
}

func runPack(r *rec, c *cs.Case) {
	f := &fake{}
	r.try(func() {
		n := f.node(c.T[0])
		t, ok := n.(tex.Tree)
		if !ok {
			r.add("not a tree")
			return
		}
		r.dims(n)
		if c.K == "glue" || c.P == "C12" || c.P == "C11" { // the glue shows the natural height
			r.glue(t)
		}
		// inner lists too
		for _, x := range t.Nodes() {
			if t, ok := x.(tex.Tree); ok {
				r.dims(t)
				if c.P == "C12" {
					r.glue(t)
				}
			}
		}
	})
}

func runKern(r *rec, c *cs.Case) {
	f := &fake{}
	r.try(func() {
		ns := f.nodes(c.T[0].C)
		l := tex.HListOf(ns, c.T[0].B)
		j := 0
		for _, x := range l.Nodes() {
			for i, y := range ns {
				if i >= j && x == y {
					r.add("element", i)
					j = i + 1
					goto next
				}
			}
			r.add(kind(x), x.Width())
		next:
		}
		for i, x := range ns {
			r.add(x.Kerning(nil), x.Kerning(ns[(i+1)%len(ns)]))
		}
	})
}

func (r *rec) deep(n tex.Node, f *fake) {
	r.box(n)
	switch n := n.(type) {
	case *tex.Char:
		n.Render(1, 2)
	case *tex.Accent:
		n.Render(1, 2)
	case *tex.HList:
		for _, x := range n.Nodes() {
			r.deep(x, f)
		}
	case *tex.VList:
		for _, x := range n.Nodes() {
			r.deep(x, f)
		}
	case *tex.SubSuperCluster:
		r.deep(n.HList, f)
	}
}

func runSize(r *rec, c *cs.Case) {
	f := &fake{ops: r}
	r.try(func() {
		n := f.node(c.T[0])
		for _, d := range c.I {
			if d > 0 {
				n.Shrink()
			} else {
				n.Grow()
			}
			r.deep(n, f)
		}
	})
	// the shift of a list shows when it is packed, the glue setting when shipped
	r.try(func() {
		n := f.node(c.T[0])
		for _, d := range c.I {
			if d > 0 {
				n.Shrink()
			} else {
				n.Grow()
			}
		}
		l := tex.HListOf([]tex.Node{n}, false)
		r.dims(l)
	})
}

func runShip(r *rec, c *cs.Case) {
	f := &fake{ops: r}
	r.try(func() {
		n := f.node(c.T[0])
		if len(c.I) > 0 {
			// a character directly in a vertical list: the list is packed
			// before the character gets there
			l := tex.VListOf([]tex.Node{tex.HListOf(nil, false)})
			l.Nodes()[0] = tex.NewChar("a", f.state(0), false)
			n = tex.HListOf([]tex.Node{n, l}, false)
		}
		t := n.(tex.Tree)
		var ship tex.Ship
		ship.Call(c.F[0], c.F[1], t)
		r.add("again")
		ship.Call(c.F[1], c.F[0], t)
	})
}

func runChars(r *rec, c *cs.Case) {
	f := &fake{ops: r}
	r.try(func() {
		ns := f.nodes(c.T)
		for i, n := range ns {
			r.box(n)
			n.Render(c.F[0], c.F[1])
			r.add(n.Kerning(ns[(i+1)%len(ns)]), n.Kerning(nil))
		}
	})
}

func runAuto(r *rec, c *cs.Case) {
	f := &fake{ops: r}
	r.try(func() {
		l := tex.AutoHeightChar(c.S[0], c.F[0], c.F[1], f.state(c.I[0]), c.F[2])
		r.box(l)
		var ship tex.Ship
		ship.Call(c.F[3], c.F[4], tex.HListOf([]tex.Node{l}, false))
	})
}

func runLists(r *rec, c *cs.Case) {
	f := &fake{}
	r.try(func() {
		in := f.nodes(c.T)
		mark := tex.NewKern(77)
		buf := make([]tex.Node, len(in)+c.I[0])
		copy(buf, in)
		for i := len(in); i < len(buf); i++ {
			buf[i] = mark
		}
		arg := buf[:len(in)]
		var t tex.Tree
		switch c.K {
		case "ListOf":
			t = tex.ListOf(arg)
		case "HListOf":
			t = tex.HListOf(arg, false)
		case "HListOf-kern":
			t = tex.HListOf(arg, true)
		case "VListOf":
			t = tex.VListOf(arg)
		case "HCentered":
			t = tex.HCentered(arg)
		case "VCentered":
			t = tex.VCentered(arg)
		}
		show := func() {
			j := 0
			for _, x := range t.Nodes() {
				for i, y := range in {
					if i >= j && x == y {
						r.add("element", i)
						j = i + 1
						goto next
					}
				}
				r.add(kind(x), x.Width())
				if g, ok := x.(*tex.Glue); ok {
					r.gluePar(g)
				}
			next:
			}
			r.add(".")
		}
		untouched := func() {
			ok := true
			for i, x := range in {
				ok = ok && arg[i] == x
			}
			for i := len(in); i < len(buf); i++ {
				ok = ok && buf[i] == tex.Node(mark)
			}
			r.add("untouched", ok)
		}
		show()
		untouched()
		for i := range t.Nodes() {
			old := t.Nodes()[i]
			t.Nodes()[i] = mark
			untouched()
			t.Nodes()[i] = old
		}
		for i := range arg {
			arg[i] = mark
		}
		show()
	})
}

func (r *rec) typesetOutcome(src string) {
	f := &fake{}
	var n tex.Node
	var err error
	if !r.try(func() { n, err = mtex.Parse(src, 12, 72, f) }) {
		return
	}
	r.outcome(n, err)
}

func (r *rec) outcome(n tex.Node, err error) bool {
	switch {
	case err != nil && n == nil:
		Last = err.Error()
		r.add("error")
	case err != nil:
		r.add("error and result")
	case n == nil:
		r.add("neither result nor error")
	default:
		r.add("typeset")
		return true
	}
	return false
}

func runTypeset(r *rec, c *cs.Case) {
	f := &fake{ops: r}
	var n tex.Node
	var err error
	if !r.try(func() { n, err = mtex.Parse(c.S[0], c.F[0], c.F[1], f) }) {
		return
	}
	if !r.outcome(n, err) {
		return
	}
	r.try(func() {
		r.box(n)
		var ship tex.Ship
		ship.Call(0, 0, n.(tex.Tree))
	})
}

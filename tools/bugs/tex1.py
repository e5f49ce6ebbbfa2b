HEAD = '''package tex_test

import (
	"math"
	"testing"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

var _ = math.Inf
var _ font.Font

type be struct {
	m     func(sym string, f font.Font, dpi float64, math bool) font.Metrics
	k     func(f1 font.Font, s1 string, f2 font.Font, s2 string) float64
	glyph []float64
	rects []float64
}

func (b *be) RenderGlyph(x, y float64, f font.Font, sym string, dpi float64) {
	b.glyph = append(b.glyph, x, y)
}
func (b *be) RenderRectFilled(x1, y1, x2, y2 float64) { b.rects = append(b.rects, x1, y1, x2, y2) }
func (b *be) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	if b.k == nil {
		return 0
	}
	return b.k(f1, s1, f2, s2)
}
func (b *be) Metrics(sym string, f font.Font, dpi float64, math bool) font.Metrics {
	if b.m == nil {
		return font.Metrics{Advance: 8, Width: 8, Height: 8, Iceberg: 6, XMax: 8, YMax: 6}
	}
	return b.m(sym, f, dpi, math)
}
func (b *be) XHeight(f font.Font, dpi float64) float64            { return 4 }
func (b *be) UnderlineThickness(f font.Font, dpi float64) float64 { return 1 }

func state(b *be) tex.State {
	return tex.NewState(b, font.Font{Name: "default", Type: "rm", Size: 12}, 72)
}

'''
B = "tex/box.go"
BUGS = [
 dict(id="C10-running-and", prop="C10", pkg="tex", edits=[(B, '''	*width += box.width
	if math.IsInf(box.height, 0) || math.IsInf(box.depth, 0) {''', '''	*width += box.width
	if math.IsInf(box.height, 0) && math.IsInf(box.depth, 0) {''')],
  needs="a rule in a horizontal list with only one of height and depth running", breaks="the running dimension counts, so the packed list has infinite height or depth",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{}
	r := tex.NewRule(3, 5, math.Inf(1), state(b))
	l := tex.HListOf([]tex.Node{tex.HBox(4), r}, false)
	if l.Width() != 7 || l.Height() != 0 || l.Depth() != 0 {
		t.Fatal(l.Width(), l.Height(), l.Depth())
	}
}
'''),
 dict(id="C10-negative-natural", prop="C10", pkg="tex", edits=[(B, '''	if additional {
		width += x
	}
	lst.lst.box.width = width''', '''	if additional && (x > 0 || width == 0) {
		width += x
	}
	lst.lst.box.width = width''')],
  needs="additional packing by a non-zero amount of a list whose natural width is negative", breaks="the width is not the natural width plus the requested amount",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	l := tex.HListOf([]tex.Node{tex.NewKern(-5), tex.HBox(2)}, false)
	l.HPack(10, true)
	if l.Width() != 7 {
		t.Fatal(l.Width())
	}
}
'''),
 dict(id="C11-zero-kern", prop="C11", pkg="tex", edits=[(B, '''	*height += *depth + k.width
	*depth = 0''', '''	if k.width == 0 {
		return
	}
	*height += *depth + k.width
	*depth = 0''')],
  needs="a kern of width zero at the end of a vertical list, after a box with depth", breaks="the depth of the list is that of the box before the kern instead of zero",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	l := tex.VListOf([]tex.Node{tex.VBox(3, 2), tex.NewKern(0)})
	if l.Height() != 5 || l.Depth() != 0 {
		t.Fatal(l.Height(), l.Depth())
	}
}
'''),
 dict(id="C11-limit-height", prop="C11", pkg="tex", edits=[(B, '''		x += d - l
		lst.lst.box.depth = l''', '''		if additional {
			x += d - l
		}
		lst.lst.box.depth = l''')],
  needs="packing to an exact height with a depth limit below the depth of the last child, and glue in the list", breaks="the excess depth is not moved into the natural height, so the glue is stretched too much",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	l := tex.VListOf([]tex.Node{tex.NewGlue("fill"), tex.VBox(3, 4)})
	l.VPack(10, false, 1)
	if l.Height() != 10 || l.Depth() != 1 || l.GlueSet() != 4 {
		t.Fatal(l.Height(), l.Depth(), l.GlueSet())
	}
}
'''),
 dict(id="C12-positive-totals", prop="C12", pkg="tex", edits=[(B, '''		if totals[i] != 0 {
			return i''', '''		if totals[i] > 0 {
			return i''')],
  needs="a list that must shrink whose highest order of shrink adds up to a negative total (infinitely shrinkable glue)", breaks="the order of the glue setting is not the highest one with glue, and the list is not shrunk",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	l := tex.HListOf([]tex.Node{tex.NewGlue("ss"), tex.HBox(10), tex.NewGlue("ss")}, false)
	l.HPack(4, false)
	if l.GlueOrder() != 1 || l.GlueSign() != -1 || l.GlueSet() != 3 {
		t.Fatal(l.GlueOrder(), l.GlueSign(), l.GlueSet())
	}
}
'''),
 dict(id="C13-accent-font", prop="C13", pkg="tex", edits=[(B, '''kern = c.be.Kern(c.font, c.c, next.char.font, next.char.c, c.dpi)''', '''kern = c.be.Kern(c.font, c.c, c.font, next.char.c, c.dpi)''')],
  needs="a character followed by an accent set in another font", breaks="the kerning is looked up for the accent in the character's font",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{k: func(f1 font.Font, s1 string, f2 font.Font, s2 string) float64 { return f2.Size }}
	st := state(b)
	c := tex.NewChar("a", st, false)
	st.Font.Size = 20
	a := tex.NewAccent("b", st, false)
	if k := c.Kerning(a); k != 20 {
		t.Fatal(k)
	}
}
'''),
 dict(id="C13-same-twice", prop="C13", pkg="tex", edits=[(B, """		if i < n-1 {
			next = lst.lst.children[i+1]
		}
		dist""", """		if i < n-1 && lst.lst.children[i+1] != elem {
			next = lst.lst.children[i+1]
		}
		dist""")],
  needs="a list in which the same character node stands twice in a row", breaks="the first is not kerned against the second",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{k: func(f1 font.Font, s1 string, f2 font.Font, s2 string) float64 { return 2 }}
	c := tex.NewChar("a", state(b), false)
	l := tex.HListOf([]tex.Node{c, c}, true)
	if len(l.Nodes()) != 3 || l.Width() != 18 {
		t.Fatal(len(l.Nodes()), l.Width())
	}
}
'''),
 dict(id="C14-shift-level", prop="C14", pkg="tex", edits=[(B, '''	lst.box.Shrink()
	if lst.box.size < numSizeLevels {
		lst.shift *= shrinkFactor''', '''	lst.box.Shrink()
	if lst.box.size <= numSizeLevels {
		lst.shift *= shrinkFactor''')],
  needs="shrinking a shifted list six times", breaks="the shift shrinks once more than the dimensions",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	l := tex.VListOf([]tex.Node{tex.VBox(1, 1)})
	l.SetShift(100)
	for i := 0; i < 6; i++ {
		l.Shrink()
	}
	h := tex.HListOf([]tex.Node{l}, false)
	want := 100 * math.Pow(0.7, 5)
	if d := h.Depth() - l.Depth(); math.Abs(d-want) > 1e-6 {
		t.Fatal(d, want)
	}
}
'''),
 dict(id="C14-accent-grow", prop="C14", pkg="tex", edits=[(B, '''	acc.char.Grow()
	acc.updateMetrics()''', '''	acc.char.Grow()''')],
  needs="growing an accent in a font whose metrics are not proportional to its size", breaks="the accent's dimensions are not those of its scaled font",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{m: func(sym string, f font.Font, dpi float64, math bool) font.Metrics { return font.Metrics{XMin: 1, XMax: 3, YMax: f.Size} }}
	a := tex.NewAccent("a", state(b), false)
	a.Grow()
	if a.Width() != 2 {
		t.Fatal(a.Width())
	}
}
'''),
 dict(id="C15-running-depth", prop="C15", pkg="tex", edits=[(B, '''			if math.IsInf(ruleDepth, 0) {
				ruleDepth = box.Depth()
			}
			if ruleHeight > 0 && ruleWidth > 0 {''', '''			if math.IsInf(ruleDepth, 0) {
				ruleDepth = box.Height()
			}
			if ruleHeight > 0 && ruleWidth > 0 {''')],
  needs="a rule with a running depth in a horizontal list whose height and depth differ", breaks="the rule is drawn from a baseline lowered by the height of the list",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{}
	l := tex.HListOf([]tex.Node{tex.VBox(5, 2), tex.VRule(state(b))}, false)
	var s tex.Ship
	s.Call(0, 0, l)
	if len(b.rects) != 4 || b.rects[1] != 7 || b.rects[3] != 12 {
		t.Fatal(b.rects)
	}
}
'''),
 dict(id="C15-glue-order", prop="C15", pkg="tex", edits=[(B, '''				case node.shrinkOrder == glueOrder: // shrinking''', '''				case node.shrinkOrder <= glueOrder: // shrinking''')],
  needs="a shrinking list with glue of two orders of shrinkability", breaks="glue of a lower order shrinks too",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{}
	l := tex.HListOf([]tex.Node{tex.NewGlue("neg_fil"), tex.NewChar("a", state(b), false), tex.NewGlue("neg_fill"), tex.NewChar("b", state(b), false)}, false)
	l.HPack(10, false) // six less than the natural width, all from the fill
	var s tex.Ship
	s.Call(0, 0, l)
	if len(b.glyph) != 4 || b.glyph[0] != 0 || b.glyph[2] != 2 {
		t.Fatal(b.glyph)
	}
}
'''),
 dict(id="C16-left-edge", prop="C16", pkg="tex", edits=[(B, '''				node.lst.box.width = box.Width()
				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()
				ship.cur.h = leftEdge''', '''				node.lst.box.width = box.Width()
				ship.vlistOut(node)
				ship.cur.v = curV + node.Depth()
				ship.cur.h -= node.lst.shift''')],
  needs="a vertical list directly in a vertical list that holds a nested horizontal list with a negative shift or moves the point", breaks="nothing while nested lists restore the point; the left edge drifts when they do not",
  demo="")
]
BUGS.pop()
BUGS += [
 dict(id="C16-vlist-in-vlist-width", prop="C16", pkg="tex", edits=[(B, '''				curV := ship.cur.v
				node.lst.box.width = box.Width()
				ship.vlistOut(node)''', '''				curV := ship.cur.v
				if node.Width() < box.Width() {
					node.lst.box.width = box.Width()
				}
				ship.vlistOut(node)''')],
  needs="a vertical list, wider than the list enclosing it, that holds a rule of running width", breaks="the rule is drawn with the inner list's own width instead of that of the enclosing list",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{}
	in := tex.VListOf([]tex.Node{tex.HRule(state(b), 2)})
	out := tex.VListOf([]tex.Node{tex.HBox(3), in})
	in2 := tex.VListOf([]tex.Node{tex.NewRule(9, 1, 1, state(b)), tex.HRule(state(b), 2)})
	l := tex.HListOf([]tex.Node{out}, false)
	out.Nodes()[1] = in2
	var s tex.Ship
	s.Call(0, 0, l)
	if len(b.rects) != 8 || b.rects[6]-b.rects[4] != 3 {
		t.Fatal(b.rects)
	}
}
'''),
 dict(id="C16-empty-depth", prop="C16", pkg="tex", edits=[(B, '''		case *VList:
			switch len(node.Nodes()) {
			case 0:
				ship.cur.v += node.Height() + node.Depth()''', '''		case *VList:
			switch len(node.Nodes()) {
			case 0:
				ship.cur.v += node.Height() - node.Depth()''')],
  needs="an empty vertical list with a depth (packed with a negative depth limit) inside a vertical list", breaks="the point moves by the height less the depth",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{}
	e := tex.VListOf(nil)
	e.VPack(3, false, -1)
	out := tex.VListOf([]tex.Node{e, tex.NewRule(5, 1, 1, state(b))})
	l := tex.HListOf([]tex.Node{out}, false)
	var s tex.Ship
	s.Call(0, 0, l)
	// top edge at -height; e: 3 + (-1), then the rule
	want := l.Height() - out.Height() + 3 - 1 + 2
	if len(b.rects) != 4 || b.rects[1] != want {
		t.Fatal(b.rects, want)
	}
}
'''),
 dict(id="C17-spare-capacity", prop="C17", pkg="tex", edits=[(B, '''	nodes := make([]Node, 0, len(elements)+2)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	nodes = append(nodes, NewGlue("ss"))
	return VListOf(nodes)''', '''	elements = append(elements, NewGlue("ss"))
	nodes := make([]Node, 0, len(elements)+1)
	nodes = append(nodes, NewGlue("ss"))
	nodes = append(nodes, elements...)
	return VListOf(nodes)''')],
  needs="a slice with spare capacity, whose array is used beyond its length", breaks="the caller's array is overwritten",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	a := []tex.Node{tex.HBox(1), tex.HBox(2), tex.HBox(3)}
	last := a[2]
	tex.VCentered(a[:2])
	if a[2] != last {
		t.Fatal("overwritten")
	}
}
'''),
 dict(id="C17-share-exact", prop="C17", pkg="tex", edits=[(B, '''	list := &List{children: make([]Node, len(elements))}
	copy(list.children, elements)
	return list''', '''	list := &List{children: elements}
	if cap(elements) > len(elements) {
		list.children = append([]Node(nil), elements...)
	}
	return list''')],
  needs="a slice without spare capacity that the caller changes after building the list", breaks="the list shares the caller's slice",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	a := []tex.Node{tex.HBox(1), tex.HBox(2)}
	first := a[0]
	l := tex.ListOf(a)
	a[0] = nil
	if l.Nodes()[0] != first {
		t.Fatal("shared")
	}
}
'''),
 dict(id="C18-nbsp", prop="C18", pkg="tex", edits=[(B, '''	case " ":
		ch.width = ch.metrics.Advance''', '''	case " ", "":
		ch.width = ch.metrics.Advance''')],
  needs="a character with an empty text", breaks="it takes its advance as width, although it is not a blank",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{m: func(sym string, f font.Font, dpi float64, math bool) font.Metrics { return font.Metrics{Advance: 6, Width: 8} }}
	if w := tex.NewChar("", state(b), false).Width(); w != 8 {
		t.Fatal(w)
	}
}
'''),
 dict(id="C18-accent-math", prop="C18", pkg="tex", edits=[(B, '''	acc.char.metrics = acc.char.be.Metrics(
		acc.char.c, acc.char.font, acc.char.dpi,
		acc.char.math,
	)
	acc.char.width''', '''	acc.char.metrics = acc.char.be.Metrics(
		acc.char.c, acc.char.font, acc.char.dpi,
		acc.char.math || acc.char.font.Type == "it",
	)
	acc.char.width''')],
  needs="a text accent in an italic font, with a backend whose text and math metrics differ", breaks="metrics are looked up as for math",
  demo=HEAD+'''func TestDemo(t *testing.T) {
	b := &be{m: func(sym string, f font.Font, dpi float64, math bool) font.Metrics {
		if math {
			return font.Metrics{XMax: 1}
		}
		return font.Metrics{XMax: 2}
	}}
	st := state(b)
	st.Font.Type = "it"
	if w := tex.NewAccent("a", st, false).Width(); w != 2 {
		t.Fatal(w)
	}
}
'''),
]

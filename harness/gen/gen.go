package gen

import (
	"math/rand"
	"strings"

	"github.com/go-latex/latex/verifharness/cs"
)

// Inf stands for an infinite (running) dimension in cases.
const Inf = 1e308

// Case makes case number i of a property.
func Case(prop string, seed int64, i int) *cs.Case {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + hash(prop)))
	c := &cs.Case{P: prop}
	gens[prop](r, c, i)
	return c
}

func hash(s string) int64 {
	h := int64(0)
	for _, c := range s {
		h = h*131 + int64(c)
	}
	return h
}

var gens = map[string]func(r *R, c *cs.Case, i int){
	"C01": src, "C02": src, "C03": src, "C04": srcArgs, "C05": srcOrTree, "C06": src, "C07": genC07,
	"C08": genC08, "C09": srcOrTree,
	"C10": genH, "C11": genV, "C12": genHV, "C13": genKern, "C14": genSize, "C15": genShip, "C16": genShipV, "C17": genLists, "C18": genChars,
	"C19": genAuto, "C20": genTypeset, "C21": genFrac, "C22": genSqrt, "C23": genSpace, "C24": genRender,
	"C25": genTTF, "C26": genSyms, "C27": genCanvas, "C28": genSets, "C29": genKinds, "C30": genMany, "C31": genFonts,
}

func src(r *R, c *cs.Case, i int) {
	c.K = "source"
	if i < len(edges) {
		c.S = []string{edges[i]}
		return
	}
	c.S = []string{Source(r)}
}

func srcArgs(r *R, c *cs.Case, i int) {
	c.K = "source"
	switch {
	case i < len(macros)*3:
		m := macros[i/3]
		switch i % 3 {
		case 0:
			c.S = []string{m + "{a}{b c}{}d"}
		case 1:
			c.S = []string{"$" + m + "[n]{x}{y}$"}
		case 2:
			c.S = []string{m}
		}
	case r.Intn(3) > 0:
		s := macro(r, 3)
		if r.Intn(2) == 0 {
			s = "$" + s + math(r, 1) + "$"
		}
		if r.Intn(6) == 0 {
			s = mutate(r, s)
		}
		c.S = []string{s}
	default:
		src(r, c, i)
	}
}

func srcOrTree(r *R, c *cs.Case, i int) {
	if i%2 == 0 {
		src(r, c, i/2)
		return
	}
	c.K = "tree"
	c.T = []*cs.N{astNode(r, 4, false)}
	c.I = []int{i}
}

func genC07(r *R, c *cs.Case, i int) {
	src(r, c, i)
	if i >= len(edges) && r.Intn(3) == 0 {
		c.S[0] = Typeset(r)
		if r.Intn(2) == 0 {
			c.S[0] = mutate(r, c.S[0])
		}
	}
}

// ---- syntax trees

func astText(r *R) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return pick(r, []string{`"`, "\n", "\x00", "é", "日本", `\`, "a b", "%", "\xff"})
	case 2:
		return number(r)
	case 3:
		return pick(r, macros)
	}
	return word(r)
}

func astList(r *R, d int) []*cs.N {
	n := r.Intn(4)
	if d <= 0 {
		n = 0
	}
	var o []*cs.N
	for i := 0; i < n; i++ {
		o = append(o, astNode(r, d-1, false))
	}
	return o
}

func astNode(r *R, d int, inScript bool) *cs.N {
	p := func() []int { return []int{r.Intn(50), r.Intn(50)} }
	k := r.Intn(14)
	if d <= 0 {
		k = r.Intn(4)
	}
	switch k {
	case 0:
		return &cs.N{K: "word", S: astText(r), I: p()}
	case 1:
		return &cs.N{K: "lit", S: astText(r), I: p()}
	case 2:
		return &cs.N{K: "sym", S: astText(r), I: p()}
	case 3:
		return &cs.N{K: "ident", S: astText(r), I: p()}
	case 4, 5:
		return &cs.N{K: "list", C: astList(r, d)}
	case 6, 7, 8:
		return &cs.N{K: "macro", S: astText(r), I: p(), C: astList(r, d)}
	case 9:
		return &cs.N{K: "arg", I: p(), C: astList(r, d)}
	case 10:
		return &cs.N{K: "opt", I: p(), C: astList(r, d)}
	case 11:
		return &cs.N{K: "math", S: pick(r, []string{"$", `\(`, `\[`, "", `\begin{math}`}), I: p(), C: astList(r, d)}
	case 12:
		return &cs.N{K: "sub", I: p(), C: []*cs.N{astNode(r, d-1, true)}}
	default:
		return &cs.N{K: "sup", I: p(), C: []*cs.N{astNode(r, d-1, true)}}
	}
}

func genC08(r *R, c *cs.Case, i int) {
	c.K = "tree"
	if r.Intn(4) == 0 {
		c.K = "source"
		c.S = []string{Source(r)}
	} else {
		c.T = []*cs.N{astNode(r, 5, false)}
	}
	// the visits at which the visitor returns nil, or changes its visitor
	n := r.Intn(4)
	for j := 0; j < n; j++ {
		c.I = append(c.I, r.Intn(20))
	}
}

// ---- box trees

func dim(r *R) float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return -float64(r.Intn(64)) / 16
	}
	return float64(r.Intn(640)) / 16
}

func pos(r *R) float64 { return float64(r.Intn(640)) / 16 }

func syms(r *R) string {
	return pick(r, []string{"a", "b", "A", "V", "f", "i", " ", "1", "=", `\alpha`, `\sum`, "(", "é", "x", "y"})
}

func charN(r *R) *cs.N {
	k := "char"
	if r.Intn(4) == 0 {
		k = "accent"
	}
	return &cs.N{K: k, S: syms(r), I: []int{r.Intn(5)}, B: r.Intn(2) == 0}
}

var glues = []string{"fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss"}

// hNode is a node for a horizontal list.
func hNode(r *R, d int) *cs.N {
	k := r.Intn(16)
	if d <= 0 {
		k = r.Intn(9)
	}
	switch k {
	case 0, 1, 2:
		return charN(r)
	case 3:
		return &cs.N{K: "kern", F: []float64{dim(r)}}
	case 4, 5:
		return &cs.N{K: "glue", S: pick(r, glues)}
	case 6:
		return ruleN(r)
	case 7:
		return &cs.N{K: pick(r, []string{"hbox", "vbox"}), F: []float64{dim(r), dim(r)}}
	case 8:
		if r.Intn(2) == 0 {
			return &cs.N{K: "hrule", F: []float64{pick(r, []float64{-1, 0, 1, 2.5})}, I: []int{r.Intn(5)}}
		}
		return &cs.N{K: "vrule", I: []int{r.Intn(5)}}
	case 9, 10, 11:
		return hList(r, d-1)
	case 12, 13:
		return vList(r, d-1)
	case 14:
		return &cs.N{K: "auto", S: syms(r), F: []float64{pos(r), dim(r), pick(r, []float64{0, 0, 1, 0.5, 2})}, I: []int{r.Intn(5)}}
	default:
		return &cs.N{K: "hcentered", C: hNodes(r, d-1)}
	}
}

func ruleN(r *R) *cs.N {
	f := func() float64 {
		if r.Intn(4) == 0 {
			return Inf
		}
		return dim(r)
	}
	w := dim(r)
	return &cs.N{K: "rule", F: []float64{w, f(), f()}}
}

func hNodes(r *R, d int) []*cs.N {
	n := r.Intn(6)
	var o []*cs.N
	for i := 0; i < n; i++ {
		o = append(o, hNode(r, d))
		if r.Intn(12) == 0 {
			o = append(o, &cs.N{K: "same"})
		}
	}
	return o
}

// hList is a horizontal list; F are the widths of extra packings, I whether
// each is additional.
func hList(r *R, d int) *cs.N {
	n := &cs.N{K: "hlist", B: r.Intn(2) == 0, C: hNodes(r, d)}
	packs(r, n)
	return n
}

func packs(r *R, n *cs.N) {
	for i := r.Intn(3); i > 0; i-- {
		n.I = append(n.I, r.Intn(2))
		f := dim(r)
		if r.Intn(3) == 0 {
			f *= 10
		}
		n.F = append(n.F, f, pick(r, []float64{Inf, Inf, 0, 1, 2.5, -1, 10}))
	}
}

func vNode(r *R, d int) *cs.N {
	k := r.Intn(16)
	if d <= 0 {
		k = r.Intn(8)
	}
	switch k {
	case 0, 1:
		return &cs.N{K: "kern", F: []float64{dim(r)}}
	case 2, 3:
		return &cs.N{K: "glue", S: pick(r, glues)}
	case 4:
		f := ruleN(r)
		if r.Intn(3) == 0 {
			f.F[0] = Inf
		}
		for i := 1; i < 3; i++ {
			if f.F[i] == Inf {
				f.F[i] = 1
			}
		}
		return f
	case 5:
		return &cs.N{K: "hrule", F: []float64{pick(r, []float64{-1, 0, 1, 2.5})}, I: []int{r.Intn(5)}}
	case 6, 7:
		return &cs.N{K: pick(r, []string{"hbox", "vbox"}), F: []float64{dim(r), dim(r)}}
	case 8, 9, 10, 11:
		return hList(r, d-1)
	case 12, 13:
		return vList(r, d-1)
	case 14:
		return &cs.N{K: "auto", S: syms(r), F: []float64{pos(r), dim(r), pick(r, []float64{0, 0, 1, 0.5, 2})}, I: []int{r.Intn(5)}}
	default:
		return &cs.N{K: "hcentered", C: hNodes(r, d-1)}
	}
}

func vNodes(r *R, d int) []*cs.N {
	n := r.Intn(6)
	var o []*cs.N
	for i := 0; i < n; i++ {
		o = append(o, vNode(r, d))
	}
	return o
}

func vList(r *R, d int) *cs.N {
	n := &cs.N{K: pick(r, []string{"vlist", "vlist", "vlist", "vcentered"}), C: vNodes(r, d)}
	packs(r, n)
	if r.Intn(3) == 0 {
		n.B = true // with a shift
		n.F = append(n.F, dim(r))
	}
	return n
}

func addSub(r *R, n *cs.N) {
	// now and then a cluster or a plain list among the children
	for _, k := range []string{"cluster", "list"} {
		if r.Intn(8) == 0 {
			n.C = append(n.C, &cs.N{K: k, C: hNodes(r, 1)})
		}
	}
}

func genH(r *R, c *cs.Case, i int) {
	c.K = "pack"
	n := hList(r, 2)
	addSub(r, n)
	if len(n.I) == 0 {
		n.I, n.F = []int{r.Intn(2)}, []float64{dim(r), Inf}
	}
	c.T = []*cs.N{n}
}

func genV(r *R, c *cs.Case, i int) {
	c.K = "pack"
	n := vList(r, 2)
	n.K = "vlist"
	if r.Intn(25) == 0 {
		n.C = append(n.C, charN(r)) // refused
	}
	addSub(r, n)
	if len(n.I) == 0 {
		n.I, n.F = []int{r.Intn(2)}, append([]float64{dim(r), pick(r, []float64{Inf, 0, 1, 2.5, -1})}, n.F...)
	}
	c.T = []*cs.N{n}
}

func genHV(r *R, c *cs.Case, i int) {
	if r.Intn(2) == 0 {
		genH(r, c, i)
	} else {
		genV(r, c, i)
	}
	// more glue
	n := c.T[0]
	for j := r.Intn(4); j > 0; j-- {
		n.C = append(n.C, &cs.N{K: "glue", S: pick(r, glues)})
	}
	r.Shuffle(len(n.C), func(a, b int) { n.C[a], n.C[b] = n.C[b], n.C[a] })
	c.K = "glue"
}

func genKern(r *R, c *cs.Case, i int) {
	c.K = "kern"
	n := &cs.N{K: "hlist", B: r.Intn(5) > 0, C: hNodes(r, 1)}
	for j := r.Intn(5); j > 0; j-- {
		n.C = append(n.C, charN(r))
		if r.Intn(4) == 0 {
			n.C = append(n.C, &cs.N{K: "same"})
		}
	}
	c.T = []*cs.N{n}
}

func genSize(r *R, c *cs.Case, i int) {
	c.K = "size"
	n := hNode(r, 3)
	if r.Intn(3) == 0 {
		n = vList(r, 3)
	}
	if r.Intn(10) == 0 {
		n = &cs.N{K: pick(r, []string{"cluster", "list"}), C: hNodes(r, 1)}
	}
	c.T = []*cs.N{n}
	for j := 1 + r.Intn(9); j > 0; j-- {
		c.I = append(c.I, pick(r, []int{1, 1, 1, 1, -1}))
	}
	if r.Intn(4) == 0 {
		for j := range c.I {
			c.I[j] = -c.I[j]
		}
	}
}

func genShip(r *R, c *cs.Case, i int) {
	c.K = "ship"
	n := hList(r, 3)
	c.T = []*cs.N{n}
	c.F = []float64{dim(r), dim(r)}
}

func genShipV(r *R, c *cs.Case, i int) {
	c.K = "ship"
	n := &cs.N{K: "hlist", C: []*cs.N{vList(r, 3)}}
	n.C[0].K = "vlist"
	for len(n.C[0].C) < 2 {
		n.C[0].C = append(n.C[0].C, vNode(r, 2))
	}
	if r.Intn(3) == 0 {
		n.C = append(n.C, charN(r), vList(r, 2))
	}
	if r.Intn(30) == 0 {
		c.I = []int{1} // put a character into the vertical list
	}
	packs(r, n)
	c.T = []*cs.N{n}
	c.F = []float64{dim(r), dim(r)}
}

func genLists(r *R, c *cs.Case, i int) {
	c.K = pick(r, []string{"ListOf", "HListOf", "HListOf-kern", "VListOf", "HCentered", "VCentered"})
	if strings.HasPrefix(c.K, "V") {
		c.T = vNodes(r, 1)
	} else {
		c.T = hNodes(r, 1)
	}
	c.I = []int{r.Intn(4)} // spare capacity of the slice
}

func genChars(r *R, c *cs.Case, i int) {
	c.K = "chars"
	for j := 0; j < 3; j++ {
		n := charN(r)
		if r.Intn(5) == 0 {
			n.S = pick(r, []string{" ", "", "  ", "\u00a0", `\ `})
		}
		c.T = append(c.T, n)
	}
	c.F = []float64{dim(r), dim(r)}
}

func genAuto(r *R, c *cs.Case, i int) {
	if r.Intn(4) == 0 {
		c.K = "typeset"
		c.S = []string{`$\binom{` + TM(r, 2) + `}{` + TM(r, 2) + `}` + TM(r, 0) + `$`}
		c.F = sizes(r)
		return
	}
	c.K = "auto"
	c.S = []string{syms(r)}
	c.F = []float64{pos(r), dim(r), pick(r, []float64{0, 0, 0, 1, 0.5, 2}), dim(r), dim(r)}
	c.I = []int{r.Intn(6)}
}

func sizes(r *R) []float64 {
	return []float64{pick(r, []float64{12, 12, 10, 8, 24}), pick(r, []float64{72, 72, 96, 144})}
}

var tsEdges = []string{
	`$-x$`, `${-x}$`, `$(-x)$`, `$( -x)$`, `${  -x}$`, `$\{-x$`, `$a-x$`, `$a{-}x$`, `$[-x$`, `$x=-1$`, `$1.5$`, `$1.$`, `$.5$`, `$a.5$`, `$1.a$`, `$1.5.7$`, `$1 .5$`, `1.5`, `1.`, `.5`, `$\lfloor -1$`,
	`$\langle-1$`, `$a\pm b$`, `${\pm b}$`, `$(\pm b$`, `$\leq{=}a$`, `$(=a$`, `$(\rightarrow$`, `$\sin x$`, `$\sin\cos x$`, `$a\,b\;c\!d$`, `$\hspace{3}$`, `\quad`, `$\alpha$`, `\alpha`, `$a$b$c$`, `a$b c$d`,
	`$\frac{1}{2}$`, `\frac{1}{2}`, `$\frac{}{}$`, `$\dfrac{a}{b}$`, `$\tfrac{a}{b}$`, `$\binom{a}{b}$`, `$\frac{\frac{1}{2}}{3}$`, `$\frac{a+b}{c}$`, `$\sqrt{x}$`, `$\sqrt[3]{x}$`, `$\sqrt{}$`, `$\overline{x}$`, `$\overline{}$`,
	`$\sqrt{\frac{a}{b}}$`, `$\frac{\sqrt{a}}{\overline{b}}$`, `$\overline{\sqrt[n]{x}}$`, `$\frac{$a$}{b}$`, `${a}{b}$`, `$\text{a}$`, `$\mathrm{a}$`, `$\stackrel{a}{b}$`, `$\operatorname{a}$`, `$a^2$`, `$a_2$`, `,`, `$,$`, `$;$`, `$!$`, `$a!$`,
}

func genTypeset(r *R, c *cs.Case, i int) {
	c.K = "typeset"
	c.F = sizes(r)
	switch {
	case i < len(tsEdges):
		c.S = []string{tsEdges[i]}
	case i < len(tsEdges)+2*len(plain):
		j := i - len(tsEdges)
		m := plain[j/2]
		if j%2 == 0 {
			c.S = []string{"$a" + m + " b$"}
		} else {
			c.S = []string{m}
		}
	default:
		c.S = []string{Typeset(r)}
	}
}

func genFrac(r *R, c *cs.Case, i int) {
	c.K = "typeset"
	c.F = sizes(r)
	m := pick(r, twoArgs[:3])
	if r.Intn(4) == 0 {
		m = `\binom`
	}
	pre, post := "$", "$"
	if r.Intn(4) == 0 {
		pre, post = "", ""
	}
	if r.Intn(3) == 0 {
		post = TM(r, 0) + post
	}
	c.S = []string{pre + m + "{" + TM(r, 2) + "}{" + TM(r, 2) + "}" + post}
	if pre == "" {
		c.S[0] = m + "{" + word(r) + "}{$" + TM(r, 2) + "$}" + digits(r)
	}
}

func genSqrt(r *R, c *cs.Case, i int) {
	c.K = "typeset"
	c.F = sizes(r)
	s := ""
	switch r.Intn(3) {
	case 0:
		s = `\overline{` + TM(r, 2) + `}`
	case 1:
		s = `\sqrt{` + TM(r, 2) + `}`
	case 2:
		s = `\sqrt[` + TM(r, r.Intn(2)) + `]{` + TM(r, 2) + `}`
	}
	if r.Intn(6) == 0 {
		s = strings.Replace(s, "{", "{}%", 1) // an empty body
		s = s[:strings.Index(s, "%")]
	}
	if r.Intn(3) == 0 {
		s = TM(r, 0) + s + TM(r, 0)
	}
	c.S = []string{"$" + s + "$"}
}

func genSpace(r *R, c *cs.Case, i int) {
	c.K = "typeset"
	c.F = sizes(r)
	if i < len(tsEdges) {
		c.S = []string{tsEdges[i]}
		return
	}
	n := 1 + r.Intn(5)
	s := ""
	for ; n > 0; n-- {
		s += pick(r, []string{"", "", " ", "  ", "{", "(", "[", "a", "1", ".", "{}", "|"})
		switch r.Intn(9) {
		case 0, 1:
			s += pick(r, binops)
		case 2:
			s += pick(r, rels)
		case 3:
			s += pick(r, arrows)
		case 4:
			s += "."
		case 5:
			s += pick(r, spaces)
		case 6:
			s += `\` + pick(r, funcs)
		case 7:
			s += `\hspace{` + number(r) + `}`
		case 8:
			s += pick(r, leftDelims)
		}
		s += pick(r, []string{"", " ", "1", " a", "b"})
	}
	s += strings.Repeat("}", strings.Count(s, "{")-strings.Count(s, "}"))
	c.S = []string{"$" + s + "$"}
	if r.Intn(8) == 0 {
		c.S[0] = s
	}
}

func asciiTM(r *R) string {
	for {
		s := Typeset(r)
		ok := true
		for _, ch := range s {
			if ch > 126 {
				ok = false
			}
		}
		if ok {
			return s
		}
	}
}

func genRender(r *R, c *cs.Case, i int) {
	c.K = "render"
	c.S = []string{asciiTM(r)}
	if r.Intn(10) == 0 {
		c.S = []string{pick(r, tsEdges)}
	}
	c.F = []float64{pick(r, []float64{12, 10, 8, 24, 11.5}), pick(r, []float64{72, 96, 144, 300})}
	c.I = []int{r.Intn(4), r.Intn(6)} // fonts, renderer fails when 0
}

var ttfFonts = []string{"default", "regular", "rm", "it", "bf"}

func genTTF(r *R, c *cs.Case, i int) {
	c.K = "metrics"
	c.I = []int{r.Intn(3)}
	n := 2 + r.Intn(6)
	for j := 0; j < n; j++ {
		req := &cs.N{K: pick(r, []string{"metrics", "metrics", "metrics", "metrics", "kern", "ul", "xh", "glyph"})}
		for k := 0; k < 2; k++ {
			s := ""
			switch r.Intn(5) {
			case 0:
				s = pick(r, []string{"-", "a", "f", "V", "A", "1", "=", " ", "(", "x"})
			case 1:
				s = pick(r, plain)
			case 2:
				s = pick(r, []string{`\alpha`, `\sum`, `\int`, `\oint`, `\Gamma`, `\infty`, `\times`, `\leq`, `\__sqrt__`, "é", "ab", "", "\xff", `\nosuch`})
			default:
				s = string(rune(33 + r.Intn(94)))
			}
			req.C = append(req.C, &cs.N{K: pick(r, ttfFonts), S: s, F: []float64{pick(r, []float64{12, 12, 10, 8.4, 24})}})
			if k == 1 && r.Intn(3) > 0 {
				req.C[1].F = req.C[0].F // same size
			}
		}
		req.S = pick(r, []string{"default", "default", "it", ""})
		if r.Intn(4) == 0 {
			req.C[1].S = req.C[0].S
		}
		req.F = []float64{pick(r, []float64{72, 72, 96, 144})}
		req.B = r.Intn(3) > 0
		c.T = append(c.T, req)
		if j > 0 && r.Intn(3) == 0 { // ask an earlier question again
			q := *c.T[r.Intn(j)]
			if r.Intn(4) == 0 {
				q.B = !q.B
			}
			c.T = append(c.T, &q)
		}
	}
}

func genSyms(r *R, c *cs.Case, i int) {
	c.K = "symbol"
	nm := len(macros)
	switch {
	case i < nm:
		c.S = []string{macros[i]}
	case i < nm+128:
		c.S = []string{string(rune(i - nm))}
	case r.Intn(2) == 0:
		c.S = []string{pick(r, macros)}
	default:
		c.S = []string{pick(r, []string{"", "ab", "-", `\`, `\\`, "é", "日", "𝒜", "\xff", "a", "Z", `\nosuch`, `\-`, "--", `\alphax`, "\u0391", "\u0301", "1", "²", "Ω", word(r)})}
	}
	c.I = []int{r.Intn(len(ttfFonts)), r.Intn(3)}
	c.F = []float64{pick(r, []float64{12, 10, 24}), pick(r, []float64{72, 96}), dim(r), dim(r)}
}

func genCanvas(r *R, c *cs.Case, i int) {
	c.K = "canvas"
	n := r.Intn(7)
	for j := 0; j < n; j++ {
		if r.Intn(2) == 0 {
			c.T = append(c.T, &cs.N{K: "rect", F: []float64{dim(r), dim(r), dim(r), dim(r)}})
		} else {
			c.T = append(c.T, &cs.N{K: "glyph", S: pick(r, []string{"a", "W", "=", "x", "(", "é"}), F: []float64{dim(r), dim(r), pick(r, []float64{12, 8, 20.5}), dim(r), dim(r), dim(r)},
				I: []int{r.Intn(4), r.Intn(100)}})
		}
	}
	c.F = []float64{float64(1+r.Intn(32)) / 16, float64(1+r.Intn(32)) / 16, pick(r, []float64{72, 36, 96, 90.5})}
	c.I = []int{r.Intn(8)}
}

func genSets(r *R, c *cs.Case, i int) {
	c.K = "sets"
	n := r.Intn(4)
	for j := 0; j < n; j++ {
		s := &cs.N{}
		for k := r.Intn(6); k > 0; k-- {
			s.C = append(s.C, &cs.N{S: pick(r, []string{"", "a", "b", "c", "B", "ab", `\a`, "+", "-", "é", "1", "10", "2"})})
		}
		c.T = append(c.T, s)
	}
	all := append(append(append(append([]string{}, binops...), rels...), arrows...), append(punct, plain...)...)
	for k := 0; k < 8; k++ {
		c.S = append(c.S, pick(r, all))
	}
	if i < len(all) {
		c.S[0] = all[i]
	}
	c.S = append(c.S, pick(r, []string{"a", "b", "", "+", `\a`, word(r)}))
}

func genKinds(r *R, c *cs.Case, i int) {
	c.K = "kinds"
	switch {
	case i < 64:
		c.I = []int{i - 16}
	default:
		c.I = []int{int(r.Uint64())}
		if r.Intn(2) == 0 {
			c.I = []int{int(r.Int31()) - 1<<30}
		}
	}
	c.S = []string{astText(r)}
}

func genMany(r *R, c *cs.Case, i int) {
	c.K = "many"
	n := 2 + r.Intn(4)
	for j := 0; j < n; j++ {
		if r.Intn(2) == 0 {
			c.S = append(c.S, Source(r))
		} else {
			c.S = append(c.S, asciiTM(r))
		}
	}
	if r.Intn(3) == 0 {
		c.S = append(c.S, c.S[0])
	}
	c.F = []float64{pick(r, []float64{12, 10}), 72}
	c.I = []int{r.Intn(3), r.Intn(3)}
}

func genFonts(r *R, c *cs.Case, i int) {
	c.K = "fonts"
	c.I = []int{i % 4, r.Intn(len(ttfFonts))}
	c.S = []string{string(rune('a' + r.Intn(26)))}
	c.F = []float64{pick(r, []float64{12, 10, 24}), 72}
	if i%4 == 3 {
		for j := 0; j < 5; j++ {
			c.I = append(c.I, r.Intn(8)) // faces of a made-up family
		}
	}
}

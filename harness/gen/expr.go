// Package gen makes the cases, from a seeded source of randomness.
package gen

import (
	"math/rand"
	"sort"
	"strings"

	ref "github.com/go-latex/latex/verifharness/ref"
	"github.com/go-latex/latex/verifharness/ref/mtex/symbols"
)

type R = rand.Rand

func pick[T any](r *R, xs []T) T { return xs[r.Intn(len(xs))] }

var (
	macros  []string // every macro known to the parser
	plain   []string // symbol macros: without arguments
	oneArg  = []string{`\overline`, `\hspace`, `\operatorname`, `\text`, `\mathrm`, `\mathit`, `\mathbf`, `\textrm`, `\textit`, `\textbf`, `\rm`}
	twoArgs = []string{`\frac`, `\dfrac`, `\tfrac`, `\binom`, `\stackrel`}
	spaces  = []string{`\,`, `\thinspace`, `\/`, `\>`, `\:`, `\;`, `\ `, `~`, `\enspace`, `\quad`, `\qquad`, `\!`}

	binops, rels, arrows, funcs, punct, leftDelims []string

	// sources the repository's own tests and documentation use
	seeds = []string{
		`hello`, `hello world`, `$x = 2+\frac{1}{2}$`, `\frac{a}{b}`, `$\sqrt[3]{x}$`, `$\sqrt{x_1^2}$`,
		`$\sum_{i=1}^{n} i$`, `$a_{ij}^{2}$`, `% comment`, "a% comment\nb", `$f(x)=1.5$`, `$1.2 . 3.$`,
		`\(x\)`, `\[x\]`, `$\binom{n}{k}$`, `$\overline{ab}$`, `$\dfrac{1}{2} + \tfrac{3}{4}$`, `$-x$`, `${-x}$`, `$(-x)$`,
		`$\hspace{1.5} x$`, `$\sin x$`, `$\alpha\beta$`, `$\cos^2 x$`,
	}
)

func init() {
	macros = ref.VerifMacros()
	keys := func(s symbols.Set) []string { k := s.Keys(); sort.Strings(k); return k }
	binops, rels, arrows = keys(symbols.BinaryOperators), keys(symbols.RelationSymbols), keys(symbols.ArrowSymbols)
	funcs, punct, leftDelims = keys(symbols.FunctionNames), keys(symbols.PunctuationSymbols), keys(symbols.LeftDelim)
	for _, m := range macros {
		n, err := ref.ParseExpr(m)
		if err == nil && n != nil {
			plain = append(plain, m)
		}
	}
}

func word(r *R) string {
	const ab = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	n := 1 + r.Intn(4)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(25) == 0 {
			sb.WriteString(pick(r, []string{"é", "α", "Ω", "日", "ß", "𝒜", "ñ"}))
		} else {
			sb.WriteByte(ab[r.Intn(len(ab))])
		}
	}
	return sb.String()
}

func number(r *R) string {
	switch r.Intn(12) {
	case 0:
		return "." + digits(r)
	case 1:
		return digits(r) + "."
	case 2, 3, 4:
		return digits(r) + "." + digits(r)
	case 5:
		return "1e5"
	case 6:
		return "0x1F"
	case 7:
		return "007"
	}
	return digits(r)
}

func digits(r *R) string {
	n := 1 + r.Intn(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	if b[0] == '0' {
		b[0] = '1'
	}
	return string(b)
}

// Source is any LaTeX source: mostly well formed, sometimes broken.
func Source(r *R) string {
	var s string
	switch r.Intn(12) {
	case 0:
		s = pick(r, seeds)
	case 1:
		s = soup(r)
	case 2:
		s = soup(r) + text(r, 2)
	case 3:
		s = edge(r)
	default:
		s = text(r, 3)
	}
	if r.Intn(4) == 0 {
		s = mutate(r, s)
	}
	return s
}

// Good is a source without deliberate damage.
func Good(r *R) string {
	if r.Intn(10) == 0 {
		return pick(r, seeds)
	}
	return text(r, 3)
}

var edges = []string{
	"", " ", "\n", "\t", "\r", "%", "%\r", "%\r\n", "% a\rb\r\nc", "%%", "% a % b\nc", "%a\n%b\n", "a%", `\`, `\\`, `\%`, `\{`, `\}`, `\$`, `\_`, `\ `,
	`\  a`, "\\\n", "\\\t", `$`, `$$`, `$ $`, `$a`, `$a$$b$`, `$$$`, `a $b$ c`, ` $ a $ `, `{a}`, `{`, `}`, `${}$`, `${a}{b}$`, `$}$`, `${$`, `$\frac$`,
	`$\frac{a}$`, `$\frac{a} {b}$`, `$\frac a b$`, `$\frac{}{}$`, `$\sqrt$`, `$\sqrt[$`, `$\sqrt[3$`, `$\sqrt[3]$`, `$\sqrt[]{}$`, `$\sqrt [3]{x}$`,
	`$\sqrt[a]b$`, `$\sqrt[[a]]{x}$`, `$\sqrt[{]}]{x}$`, `$x^$`, `$x_$`, `x^`, `x_`, `$x^{`, `$x^{a`, `$x^{}$`, `$x^ 2$`, "$x^%c\n2$", `$x^_2$`, `$x^^2$`, `$x_{1}^{2}$`,
	`$x^\frac{1}{2}$`, `$x^$y$`, `x^{2}`, `x_ {2}`, `$"a"$`, `"a b"`, `'a'`, `"`, `'`, `$'$`, `a'b`, `a"b`, `&`, `#`, `~`, `|`, `@`, "`", `$a|b$`, `$a&b$`, `$~$`,
	`\foo`, `\frac{a}{b}c`, `\textbf{a b}`, `\text{a $b$ c}`, `\text{$a$ b}`, `$\text{a b} c d$`, `$a\text{b $c$ d} e$`, `\begin{math}x\end{math}`,
	`\(a`, `\(a\)`, `\[a`, `\)`, `\]`, `[a]`, `(a)`, `[`, `]`, `$[a]$`, `$(a)$`, `$([)]$`, "a\x00b", "\xff", "a\xffb", "\uFEFFa", "é", "日本 語", `1.2.3`, `1.`, `.5`, `$.5$`, `$5.$`,
	`$1.5$`, `$a.5$`, `$1.a$`, `1e`, `1e+`, `0x`, `0b1`, `08`, `1_000`, `1a`, `a1`, `$1 . 2$`, `$1 .2$`, `\alpha1`, `\alpha a`, `\alpha\beta`, `\1`, `\12`, `\"a"`, `\.`, `\é`,
	"a\nb", "a\n\nb", "$a\nb$", "$a%x\nb$", "$a%x$\nb$", "{%\n}", "$%\n$", "\\frac%x\n{a}{b}", "\\frac{a}%x\n{b}", "$\\sqrt%\n[3]{x}$",
	`$\hspace{1}$`, `$\hspace{a}$`, `$\hspace{}$`, `$\hspace{1 2}$`, `$\hspace{-1}$`, `$\hspace{1e400}$`, `$\hspace{0x1p-2}$`, `$\operatorname{abc}$`, `$\genfrac{a}{b}$`, `\genfrac`,
	`$\frac{$a$}{b}$`, `$\frac{\frac{a}{b}}{c}$`, `$\binom{\binom{a}{b}}{c}$`, `$\overline{\overline{a}}$`, `$\sqrt[\sqrt{2}]{\sqrt{x}}$`, `$\overline{}$`,
}

func edge(r *R) string { return pick(r, edges) }

var pieces = []string{`{`, `}`, `[`, `]`, `(`, `)`, `$`, `^`, `_`, ` `, "\n", "%", "%x\n", `\`, `\ `, `\frac`, `\sqrt`, `\text`, `\overline`, `\alpha`, `\(`, `\)`, `\[`, `\]`,
	`a`, `ab`, `1`, `1.5`, `.`, `,`, `+`, `-`, `=`, `<`, `>`, `/`, `*`, `!`, `?`, `'`, `"`, `:`, `;`, `&`, `#`, `|`, `~`, "\t", "\r", `é`, `\binom`, `\foo`, `\hspace`, `\,`, `\sin`}

func soup(r *R) string {
	n := r.Intn(14)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(r, pieces))
	}
	return sb.String()
}

func mutate(r *R, s string) string {
	n := 1 + r.Intn(2)
	for ; n > 0; n-- {
		if len(s) == 0 {
			return pick(r, pieces)
		}
		i := r.Intn(len(s))
		switch r.Intn(4) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + pick(r, pieces) + s[i:]
		case 2:
			j := i + r.Intn(len(s)-i)
			s = s[:i] + s[j:]
		case 3:
			s = s[:i] + pick(r, pieces) + s[i+1:]
		}
	}
	return s
}

// glue makes sure a macro name does not run into the letters after it.
func join(r *R, a, b string) string {
	if a == "" || b == "" {
		return a + b
	}
	if r.Intn(6) == 0 {
		return a + pick(r, []string{" ", "  ", "\n", "\t", "%x\n", "% y z\r\n"}) + b
	}
	return a + b
}

func seq(r *R, n int, f func() string) string {
	s := ""
	for i := 0; i < n; i++ {
		s = join(r, s, f())
	}
	return s
}

func text(r *R, d int) string {
	return seq(r, r.Intn(6), func() string { return textItem(r, d) })
}

func textItem(r *R, d int) string {
	if d <= 0 {
		switch r.Intn(3) {
		case 0:
			return word(r)
		case 1:
			return number(r)
		default:
			return pick(r, []string{"+", "-", "=", "/", "*", "<", ">", "!", "?", ":", ";", ".", ",", "(", ")", "[", "]", " "})
		}
	}
	switch r.Intn(14) {
	case 0, 1:
		return word(r)
	case 2:
		return number(r)
	case 3:
		return textItem(r, 0)
	case 4:
		return " "
	case 5, 6, 7, 8, 9:
		return "$" + math(r, d-1) + "$"
	case 10:
		return macro(r, d)
	case 11:
		return pick(r, []string{"^", "_"}) + pick(r, []string{word(r), number(r), "{" + text(r, d-1) + "}"})
	case 12:
		return "%" + strings.Map(func(c rune) rune {
			if c == '\n' {
				return ' '
			}
			return c
		}, text(r, d-1)) + "\n"
	default:
		return pick(r, []string{`\ `, ` `, "\n"})
	}
}

func math(r *R, d int) string {
	return seq(r, r.Intn(5), func() string { return mathItem(r, d) })
}

func mathItem(r *R, d int) string {
	if d <= 0 {
		return textItem(r, 0)
	}
	switch r.Intn(13) {
	case 0, 1:
		return word(r)
	case 2:
		return number(r)
	case 3, 4:
		return textItem(r, 0)
	case 5:
		return "{" + math(r, d-1) + "}"
	case 6, 7:
		sub := ""
		switch r.Intn(4) {
		case 0:
			sub = "{" + math(r, d-1) + "}"
		case 1:
			sub = " " + mathItem(r, d-1)
		default:
			sub = mathItem(r, d-1)
		}
		return pick(r, []string{"^", "_"}) + sub
	case 8:
		return pick(r, []string{"$" + math(r, d-1) + "$", `\text{` + text(r, d-1) + `}`})
	default:
		return macro(r, d)
	}
}

func macro(r *R, d int) string {
	arg := func() string {
		if r.Intn(2) == 0 {
			return "{" + math(r, d-1) + "}"
		}
		return "{" + text(r, d-1) + "}"
	}
	switch r.Intn(8) {
	case 0, 1:
		return pick(r, twoArgs) + arg() + arg()
	case 2:
		s := `\sqrt`
		switch r.Intn(3) {
		case 0:
			s += "[" + text(r, 1) + "]"
		case 1:
			s += "[" + math(r, d-1) + "]"
		}
		return s + arg()
	case 3:
		return pick(r, oneArg) + arg()
	case 4:
		m := pick(r, macros)
		for i := r.Intn(3); i > 0; i-- {
			m += arg()
		}
		return m
	default:
		return pick(r, plain) + pick(r, []string{"", " "})
	}
}

// ---- sources the typesetter accepts

// Typeset is an expression built from what mtex supports.
func Typeset(r *R) string {
	if r.Intn(12) == 0 {
		return Source(r)
	}
	var sb strings.Builder
	for i := 1 + r.Intn(3); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			sb.WriteString(pick(r, []string{word(r), digits(r), " ", "+", "a b"}))
		default:
			sb.WriteString("$" + TM(r, 3) + "$")
		}
	}
	return sb.String()
}

// TM is material for math mode.
func TM(r *R, d int) string {
	return seq(r, 1+r.Intn(4), func() string { return tmItem(r, d) })
}

func tmItem(r *R, d int) string {
	arg := func() string {
		if r.Intn(10) == 0 {
			return "{}"
		}
		return "{" + TM(r, d-1) + "}"
	}
	k := r.Intn(20)
	if d <= 0 {
		k = r.Intn(12)
	}
	switch k {
	case 0, 1:
		return word(r)
	case 2:
		return digits(r)
	case 3:
		return digits(r) + "." + digits(r)
	case 4:
		return pick(r, []string{"+", "-", "=", "<", ">", "/", "*", "(", ")", "[", "]", "?", "'", ".", "."})
	case 5:
		return pick(r, binops) + " "
	case 6:
		return pick(r, rels) + " "
	case 7:
		return pick(r, arrows) + " "
	case 8:
		return pick(r, spaces[:7])
	case 9:
		return `\` + pick(r, funcs) + " "
	case 10:
		return pick(r, plain) + " "
	case 11:
		return pick(r, []string{`(-a`, `{-a}`, `[+b`, `{ +b}`, `\{-a`, `a.5`, `.5`, `5.`, `1.5`, `1 . 5`, `\hspace{2}`, `\hspace{1.5}`, `\hspace{0}`, `\quad`, `\qquad`, `\!`, `\,`})
	case 12, 13:
		return pick(r, twoArgs[:4]) + arg() + arg()
	case 14:
		return `\sqrt` + arg()
	case 15:
		return `\sqrt[` + TM(r, 0) + `]` + arg()
	case 16:
		return `\overline` + arg()
	case 17:
		return "{" + TM(r, d-1) + "}"
	case 18:
		return "$" + TM(r, d-1) + "$"
	default:
		return tmItem(r, 0)
	}
}

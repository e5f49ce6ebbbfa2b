// Typesetting (C19-C24).

effect newChar(c string, s tex.State, math bool) *tex.Char {
  let m = metrics(s.be, c, s.Font, s.DPI, math);
  returns new tex.Char{ c: c, be: s.be, font: s.Font, dpi: s.DPI, math: math, metrics: m,
    width: c == " " ? m.Advance : m.Width,
    height: m.Iceberg,
    depth: -(m.Iceberg - m.Height) };
}
macro scaled(s tex.State, by float64) tex.State =
  struct tex.State{ be: s.be, Font: struct font.Font{ Name: s.Font.Name, Size: s.Font.Size * by, Type: s.Font.Type }, DPI: s.DPI }

// Sized delimiters (C19).
effect autoHeight(c string, height float64, depth float64, s tex.State, factor float64) *tex.HList {
  let m = metrics(s.be, c, s.Font, s.DPI, true);
  let natural = m.Iceberg + -(m.Iceberg - m.Height);
  let by = factor == 0.0 ? (height + depth) / natural : factor;
  let at = s.Font.Name != "" ? scaled(s, by) : s;
  let ch = run newChar(c, at, true);
  let l = run hlistOf([ch], true);
  assigns l.lst.shift = s.Font.Name != "" ? depth - ch.depth : 0.0;
  returns l;
}
func tex.AutoHeightChar(c, height, depth, state, factor) {
  props C19;
  requires state.be != nil;
  let l = run autoHeight(c, height, depth, state, factor);
  returns l;
}

// Spaces (C23): a part of the width of an m in the math font.
effect space(be font.Backend, s tex.State, part float64) *tex.Kern {
  let f = struct font.Font{ Name: "it", Size: s.Font.Size, Type: "it" };
  returns new tex.Kern{ width: metrics(be, "m", f, s.DPI, true).Advance * part };
}
func mtex.(*parser).makeSpace(p, state, percentage) {
  props C23;
  requires p.be != nil;
  let k = run space(p.be, state, percentage);
  returns k;
}

fold highest(q seq tex.Node; n)() {
  h float64 = 0.0 -> max(h, heightOf(n));
  d float64 = 0.0 -> max(d, depthOf(n));
}
effect delimiter(c string, h float64, d float64, s tex.State, factor float64) seq tex.Node {
  if c == "." { returns []; }
  else { let b = run autoHeight(c, h, d, s, factor); returns [tex.Node(b)]; }
}
effect delimited(left string, middle seq tex.Node, right string, s tex.State) *tex.HList {
  let given = len(middle) > 0;
  let h = given ? highest(middle)().h : 0.0;
  let d = given ? highest(middle)().d : 0.0;
  let factor = given ? 0.0 : 1.0;
  let a = run delimiter(left, h, d, s, factor);
  let b = run delimiter(right, h, d, s, factor);
  let l = run hlistOf(a ++ middle ++ b, true);
  returns l;
}
func mtex.(*parser).autoSizedDelimiter(p, left, middle, right, state) {
  props C19;
  requires state.be != nil;
  let l = run delimited(left, seq(middle), right, state);
  returns l;
}

// Rules (C21, C22).
effect hrule(s tex.State, thick float64) *tex.Rule {
  let t = thick < 0.0 ? ulthick(s.be, s.Font, s.DPI) : thick;
  returns new tex.Rule{ box.width: inf(), box.height: 0.5 * t, box.depth: 0.5 * t, out: s.be };
}
func tex.HRule(state, thickness) {
  props C21, C22;
  requires thickness < 0.0 ==> state.be != nil;
  let r = run hrule(state, thickness);
  returns r;
}

func tex.VRule(state) {
  props C15, C16;
  requires state.be != nil;
  returns new tex.Rule{ box.width: ulthick(state.be, state.Font, state.DPI), box.height: inf(), box.depth: inf(), out: state.be };
}

// Fractions (C21).
effect fraction(num tex.Node, den tex.Node, rule float64, display bool, s tex.State) *tex.HList {
  let t = ulthick(s.be, s.Font, s.DPI);
  if !display { run shrink(num); run shrink(den); } else {}
  let top = run hcentered(num);
  let bot = run hcentered(den);
  let w = max(widthOf(num), widthOf(den));
  run hpack(top, seq(top.lst.children), w, false);
  run hpack(bot, seq(bot.lst.children), w, false);
  let gap1 = new tex.Box{ height: 0.0, depth: t * 2.0 };
  let gap2 = new tex.Box{ height: 0.0, depth: t * 2.0 };
  let line = run hrule(s, rule);
  let v = run vlistOf([top, gap1, line, gap2, bot]);
  let eq = metrics(s.be, "=", struct font.Font{ Name: s.Font.Name, Size: s.Font.Size, Type: "it" }, s.DPI, true);
  assigns v.lst.shift = bot.lst.box.height - ((eq.YMax + eq.YMin) / 2.0 - 3.0 * t);
  let gap = new tex.Box{ width: 2.0 * t };
  let l = run hlistOf([v, gap], true);
  returns l;
}
effect hcentered(n tex.Node) *tex.HList {
  let a = run ssGlue();
  let b = run ssGlue();
  let l = run hlistOf([a, n, b], false);
  returns l;
}
func mtex.(*parser).genfrac(p, ldelim, rdelim, rule, style, num, den, state) {
  props C21;
  requires state.be != nil && solid(num) && solid(den);
  requires ldelim == "" && rdelim == "" || ldelim == "(" && rdelim == ")";
  maypanic;
  opaque;
  split ldelim == "" && rdelim == "", ldelim == "(" && rdelim == ")";
  let l = run fraction(num, den, rule, style == 0, state);
  if ldelim == "" { returns l; }
  else {
    let d = run delimited("(", [l], ")", state);
    returns d;
  }
}

// What an expression is typeset to: a list of the boxes collected by walking
// over it (C20).
fieldinv mtex.parser.be(v) = v != nil
// Typesetting leaves the boxes other visitors have collected alone.
keeps [C08, C20, C21, C22, C23] typeset mtex.visitor.nodes(q);
keeps [C08, C20, C21, C22, C23] visit mtex.visitor.nodes(q) if match v { *mtex.visitor as t: t != q; _: false; };
keeps [C08, C20, C21, C22, C23] walk mtex.visitor.nodes(q) if match v { *mtex.visitor as t: t != q; _: false; };
keeps [C08, C20, C21, C22, C23] walkAll mtex.visitor.nodes(q) if match v { *mtex.visitor as t: t != q; _: false; };
keeps [C08, C20, C21, C22, C23] always digits mtex.visitor.nodes(q) if t != q;
sealed effect typeset(p *mtex.parser, n ast.Node, s tex.State, math bool) *tex.HList {
  let v = new mtex.visitor{ p: p, state: s, math: math };
  run walk(v, n);
  let l = run hlistOf(seq(v.nodes), true);
  returns l;
}
func mtex.(*parser).handleNode(p, node, state, math) {
  props C20;
  requires state.be != nil;
  maypanic;
  let l = run typeset(p, node, state, math);
  returns l;
  ensures [C20] solid(ret);
}

// an argument of a macro
macro argument(m *ast.Macro, i int) ast.Node = ast.Node(cast(m.Args[i], type(*ast.Arg)).List)

effect fracOf(p *mtex.parser, m *ast.Macro, display bool, s tex.State, math bool) *tex.HList {
  let num = run typeset(p, argument(m, 0), s, math);
  let den = run typeset(p, argument(m, 1), s, math);
  let l = run fraction(num, den, ulthick(s.be, s.Font, s.DPI), display, s);
  returns l;
}
func mtex.handleFrac(p, node, state, math) {
  props C20, C21;
  requires state.be != nil;
  maypanic; opaque;
  let l = run fracOf(p, cast(node, type(*ast.Macro)), false, state, math);
  returns l;
}
func mtex.handleTFrac(p, node, state, math) {
  props C20, C21;
  requires state.be != nil;
  maypanic; opaque;
  let l = run fracOf(p, cast(node, type(*ast.Macro)), false, state, math);
  returns l;
}
func mtex.handleDFrac(p, node, state, math) {
  props C20, C21;
  requires state.be != nil;
  maypanic; opaque;
  let l = run fracOf(p, cast(node, type(*ast.Macro)), true, state, math);
  returns l;
}
effect binomOf(p *mtex.parser, m *ast.Macro, s tex.State, math bool) *tex.HList {
  let num = run typeset(p, argument(m, 0), s, math);
  let den = run typeset(p, argument(m, 1), s, math);
  let l = run fraction(num, den, 0.0, false, s);
  let d = run delimited("(", [l], ")", s);
  returns d;
}
func mtex.handleBinom(p, node, state, math) {
  props C20, C21;
  requires state.be != nil;
  maypanic; opaque;
  let d = run binomOf(p, cast(node, type(*ast.Macro)), state, math);
  returns d;
}

// Roots and overlines (C22).
effect vfill() *tex.Glue {
  returns new tex.Glue{ width: 0.0, stretch: 1.0, stretchOrder: 2 };
}
macro clear(s tex.State) float64 = (s.Font.Size * s.DPI) / 1200.0

// a rule above a body, in a box of a fixed height
effect ruled(body tex.Node, height float64, depth float64, s tex.State) *tex.VList {
  let line = run hrule(s, -1.0);
  let fill = run vfill();
  let v = run vlistOf([line, fill, body]);
  run vpack(v, seq(v.lst.children), height + clear(s), false, depth);
  returns v;
}
effect overline(body *tex.HList, s tex.State) *tex.HList {
  let t = ulthick(s.be, s.Font, s.DPI);
  let height = body.lst.box.height - body.lst.shift + 3.0 * t;
  let depth = body.lst.box.depth + body.lst.shift;
  let inner = run hlistOf([body], true);
  let v = run ruled(inner, height, depth, s);
  let l = run hlistOf([v], true);
  returns l;
}
effect overlineOf(p *mtex.parser, m *ast.Macro, s tex.State, math bool) *tex.HList {
  let body = run typeset(p, argument(m, 0), s, math);
  let l = run overline(body, s);
  returns l;
}
func mtex.handleOverline(p, node, state, math) {
  props C20, C22;
  requires state.be != nil;
  maypanic; opaque;
  let l = run overlineOf(p, cast(node, type(*ast.Macro)), state, math);
  returns l;
}
effect rootSign(body *tex.HList, s tex.State) *tex.HList {
  let t = ulthick(s.be, s.Font, s.DPI);
  let l = run autoHeight("\\__sqrt__", body.lst.box.height - body.lst.shift + 5.0 * t, body.lst.box.depth + body.lst.shift, s, 0.0);
  returns l;
}
effect root(index tex.Node, body *tex.HList, s tex.State) *tex.HList {
  let t = ulthick(s.be, s.Font, s.DPI);
  let sign = run rootSign(body, s);
  let height = sign.lst.box.height - sign.lst.shift;
  let depth = sign.lst.box.depth + sign.lst.shift;
  let before = new tex.Box{ width: 2.0 * t };
  let after = new tex.Box{ width: 2.0 * t };
  let padded = run hlistOf([before, body, after], true);
  let rhs = run ruled(padded, height, depth, s);
  if index != nil { run shrink(index); run shrink(index); } else {}
  let gap = new tex.Box{ width: sign.lst.box.width * 0.5 };
  let il = run hlistOf([index != nil ? index : tex.Node(gap)], true);
  let vl = run vlistOf([il]);
  assigns vl.lst.shift = -height * 0.6;
  let back = new tex.Kern{ width: -sign.lst.box.width * 0.5 };
  let l = run hlistOf([vl, back, sign, rhs], true);
  returns l;
}
effect rootOf(p *mtex.parser, m *ast.Macro, s tex.State, math bool) *tex.HList {
  if len(m.Args) == 2 {
    let index = run typeset(p, ast.Node(cast(m.Args[0], type(*ast.OptArg)).List), s, math);
    let body = run typeset(p, argument(m, 1), s, math);
    let l = run root(index, body, s);
    returns l;
  } else {
    let body = run typeset(p, argument(m, 0), s, math);
    let l = run root(nil, body, s);
    returns l;
  }
}
func mtex.handleSqrt(p, node, state, math) {
  props C20, C22;
  requires state.be != nil;
  maypanic; opaque;
  let l = run rootOf(p, cast(node, type(*ast.Macro)), state, math);
  returns l;
}

// Spacing commands (C23).
macro spacing(c string) float64 =
  c == "\\," || c == "\\thinspace" || c == "\\/" ? 0.16667 :
  c == "\\>" || c == "\\:" ? 0.22222 :
  c == "\\;" ? 0.27778 :
  c == "\\ " || c == "~" ? 0.33333 :
  c == "\\enspace" ? 0.5 :
  c == "\\quad" ? 1.0 :
  c == "\\qquad" ? 2.0 : -0.16667
macro isSpacing(c string) bool =
  c == "\\," || c == "\\thinspace" || c == "\\/" || c == "\\>" || c == "\\:" || c == "\\;" ||
  c == "\\ " || c == "~" || c == "\\enspace" || c == "\\quad" || c == "\\qquad" || c == "\\!"
macro symbolText(n ast.Node) string = match n {
  *ast.Macro as m: m.Name.Name;
  *ast.Symbol as m: m.Text;
  *ast.Word as m: m.Text;
  *ast.Literal as m: m.Text;
}
macro spacingNode(n ast.Node) bool = match n {
  *ast.Macro as m: m != nil && m.Name != nil && isSpacing(m.Name.Name);
  *ast.Symbol as m: m != nil && isSpacing(m.Text);
  _: false;
}
func mtex.handleSpace(p, node, state, math) {
  props C23;
  requires p != nil && p.be != nil;
  panics !spacingNode(node);
  let k = run space(p.be, state, spacing(symbolText(node)));
  returns k;
}

// A custom space: the multiple given as a number.
uf floatOf(s string) float64
uf isFloat(s string) bool
func strconv.ParseFloat(s, bits) assumed { any e error; returns floatOf(s), isFloat(s) ? nil : e; }
func mtex.handleCustomSpace(p, node, state, math) {
  props C23;
  requires p != nil && p.be != nil;
  maypanic;
  let arg = cast(cast(node, type(*ast.Macro)).Args[0], type(*ast.Arg));
  let k = run space(p.be, state, floatOf(cast(arg.List[0], type(*ast.Literal)).Text));
  returns k;
}

// A function name: its letters in roman.
macro roman(s tex.State) tex.State =
  struct tex.State{ be: s.be, Font: struct font.Font{ Name: s.Font.Name, Size: s.Font.Size, Type: "rm" }, DPI: s.DPI }
macro letterBox(i int, c string, s tex.State, math bool) *tex.Char =
  new@(i) tex.Char{ c: c, be: s.be, font: s.Font, dpi: s.DPI, math: math, metrics: metrics(s.be, c, s.Font, s.DPI, math),
    width: c == " " ? metrics(s.be, c, s.Font, s.DPI, math).Advance : metrics(s.be, c, s.Font, s.DPI, math).Width,
    height: metrics(s.be, c, s.Font, s.DPI, math).Iceberg,
    depth: -(metrics(s.be, c, s.Font, s.DPI, math).Iceberg - metrics(s.be, c, s.Font, s.DPI, math).Height) }
fold spelled(q seq int; c, i)(s tex.State, math bool) {
  acc seq tex.Node = [] -> acc ++ [letterBox(i, runestr(c), s, math)];
}
effect letters(text string, s tex.State, math bool) *tex.HList {
  let q = spelled(runes(text))(s, math).acc;
  run bump();
  let l = run hlistOf(q, true);
  returns l;
}
func mtex.handleFunction(p, node, state, math) {
  props C20, C23;
  requires state.be != nil;
  maypanic;
  let name = cast(node, type(*ast.Macro)).Name.Name;
  let l = run letters(name[1:len(name)], roman(state), math);
  returns l;
}

// Symbols (C23).
uf aRune() rune
uf lastWhere(s string, holds bool) int
uf parts(s string, sep string) seq string
func strings.LastIndexFunc(s, f) assumed { returns lastWhere(s, applied(f, aRune())); }
func strings.Split(s, sep) assumed { ensures sep != "" ==> len(ret) >= 1; }
macro digitAt(x string, i int) bool = 48 <= x[i] && x[i] <= 57
macro opening(x string, i int) bool = i >= 0 && (runestr(x[i]) == "{" || has(symbols.LeftDelim, runestr(x[i])))
effect spacedBox(p *mtex.parser, ch *tex.Char, s tex.State) *tex.HList {
  let a = run space(p.be, s, 0.2);
  let b = run space(p.be, s, 0.2);
  let l = run hlistOf([a, ch, b], true);
  returns l;
}
effect dotBox(p *mtex.parser, ch *tex.Char, s tex.State) *tex.HList {
  let a = run space(p.be, s, 0.2);
  let l = run hlistOf([ch, a], true);
  returns l;
}
sealed effect symbolBox(p *mtex.parser, text string, pos int, s tex.State, math bool) tex.Node {
  let ch = run newChar(text, s, math);
  if has(symbols.BinaryOperators, text) || has(symbols.RelationSymbols, text) || has(symbols.ArrowSymbols, text) {
    if has(symbols.BinaryOperators, text) && opening(p.expr, lastWhere(p.expr[0:pos], aRune() != 32)) { returns tex.Node(ch); }
    else { let l = run spacedBox(p, ch, s); returns tex.Node(l); }
  } else {
    if has(symbols.PunctuationSymbols, text) && !(pos > 0 && digitAt(p.expr, pos - 1) && pos < len(p.expr) - 1 && digitAt(p.expr, pos + 1)) {
      let l = run dotBox(p, ch, s);
      returns tex.Node(l);
    } else { returns tex.Node(ch); }
  }
}
func mtex.handleSymbol(p, node, state, math) {
  props C23;
  requires p != nil && p.be != nil && state.be != nil;
  maypanic;
  let l = run symbolBox(p, symbolText(node), posOf(node), state, math);
  returns l;
  ensures [C20, C23] solid(ret);
}

// The boxes of one node (C20), appended to those collected so far; the answer
// tells whether its parts are to be visited.
owned mtex.visitor.nodes;
fieldinv mtex.visitor.p(v) = v != nil
effect collect(t *mtex.visitor, b tex.Node) {
  assigns t.nodes = slice(seq(t.nodes) ++ [b]);
}
effect handle(p *mtex.parser, name string, n ast.Node, s tex.State, math bool) tex.Node {
  if has(mtex.spaceWidth, name) {
    let k = run space(p.be, s, spacing(name));
    returns tex.Node(k);
  } else {
  if has(symbols.BinaryOperators, name) || has(symbols.RelationSymbols, name) || has(symbols.ArrowSymbols, name) || has(symbols.PunctuationSymbols, name) {
    let b = run symbolBox(p, name, posOf(n), s, math);
    returns b;
  } else {
  if name == "\\hspace" {
    let arg = cast(cast(n, type(*ast.Macro)).Args[0], type(*ast.Arg));
    let k = run space(p.be, s, floatOf(cast(arg.List[0], type(*ast.Literal)).Text));
    returns tex.Node(k);
  } else {
  if has(symbols.FunctionNames, name[1:len(name)]) {
    let fname = cast(n, type(*ast.Macro)).Name.Name;
    let l = run letters(fname[1:len(fname)], roman(s), math);
    returns tex.Node(l);
  } else {
  if name == "\\frac" || name == "\\tfrac" || name == "\\dfrac" {
    let l = run fracOf(p, cast(n, type(*ast.Macro)), name == "\\dfrac", s, math);
    returns tex.Node(l);
  } else {
  if name == "\\binom" {
    let l = run binomOf(p, cast(n, type(*ast.Macro)), s, math);
    returns tex.Node(l);
  } else {
  if name == "\\sqrt" {
    let l = run rootOf(p, cast(n, type(*ast.Macro)), s, math);
    returns tex.Node(l);
  } else {
  if name == "\\overline" {
    let l = run overlineOf(p, cast(n, type(*ast.Macro)), s, math);
    returns tex.Node(l);
  } else {
    let b = run symbolBox(p, name, posOf(n), s, math);
    returns b;
  } } } } } } } }
}
fold digits(q seq int; c, i)(t *mtex.visitor, n *ast.Literal) {
  do {
    let b = run symbolBox(t.p, runestr(c), n.LitPos + runepos(n.Text, i), t.state, t.math);
    run collect(t, b);
  };
}
effect typesetNode(t *mtex.visitor, n ast.Node) bool {
  match n {
    ast.List as l: { returns true; }
    *ast.Symbol as m: {
      if t.math { let b = run handle(t.p, m.Text, n, t.state, t.math); run collect(t, b); }
      else { let b = run newChar(m.Text, t.state, t.math); run collect(t, tex.Node(b)); }
      returns true;
    }
    *ast.Word as m: { let l = run letters(m.Text, t.state, t.math); run collect(t, tex.Node(l)); returns true; }
    *ast.Literal as m: { run digits(runes(m.Text))(t, m); returns true; }
    *ast.MathExpr as m: {
      let was = t.math;
      let style = t.state.Font.Type;
      assigns t.math = true, t.state.Font.Type = "it";
      run walkAll(seq(m.List))(ast.Visitor(t));
      assigns t.math = was, t.state.Font.Type = style;
      returns false;
    }
    *ast.Macro as m: {
      let b = run handle(t.p, m.Name.Name, n, t.state, t.math);
      run collect(t, b);
      returns false;
    }
    nil: { returns true; }
    _: { assigns $visits = $visits ++ [box($refused, n)]; returns true; }
  }
}

// A whole expression (C07, C20, C24).
macro atSize(be font.Backend, size float64, dpi float64) tex.State =
  struct tex.State{ be: be, Font: struct font.Font{ Name: "default", Size: size, Type: "rm" }, DPI: dpi }
uf typesetFails(x string, size float64, dpi float64, be font.Backend) bool
func mtex.newParser(be) {
  props C07, C20, C24;
  requires be != nil;
  returns new mtex.parser{ be: be, macros: some(map[string]mtex.handler) };
}
func mtex.(*parser).parse(p, x, size, dpi) {
  props C07, C20, C24;
  requires p.be != nil;
  maypanic typesetFails(x, size, dpi, p.be);
  forks;
  let n, ok = run parsed(x);
  if ok {
    forget but ast;
    assigns p.expr = x;
    let l = run typeset(p, n, atSize(p.be, size, dpi), false);
    returns tex.Node(l), nil;
  } else {
    forget;
    assigns p.expr = x;
    returns nil, some(error);
  }
  ensures (ret0 == nil) != (ret1 == nil);
  ensures [C24] ret1 == nil ==> match ret0 { *tex.HList as l: l != nil; _: false; };
}
effect boxOf(x string, size float64, dpi float64, be font.Backend) (*tex.HList, bool) {
  if typesetFails(x, size, dpi, be) {
    let p = new mtex.parser{ be: be, expr: x, macros: some(map[string]mtex.handler) };
    let n, ok = run parsed(x);
    let l = run typeset(p, n, atSize(be, size, dpi), false);
    forget;
    returns nil, false;
  } else {
    let n, ok = run parsed(x);
    if ok {
      forget but ast;
      let p = new mtex.parser{ be: be, expr: x, macros: some(map[string]mtex.handler) };
      let l = run typeset(p, n, atSize(be, size, dpi), false);
      returns l, true;
    } else {
      let p = new mtex.parser{ be: be, expr: x, macros: some(map[string]mtex.handler) };
      forget;
      returns nil, false;
    }
  }
}
func mtex.Parse(x, size, dpi, be) {
  props C07, C20, C24;
  requires be != nil;
  opaque;
  forks;
  let l, ok = run boxOf(x, size, dpi, be);
  returns ok ? tex.Node(l) : nil, ok ? nil : some(error);
  ensures (ret0 == nil) != (ret1 == nil);
  ensures [C24] ret1 == nil ==> match ret0 { *tex.HList as l: l != nil; _: false; };
}

// Rendering (C24). $rendered is what renderers were given.
ghost $rendered seq any
uf renderError(r mtex.Renderer, w float64, h float64, dpi float64, c *drawtex.Canvas, drawn seq any) error
iface mtex.Renderer.Render(r, w, h, dpi, c) assumed {
  maypanic;
  let e = renderError(r, w, h, dpi, c, $out);
  assigns $rendered = $rendered ++ [box($page, r, w, h, dpi, c, $out)];
  returns e;
}
func mtex.Render(dst, expr, size, dpi, fonts) {
  props C24;
  requires dst != nil;
  maypanic;
  let cnv = new drawtex.Canvas{};
  let t = run backendOn(cnv, fonts == nil ? &ttf.defaultFonts : fonts);
  let b, ok = run boxOf(expr, size, 72.0, font.Backend(t));
  if ok {
    let ship = new tex.Ship{ off.v: b.lst.box.height };
    run hOut(ship, tex.Tree(b));
    let w = b.lst.box.width / 72.0;
    let h = ceil(b.lst.box.height + max(b.lst.box.depth, 0.0)) / 72.0;
    let e = renderError(dst, w, h, dpi, cnv, $out);
    assigns $rendered = $rendered ++ [box($page, dst, w, h, dpi, cnv, $out)];
    returns e == nil ? nil : wrapped(e);
  } else {
    let e = some(error);
    forget;
    returns wrapped(e);
  }
}

// Parsing (C02, C03, C04, C06, C07).
//
// Each effect parses one piece from the parser's place in the source on and
// says what it yields and whether it succeeds.

uf lower(s string) string
macro placed(p *latex.parser) bool = $at[&p.s.sc] <= len($src[&p.s.sc])
macro rest(p *latex.parser) int = len($src[&p.s.sc]) - $at[&p.s.sc]
macro closes(t token.Token, kind int, text string) bool = kind != 0 ? t.Kind == kind : t.Text == text

// the next token
effect step(p *latex.parser) (token.Token, bool) {
  let t, ok = run token(p.s);
  if ok { assigns p.s.tok = t; } else {}
  returns t, ok;
}
// a required opening delimiter
effect open(p *latex.parser, text string) bool {
  let t, ok = run step(p);
  returns ok && t.Text == text;
}

// the constructs up to the closing delimiter: a token of a kind, or of a text
tail effect items(p *latex.parser, kind int, text string, acc seq ast.Node) (seq ast.Node, bool) {
  let t, fine = run step(p);
  if !fine { returns acc, false; } else {
    if t.Kind == 16 { returns acc, kind == 16; } else {
      if closes(t, kind, text) { returns acc, true; } else {
        let n, ok = run node(p, t);
        if !ok { returns acc, false; } else {
          let r, all = run items(p, kind, text, n == nil ? acc : acc ++ [n]);
          returns r, all;
        }
      }
    }
  }
}
// the first construct after blanks and comments
tail effect first(p *latex.parser, got ast.Node) (ast.Node, bool) {
  if got != nil { returns got, true; } else {
    let t, fine = run step(p);
    if !fine || t.Kind == 16 { returns nil, false; } else {
      let n, ok = run node(p, t);
      if !ok { returns nil, false; } else {
        let r, all = run first(p, n);
        returns r, all;
      }
    }
  }
}
// what a sub- or superscript holds
effect script(p *latex.parser) (ast.Node, bool) {
  if charAt($src[&p.s.sc], $at[&p.s.sc]) == '{' {
    let opened = run open(p, "{");
    if !opened { returns nil, false; } else {
      let q, ok = run items(p, 9, "", []);
      returns box(ast.List, q), ok;
    }
  } else {
    let n, ok = run first(p, nil);
    returns n, ok;
  }
}

// the arguments of a macro, slot by slot
tail effect slots(p *latex.parser, sig seq rune, i int, acc seq ast.Node) (seq ast.Node, bool) {
  if i >= len(sig) { returns acc, true; } else {
    if sig[i] == 'a' {
      let opened = run open(p, "{");
      let left = p.s.tok.Pos;
      if !opened { returns acc, false; } else {
        let q, ok = run items(p, 9, "", []);
        let right = p.s.tok.Pos;
        if !ok { returns acc, false; } else {
          let r, all = run slots(p, sig, i + 1, acc ++ [new@(i) ast.Arg{ Lbrace: left, List: q, Rbrace: right }]);
          returns r, all;
        }
      }
    } else {
      if sig[i] == 'o' && charAt($src[&p.s.sc], $at[&p.s.sc]) == '[' {
        let opened = run open(p, "[");
        let left = p.s.tok.Pos;
        if !opened { returns acc, false; } else {
          let q, ok = run items(p, 11, "", []);
          let right = p.s.tok.Pos;
          if !ok { returns acc, false; } else {
            let r, all = run slots(p, sig, i + 1, acc ++ [new@(i) ast.OptArg{ Lbrack: left, List: q, Rbrack: right }]);
            returns r, all;
          }
        }
      } else {
        let r, all = run slots(p, sig, i + 1, acc);
        returns r, all;
      }
    }
  }
}
effect macroCall(m latex.macroParser, p *latex.parser) (ast.Node, bool) on p {
  let name = p.s.tok.Text;
  let pos = p.s.tok.Pos;
  match m {
    latex.builtinMacro as sig: {
      let q, ok = run slots(p, runes(lower(sig)), 0, []);
      let n = new@() ast.Macro{ Name: new@() ast.Ident{ NamePos: pos, Name: name }, Args: q };
      run bump();
      returns n, ok;
    }
    _: { returns nil, false; }
  }
}
iface latex.macroParser.parseMacro(m, p) {
  props C02, C04, C06, C07;
  requires p != nil && p.s != nil && placed(p);
  decreases 1, rest(p) + 1, 0;
  everywhere old(rest(p)) >= rest(p) && placed(p);
  variant rest(p);
  let n, ok = run macroCall(m, p);
  fails !ok;
  returns n;
  ensures old(rest(p)) >= rest(p) && placed(p);
}

effect node(p *latex.parser, t token.Token) (ast.Node, bool) on p {
  let k = t.Kind;
  if k == 3 || k == 4 && p.state == 1 { returns nil, true; } else {
  if k == 1 {
    if !has(p.macros, t.Text) { returns nil, false; } else {
      let n, ok = run macroCall(p.macros[t.Text], p);
      returns n, ok;
    }
  } else {
  if k == 5 { let n = new@() ast.Word{ WordPos: t.Pos, Text: t.Text }; run bump(); returns n, true; } else {
  if k == 6 { let n = new@() ast.Literal{ LitPos: t.Pos, Text: t.Text }; run bump(); returns n, true; } else {
  if k == 7 && (t.Text == "^" || t.Text == "_") {
    let n, ok = run script(p);
    let up = new@() ast.Sup{ HatPos: t.Pos, Node: n };
    let down = new@() ast.Sub{ UnderPos: t.Pos, Node: n };
    run bump();
    returns t.Text == "^" ? ast.Node(up) : ast.Node(down), ok;
  } else {
  if k == 7 && t.Text == "$" {
    let was = p.state;
    assigns p.state = 1;
    let q, ok = run items(p, 0, "$", []);
    assigns p.state = was;
    let n = new@() ast.MathExpr{ Delim: "$", Left: t.Pos, List: q, Right: p.s.tok.Pos };
    run bump();
    returns n, ok;
  } else {
  if k == 4 || k == 7 || k == 10 || k == 11 || k == 12 || k == 13 {
    let n = new@() ast.Symbol{ SymPos: t.Pos, Text: t.Text };
    run bump();
    returns n, true;
  } else {
  if k == 8 && p.state == 1 {
    let q, ok = run items(p, 9, "", []);
    returns box(ast.List, q), ok;
  } else {
    returns nil, false;
  }}}}}}}}
}
func latex.(*parser).parseNode(p, tok) {
  props C02, C03, C06, C07;
  requires p != nil && p.s != nil && placed(p);
  decreases 1, rest(p) + (tok.Kind == 16 ? 0 : 1), 1;
  everywhere old(rest(p)) >= rest(p) && placed(p);
  variant rest(p);
  let n, ok = run node(p, tok);
  fails !ok;
  returns n;
  ensures old(rest(p)) >= rest(p) && placed(p);
}
func latex.(*parser).parse(p) {
  props C02, C06, C07;
  requires p != nil && p.s != nil && placed(p);
  decreases 2, rest(p);
  everywhere old(rest(p)) >= rest(p) && placed(p);
  variant rest(p);
  let q, ok = run items(p, 16, "", []);
  fails !ok;
  returns box(ast.List, q), nil;
}

// The macros (C04): two arguments, one, an optional and a mandatory one, none.
macro twoArgs(n string) bool = n == "\\binom" || n == "\\dfrac" || n == "\\frac" || n == "\\stackrel" || n == "\\tfrac"
macro oneArg(n string) bool = n == "\\exp" || n == "\\hspace" || n == "\\mathbb" || n == "\\mathbf" || n == "\\mathcal" || n == "\\mathdefault" ||
  n == "\\mathfrak" || n == "\\mathit" || n == "\\mathregular" || n == "\\mathscr" || n == "\\mathsf" || n == "\\mathtt" ||
  n == "\\operatorname" || n == "\\overline" || n == "\\textbb" || n == "\\textbf" || n == "\\textcal" || n == "\\textdefault" ||
  n == "\\textfrak" || n == "\\textit" || n == "\\textregular" || n == "\\textscr" || n == "\\textsf" || n == "\\texttt"
macro noArgs(n string) bool = n == "\\ " || n == "\\!" || n == "\\(" || n == "\\)" || n == "\\," || n == "\\:" ||
  n == "\\;" || n == "\\Alpha" || n == "\\Beta" || n == "\\Chi" || n == "\\Delta" || n == "\\Downarrow" ||
  n == "\\Epsilon" || n == "\\Eta" || n == "\\Gamma" || n == "\\Iota" || n == "\\Join" || n == "\\Kappa" ||
  n == "\\Lambda" || n == "\\Leftarrow" || n == "\\Leftrightarrow" || n == "\\Longleftarrow" || n == "\\Longleftrightarrow" || n == "\\Longrightarrow" ||
  n == "\\Mu" || n == "\\Nu" || n == "\\Omega" || n == "\\Omicron" || n == "\\Phi" || n == "\\Pi" ||
  n == "\\Pr" || n == "\\Psi" || n == "\\Rho" || n == "\\Rightarrow" || n == "\\Sigma" || n == "\\Tau" ||
  n == "\\Theta" || n == "\\Uparrow" || n == "\\Updownarrow" || n == "\\Upsilon" || n == "\\Vert" || n == "\\Xi" ||
  n == "\\Zeta" || n == "\\alpha" || n == "\\amalg" || n == "\\approx" || n == "\\arccos" || n == "\\arcsin" ||
  n == "\\arctan" || n == "\\arg" || n == "\\ast" || n == "\\asymp" || n == "\\backslash" || n == "\\bb" ||
  n == "\\beta" || n == "\\bf" || n == "\\bigcap" || n == "\\bigcirc" || n == "\\bigcup" || n == "\\bigodot" ||
  n == "\\bigoplus" || n == "\\bigotimes" || n == "\\bigsqcup" || n == "\\bigtriangledown" || n == "\\bigtriangleup" || n == "\\biguplus" ||
  n == "\\bigvee" || n == "\\bigwedge" || n == "\\bowtie" || n == "\\bullet" || n == "\\cal" || n == "\\cap" ||
  n == "\\cdot" || n == "\\cdotp" || n == "\\cdots" || n == "\\chi" || n == "\\circ" || n == "\\cong" ||
  n == "\\coprod" || n == "\\cos" || n == "\\cosh" || n == "\\cot" || n == "\\coth" || n == "\\csc" ||
  n == "\\cup" || n == "\\dagger" || n == "\\dashv" || n == "\\ddagger" || n == "\\ddots" || n == "\\default" ||
  n == "\\deg" || n == "\\delta" || n == "\\det" || n == "\\diamond" || n == "\\dim" || n == "\\div" ||
  n == "\\doteq" || n == "\\doteqdot" || n == "\\dotplus" || n == "\\dots" || n == "\\downarrow" || n == "\\epsilon" ||
  n == "\\equiv" || n == "\\eta" || n == "\\frak" || n == "\\frown" || n == "\\gamma" || n == "\\gcd" ||
  n == "\\geq" || n == "\\gg" || n == "\\hbar" || n == "\\hom" || n == "\\hookleftarrow" || n == "\\hookrightarrow" ||
  n == "\\in" || n == "\\inf" || n == "\\int" || n == "\\iota" || n == "\\it" || n == "\\kappa" ||
  n == "\\ker" || n == "\\lambda" || n == "\\langle" || n == "\\lceil" || n == "\\ldotp" || n == "\\ldots" ||
  n == "\\leadsto" || n == "\\leftarrow" || n == "\\leftharpoondown" || n == "\\leftharpoonup" || n == "\\leftrightarrow" || n == "\\leq" ||
  n == "\\lfloor" || n == "\\lg" || n == "\\lhd" || n == "\\lim" || n == "\\liminf" || n == "\\limsup" ||
  n == "\\ll" || n == "\\ln" || n == "\\log" || n == "\\longleftarrow" || n == "\\longleftrightarrow" || n == "\\longmapsto" ||
  n == "\\longrightarrow" || n == "\\mapsto" || n == "\\max" || n == "\\mid" || n == "\\min" || n == "\\models" ||
  n == "\\mp" || n == "\\mu" || n == "\\nabla" || n == "\\nearrow" || n == "\\neq" || n == "\\ni" ||
  n == "\\nu" || n == "\\nwarrow" || n == "\\odot" || n == "\\oint" || n == "\\omega" || n == "\\omicron" ||
  n == "\\ominus" || n == "\\oplus" || n == "\\oslash" || n == "\\otimes" || n == "\\parallel" || n == "\\perp" ||
  n == "\\phi" || n == "\\pi" || n == "\\pm" || n == "\\prec" || n == "\\preceq" || n == "\\prod" ||
  n == "\\propto" || n == "\\psi" || n == "\\qquad" || n == "\\quad" || n == "\\rangle" || n == "\\rceil" ||
  n == "\\regular" || n == "\\rfloor" || n == "\\rhd" || n == "\\rho" || n == "\\rightarrow" || n == "\\rightharpoondown" ||
  n == "\\rightharpoonup" || n == "\\rightleftharpoons" || n == "\\rm" || n == "\\scr" || n == "\\searrow" || n == "\\sec" ||
  n == "\\setminus" || n == "\\sf" || n == "\\sigma" || n == "\\sim" || n == "\\simeq" || n == "\\sin" ||
  n == "\\sinh" || n == "\\smile" || n == "\\sqcap" || n == "\\sqcup" || n == "\\sqsubset" || n == "\\sqsubseteq" ||
  n == "\\sqsupset" || n == "\\sqsupseteq" || n == "\\star" || n == "\\subset" || n == "\\subseteq" || n == "\\succ" ||
  n == "\\succeq" || n == "\\sum" || n == "\\sup" || n == "\\supset" || n == "\\supseteq" || n == "\\swarrow" ||
  n == "\\tan" || n == "\\tanh" || n == "\\tau" || n == "\\theta" || n == "\\times" || n == "\\triangleleft" ||
  n == "\\triangleright" || n == "\\tt" || n == "\\unlhd" || n == "\\unrhd" || n == "\\uparrow" || n == "\\updownarrow" ||
  n == "\\uplus" || n == "\\upsilon" || n == "\\vdash" || n == "\\vdots" || n == "\\vee" || n == "\\vert" ||
  n == "\\wedge" || n == "\\wr" || n == "\\xi" || n == "\\zeta" || n == "\\{" || n == "\\}"
macro slotsOf(n string) string = twoArgs(n) ? "AA" : oneArg(n) ? "A" : n == "\\sqrt" ? "OA" : ""
macro builtin(n string) bool = twoArgs(n) || oneArg(n) || n == "\\sqrt" || n == "\\genfrac" || noArgs(n)

func latex.(*parser).addBuiltinMacros(p) {
  props C04, C06;
  decreases 0, 0;
  any n string;
  assigns p.macros = some(map[string]latex.macroParser);
  invariant has(p.macros, n) ==> p.macros[n] == (n == "\\genfrac" ? nil : box(latex.builtinMacro, slotsOf(n)));
  invariant builtin(n) ==> has(p.macros, n);
  ensures has(p.macros, n) ==> p.macros[n] == (n == "\\genfrac" ? nil : box(latex.builtinMacro, slotsOf(n)));
  ensures builtin(n) ==> has(p.macros, n);
}

// A whole expression: the constructs up to the end of the text, or an error.
// Nobody sees the parser again.
effect parsed(x string) (ast.Node, bool) {
  let s = new latex.texScanner{};
  let p = new latex.parser{ s: s, macros: some(map[string]latex.macroParser) };
  assigns $src[&s.sc] = x, $at[&s.sc] = 0, s.sc.Mode = 92, s.sc.Whitespace = 9728;
  let q, ok = run items(p, 16, "", []);
  returns ok ? box(ast.List, q) : nil, ok;
}
func latex.ParseExpr(x) {
  props C02, C04, C06, C07;
  decreases 3, 0;
  forks;
  let n, ok = run parsed(x);
  if ok { forget but ast; } else { forget; }
  returns n, ok ? nil : some(error);
  ensures (ret0 == nil) != (ret1 == nil);
}

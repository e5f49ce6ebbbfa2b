// Syntax trees (C05, C08, C09).

// where a node starts and ends
rec posOf(n ast.Node) int on n = match n {
  ast.List as l: len(l) == 0 ? -1 : posOf(l[0]);
  *ast.List as l: len(*l) == 0 ? -1 : posOf((*l)[0]);
  *ast.Macro as m: m.Name.NamePos;
  *ast.Arg as a: a.Lbrace;
  *ast.OptArg as a: a.Lbrack;
  *ast.Ident as i: i.NamePos;
  *ast.MathExpr as m: m.Left;
  *ast.Word as w: w.WordPos;
  *ast.Literal as l: l.LitPos;
  *ast.Symbol as s: s.SymPos;
  *ast.Sub as s: s.UnderPos;
  *ast.Sup as s: s.HatPos;
}
rec endOf(n ast.Node) int on n = match n {
  ast.List as l: len(l) == 0 ? -1 : endOf(l[len(l) - 1]);
  *ast.List as l: len(*l) == 0 ? -1 : endOf((*l)[len(*l) - 1]);
  *ast.Macro as m: len(m.Args) > 0 ? endOf(m.Args[len(m.Args) - 1]) : m.Name.NamePos + len(m.Name.Name);
  *ast.Arg as a: a.Rbrace + 1;
  *ast.OptArg as a: a.Rbrack + 1;
  *ast.Ident as i: i.NamePos + len(i.Name);
  *ast.MathExpr as m: m.Right + len(m.Delim);
  *ast.Word as w: w.WordPos + len(w.Text);
  *ast.Literal as l: l.LitPos + len(l.Text);
  *ast.Symbol as s: s.SymPos + len(s.Text);
  *ast.Sub as s: endOf(s.Node);
  *ast.Sup as s: endOf(s.Node);
}
iface ast.Node.Pos(n) { props C05; maypanic; returns posOf(n); }
iface ast.Node.End(n) { props C05; maypanic; returns endOf(n); }

// Traversal. What a visitor does is recorded in a trace; what it answers may
// depend on everything asked so far.
ghost $visits seq any
uf visitAnswer(v ast.Visitor, n ast.Node, past seq any) ast.Visitor
uf funcAnswer(f ast.inspector, n ast.Node, past seq any) bool

effect ask(f ast.inspector, n ast.Node) bool {
  let past = $visits;
  assigns $visits = $visits ++ [box($asked, f, n)];
  returns funcAnswer(f, n, past);
}
functype ast.inspector(f, n) { let yes = run ask(f, n); returns yes; }

sealed effect visit(v ast.Visitor, n ast.Node) ast.Visitor {
  match v {
    ast.inspector as f: { let yes = run ask(f, n); returns yes ? v : nil; }
    *ast.inspector as f: { let g = *f; let yes = run ask(g, n); returns yes ? ast.Visitor(g) : nil; }
    *mtex.visitor as t: { let more = run typesetNode(t, n); returns more ? v : nil; }
    _: {
      let past = $visits;
      assigns $visits = $visits ++ [box($visited, v, n)];
      returns visitAnswer(v, n, past);
    }
  }
}
iface ast.Visitor.Visit(v, n) { props C08, C20; maypanic; let w = run visit(v, n); returns w; }

fold walkAll(q seq ast.Node; x)(v ast.Visitor) {
  do { run walk(v, x); };
}
effect walk(v ast.Visitor, n ast.Node) on n {
  let w = run visit(v, n);
  if w == nil {} else {
    match n {
      ast.List as l: { run walkAll(seq(l))(w); }
      *ast.Macro as m: {
        if m.Name != nil { run walk(w, m.Name); } else {}
        run walkAll(seq(m.Args))(w);
      }
      *ast.Arg as a: { run walkAll(seq(a.List))(w); }
      *ast.OptArg as a: { run walkAll(seq(a.List))(w); }
      *ast.MathExpr as m: { run walkAll(seq(m.List))(w); }
      *ast.Sub as s: { run walk(w, s.Node); }
      *ast.Sup as s: { run walk(w, s.Node); }
      *ast.Ident as i: {}
      *ast.Word as i: {}
      *ast.Literal as i: {}
      *ast.Symbol as i: {}
      _: { assigns $visits = $visits ++ [box($refused, n)]; }
    }
    let done = run visit(w, nil);
  }
}
func ast.Walk(v, n) { props C08; maypanic; run walk(v, n); }
func ast.Inspect(n, f) { props C08; maypanic; opaque; run walk(ast.inspector(f), n); }

// Printing. $text is what was written to each writer.
ghost $text[io.Writer] string
func fmt.Fprintf(o, f, args) assumed { assigns $text[o] = $text[o] + formatted(f, seq(args)); }
func io.WriteString(o, s) assumed { assigns $text[o] = $text[o] + s; }

effect put1(o io.Writer, s string) { assigns $text[o] = $text[o] + s; }
fold printAll(q seq ast.Node; x, i)(o io.Writer) {
  do {
    if i > 0 { run put1(o, ", "); } else {}
    run print(o, x);
  };
}
effect print(o io.Writer, n ast.Node) on n {
  match n {
    nil: { run put1(o, "<nil>"); }
    ast.List as l: { run put1(o, "ast.List{"); run printAll(seq(l))(o); run put1(o, "}"); }
    *ast.Macro as m: {
      run put1(o, "ast.Macro{" + quote(m.Name.Name));
      if len(m.Args) > 0 { run put1(o, ", Args:"); run printAll(seq(m.Args))(o); } else {}
      run put1(o, "}");
    }
    *ast.Arg as a: { run put1(o, "{"); run printAll(seq(a.List))(o); run put1(o, "}"); }
    *ast.OptArg as a: { run put1(o, "["); run printAll(seq(a.List))(o); run put1(o, "]"); }
    *ast.MathExpr as m: {
      run put1(o, "ast.MathExpr{");
      if len(m.List) > 0 { run put1(o, "List:"); run printAll(seq(m.List))(o); } else {}
      run put1(o, "}");
    }
    *ast.Sub as s: { run put1(o, "ast.Sub{"); run print(o, s.Node); run put1(o, "}"); }
    *ast.Sup as s: { run put1(o, "ast.Sup{"); run print(o, s.Node); run put1(o, "}"); }
    *ast.Ident as i: { run put1(o, "ast.Ident{" + quote(i.Name) + "}"); }
    *ast.Word as i: { run put1(o, "ast.Word{" + quote(i.Text) + "}"); }
    *ast.Literal as i: { run put1(o, "ast.Lit{" + quote(i.Text) + "}"); }
    *ast.Symbol as i: { run put1(o, "ast.Symbol{" + quote(i.Text) + "}"); }
    _: { run put1(o, "unknown"); }
  }
}
func ast.Print(o, n) { props C09; maypanic; run print(o, n); }

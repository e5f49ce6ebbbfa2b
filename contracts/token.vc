// Names of token kinds (C29).

func token.Kind.String(i) {
  props C29;
  split i < 0 || i > 16, i == 0, i == 1, i == 2, i == 3, i == 4, i == 5, i == 6, i == 7, i == 8, i == 9, i == 10, i == 11, i == 12, i == 13, i == 14, i == 15, i == 16;
  returns i < 0 || i > 16 ? "Kind(" + decimal(i) + ")" : i == 0 ? "Invalid" : i == 1 ? "Macro" : i == 2 ? "EmptyLine" : i == 3 ? "Comment" : i == 4 ? "Space" :
    i == 5 ? "Word" : i == 6 ? "Number" : i == 7 ? "Symbol" : i == 8 ? "Lbrace" : i == 9 ? "Rbrace" :
    i == 10 ? "Lbrack" : i == 11 ? "Rbrack" : i == 12 ? "Lparen" : i == 13 ? "Rparen" : i == 14 ? "Other" :
    i == 15 ? "Verbatim" : "EOF";
}
func token.Token.String(t) { props C06, C29; decreases 0, 0; returns t.Text; }

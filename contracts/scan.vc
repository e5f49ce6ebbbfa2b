// Scanning (C01).
//
// text/scanner is assumed: from a place in its source it finds the next
// lexeme, in a way settled by its mode and whitespace set.

ghost $src[*scanner.Scanner] string
ghost $at[*scanner.Scanner] int
ghost $lex[*scanner.Scanner] string
ghost $reads[io.Reader] string
uf lexKind(src string, at int, white uint64, mode uint) rune
uf lexStart(src string, at int, white uint64) int
uf lexEnd(src string, at int, white uint64, mode uint) int
uf charAt(src string, at int) rune

effect lexeme(s *scanner.Scanner) rune {
  let src = $src[s];
  let at = $at[s];
  let b = lexStart(src, at, s.Whitespace);
  let e = lexEnd(src, at, s.Whitespace, s.Mode);
  assigns $at[s] = e, $lex[s] = src[b:e], s.Position.Offset = b;
  returns lexKind(src, at, s.Whitespace, s.Mode);
}
func text/scanner.(*Scanner).Scan(s) assumed {
  let k = run lexeme(s);
  returns k;
  // a lexeme lies in the source, and is empty only at its end
  ensures old($at[s]) <= len($src[s]) ==> old($at[s]) <= $at[s] && $at[s] <= len($src[s]);
  ensures old($at[s]) <= len($src[s]) && ret != -1 ==> old($at[s]) < $at[s];
}
func text/scanner.(*Scanner).Peek(s) assumed { returns charAt($src[s], $at[s]); }
func text/scanner.(*Scanner).TokenText(s) assumed { returns $lex[s]; }

// nobody looks at the last character seen between two tokens
dead latex.texScanner.r;

// a comment's text: what is left of the line, without carriage returns
tail effect restOfLine(s *scanner.Scanner, acc string) string {
  let r = run lexeme(s);
  if r == '\r' { let x = run restOfLine(s, acc); returns x; }
  else {
    if r == '\n' || r == -1 { returns acc; }
    else { let x = run restOfLine(s, acc + $lex[s]); returns x; }
  }
}

macro symbolChar(r rune) bool = r == '$' || r == '_' || r == '=' || r == '<' || r == '>' || r == '^' || r == '/' || r == '*' ||
  r == '-' || r == '+' || r == '!' || r == '?' || r == '\'' || r == ':' || r == ',' || r == ';' || r == '.'

// the next token, and whether there is one
effect token(s *latex.texScanner) (token.Token, bool) on s {
  let r = run lexeme(&s.sc);
  let pos = s.sc.Position.Offset;
  let text = $lex[&s.sc];
  let kind = r == -2 ? 5 : r == -3 || r == -4 ? 6 : r == -6 || r == -5 ? 14 : r == -1 ? 16 : r == ' ' ? 4 :
    r == '[' ? 10 : r == ']' ? 11 : r == '{' ? 8 : r == '}' ? 9 : r == '(' ? 12 : r == ')' ? 13 : symbolChar(r) ? 7 : 0;
  if r == '\\' {
    if charAt($src[&s.sc], $at[&s.sc]) == ' ' {
      let q = run lexeme(&s.sc);
      returns struct token.Token{ Kind: 4, Pos: pos, Text: "\\ " }, true;
    } else {
      let white = s.sc.Whitespace;
      assigns s.sc.Whitespace = 0;
      let q = run lexeme(&s.sc);
      assigns s.sc.Whitespace = white;
      returns struct token.Token{ Kind: 1, Pos: pos, Text: "\\" + $lex[&s.sc] }, true;
    }
  } else {
    if r == '%' {
      let white = s.sc.Whitespace;
      let mode = s.sc.Mode;
      assigns s.sc.Whitespace = 0, s.sc.Mode = 0;
      let line = run restOfLine(&s.sc, "%");
      assigns s.sc.Whitespace = white, s.sc.Mode = mode;
      returns struct token.Token{ Kind: 3, Pos: pos, Text: line }, true;
    } else {
      returns struct token.Token{ Kind: kind, Pos: pos, Text: kind == 16 ? "" : kind == 4 ? " " : text }, kind != 0;
    }
  }
}
func latex.(*texScanner).scan(s) {
  props C01, C06;
  requires $at[&s.sc] <= len($src[&s.sc]);
  decreases 0, 0;
  everywhere old($at[&s.sc]) < $at[&s.sc] && $at[&s.sc] <= len($src[&s.sc]);
  variant len($src[&s.sc]) - $at[&s.sc];
  let t, ok = run token(s);
  fails !ok;
  returns t;
  ensures [C06] old($at[&s.sc]) <= $at[&s.sc] && $at[&s.sc] <= len($src[&s.sc]);
  ensures [C06] ret.Kind != 16 ==> old($at[&s.sc]) < $at[&s.sc];
  ensures [C06] ret.Kind == 16 ==> ret.Text == "";
  ensures [C06] $src[&s.sc] == old($src[&s.sc]);
}

func strings.NewReader(x) assumed {
  let r = new strings.Reader{};
  assigns $reads[r] = x;
  returns r;
}
func text/scanner.(*Scanner).Init(s, r) assumed {
  assigns $src[s] = $reads[r], $at[s] = 0, s.Mode = 1012, s.Whitespace = 4294977024;
  returns s;
}
dead text/scanner.Scanner.IsIdentRune;

// words are letters; blanks other than a space separate tokens
func latex.newScanner(r) {
  props C01, C06;
  any ch rune, i int;
  decreases 0, 0;
  let s = new latex.texScanner{};
  assigns $src[&s.sc] = $reads[r], $at[&s.sc] = 0, s.sc.Mode = 92, s.sc.Whitespace = 9728;
  returns s;
  ensures applied(ret.sc.IsIdentRune, ch, i) == letter(ch);
}

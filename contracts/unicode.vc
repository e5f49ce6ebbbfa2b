// Symbols and their characters (C26).

uf firstRune(p string) int
uf firstSize(p string) int
func unicode/utf8.DecodeRune(p) assumed {
  let s = bytestr(seq(p));
  returns firstRune(s), firstSize(s);
  ensures len(s) == 1 && s[0] < 128 ==> ret0 == s[0];
}
uf replaced(s string, a string, b string, n int) string
func strings.Replace(s, a, b, n) assumed { returns replaced(s, a, b, n); }

// the replacement character stands for "no character"
macro plain(v string) bool = firstRune(v) != 65533
macro byItself(v string) bool = len(v) == 1 && plain(v)
macro bare(v string) string = replaced(v, "\\", "", 1)
macro known(v string, math bool) bool =
  math ? v == "-" || byItself(v) || has(tex2unicode.tex2uni, bare(v)) : plain(v)
macro charOf(v string, math bool) int =
  !math ? firstRune(v) : v == "-" ? 8722 : byItself(v) ? firstRune(v) : tex2unicode.tex2uni[bare(v)]
func internal/tex2unicode.Index(v, math) {
  props C25, C26;
  panics !known(v, math);
  returns charOf(v, math);
  ensures [C26] math && len(v) == 1 && v != "-" && v[0] < 128 ==> ret == v[0];
}
func internal/tex2unicode.HasSymbol(v) {
  props C26;
  returns has(tex2uni, v);
}

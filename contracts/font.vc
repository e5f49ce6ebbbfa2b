// The rendering backend, as the tex package sees it.  Metrics and kerning are
// functions of their arguments (C25 is about the bundled backend keeping to
// this); drawing calls are recorded, in order, in $out.

ghost $out seq any

uf metrics(be font.Backend, sym string, f font.Font, dpi float64, math bool) font.Metrics
uf kernOf(be font.Backend, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64
uf xheight(be font.Backend, f font.Font, dpi float64) float64
uf ulthick(be font.Backend, f font.Font, dpi float64) float64

iface font.Backend.Metrics(be, symbol, f, dpi, math) assumed { returns metrics(be, symbol, f, dpi, math); }
iface font.Backend.Kern(be, f1, s1, f2, s2, dpi) assumed { returns kernOf(be, f1, s1, f2, s2, dpi); }
iface font.Backend.XHeight(be, f, dpi) assumed { returns xheight(be, f, dpi); }
iface font.Backend.UnderlineThickness(be, f, dpi) assumed { returns ulthick(be, f, dpi); }
iface font.Backend.RenderGlyph(be, x, y, f, symbol, dpi) assumed {
  assigns $out = $out ++ [box($glyph, be, x, y, f, symbol, dpi)];
}
iface font.Backend.RenderRectFilled(be, x1, y1, x2, y2) assumed {
  assigns $out = $out ++ [box($rect, be, x1, y1, x2, y2)];
}

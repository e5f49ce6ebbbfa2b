// The TrueType backend (C24, C25, C26, C31).

fieldinv font/ttf.Backend.glyphs(v) = v != nil
fieldinv font/ttf.Backend.fonts(v) = v != nil
fieldinv font/ttf.Backend.canvas(v) = v != nil

// font files, by their contents
uf fontOf(src []byte) *sfnt.Font
uf fontError(src []byte) error
func "golang.org/x/image/font/sfnt.Parse"(src) assumed {
  returns fontOf(src), fontError(src);
}
macro served(be *ttf.Backend, class string) *sfnt.Font = be.fonts[class]

effect backendOn(cnv *drawtex.Canvas, fnts *ttf.Fonts) *ttf.Backend {
  let m = newmap(map[string]*sfnt.Font);
  assigns m["default"] = fnts.Default, m["regular"] = fnts.Rm, m["rm"] = fnts.Rm, m["it"] = fnts.It, m["bf"] = fnts.Bf;
  let g = newmap(map[ttf.ttfKey]ttf.ttfVal);
  returns new ttf.Backend{ canvas: cnv, glyphs: g, fonts: m };
}
func font/ttf.NewFrom(cnv, fnts) {
  props C24, C31;
  requires cnv != nil; requires fnts != nil;
  let b = run backendOn(cnv, fnts);
  returns b;
}
func font/ttf.New(cnv) {
  props C24, C31;
  requires cnv != nil;
  let b = run backendOn(cnv, &defaultFonts);
  returns b;
  ensures [C31] served(ret, "rm") == fontOf(goregular.TTF) && served(ret, "regular") == fontOf(goregular.TTF) && served(ret, "default") == fontOf(goregular.TTF);
  ensures [C31] served(ret, "it") == fontOf(goitalic.TTF) && served(ret, "bf") == fontOf(gobold.TTF);
}

// What the font library reports (assumed to depend on the arguments only).
uf nameOf(f *sfnt.Font, id int) string
uf nameError(f *sfnt.Font, id int) error
uf glyphOf(f *sfnt.Font, r int) int
uf glyphError(f *sfnt.Font, r int) error
uf glyphName(f *sfnt.Font, g int) string
uf glyphNameError(f *sfnt.Font, g int) error
uf loadError(f *sfnt.Font, g int, ppem int) error
uf advanceOf(f *sfnt.Font, g int, ppem int, h int) int
uf advanceError(f *sfnt.Font, g int, ppem int, h int) error
uf boundsOf(f *sfnt.Font, g int, ppem int, h int) fixed.Rectangle26_6
uf boundsError(f *sfnt.Font, g int, ppem int, h int) error
uf unitsOf(f *sfnt.Font) int
uf pairKern(f *sfnt.Font, a int, b int, ppem int, h int) int
uf pairKernError(f *sfnt.Font, a int, b int, ppem int, h int) error
uf isIn(t *unicode.RangeTable, r int) bool
uf errorIs(e error, target error) bool
func "golang.org/x/image/font/sfnt.(*Font).Name"(f, b, id) assumed { returns nameOf(f, id), nameError(f, id); }
func "golang.org/x/image/font/sfnt.(*Font).GlyphIndex"(f, b, r) assumed { returns glyphOf(f, r), glyphError(f, r); }
func "golang.org/x/image/font/sfnt.(*Font).GlyphName"(f, b, g) assumed { returns glyphName(f, g), glyphNameError(f, g); }
func "golang.org/x/image/font/sfnt.(*Font).LoadGlyph"(f, b, g, ppem, o) assumed { returns some(sfnt.Segments), loadError(f, g, ppem); }
func "golang.org/x/image/font/sfnt.(*Font).GlyphAdvance"(f, b, g, ppem, h) assumed { returns advanceOf(f, g, ppem, h), advanceError(f, g, ppem, h); }
func "golang.org/x/image/font/sfnt.(*Font).GlyphBounds"(f, b, g, ppem, h) assumed { returns boundsOf(f, g, ppem, h), advanceOf(f, g, ppem, h), boundsError(f, g, ppem, h); }
func "golang.org/x/image/font/sfnt.(*Font).UnitsPerEm"(f) assumed { returns unitsOf(f); }
func "golang.org/x/image/font/sfnt.(*Font).Kern"(f, b, x, y, ppem, h) assumed { returns pairKern(f, x, y, ppem, h), pairKernError(f, x, y, ppem, h); }
func "golang.org/x/image/math/fixed.I"(i) assumed { returns i * 64; }
func unicode.Is(t, r) assumed { returns t == unicode.L || t == unicode.Letter ? letter(r) : isIn(t, r); }
func errors.Is(e, target) assumed { returns errorIs(e, target); }

// Only letters are set in italics (C26).
macro classFor(class string, r int) string = class == "it" && r < 65536 && !letter(r) ? "rm" : class
macro slantedIn(class string, symbol string) bool = class == "it" || symbol == "\\int" || symbol == "\\oint"
func font/ttf.(*Backend).getGlyph(be, symbol, font, math) {
  props C25, C26;
  requires be != nil;
  panics !known(symbol, math) || be.fonts[classFor(font.Type, charOf(symbol, math))] == nil;
  let r = charOf(symbol, math);
  let class = classFor(font.Type, r);
  returns be.fonts[class], r, symbol, font.Size, slantedIn(class, symbol);
}
macro offsetIn(ft *sfnt.Font, height float64, f font.Font, dpi float64) float64 =
  nameOf(ft, 6) == "Cmex10" ? height / 2.0 + ((f.Size / 3.0) * dpi) / 72.0 : 0.0
macro inkAt(f font.Font, x int) float64 = ((f.Size / 12.0) * float(x)) / 64.0
macro metricsIn(f font.Font, slanted bool, adv int, xmin float64, xmax float64, ymin float64, ymax float64, off float64) font.Metrics =
  struct font.Metrics{
    Advance: ((float(adv) / 65536.0) * f.Size) / 12.0,
    Height: ymax - ymin, Width: xmax - xmin,
    XMin: xmin, XMax: xmax, YMin: ymin + off, YMax: ymax + off, Iceberg: ymax + off,
    Slanted: slanted }
macro inked(ft *sfnt.Font, f font.Font, dpi float64, slanted bool, adv int, b fixed.Rectangle26_6) font.Metrics =
  metricsIn(f, slanted, adv, inkAt(f, b.Min.X), inkAt(f, b.Max.X), inkAt(f, 0 - b.Max.Y), inkAt(f, 0 - b.Min.Y),
    offsetIn(ft, inkAt(f, 0 - b.Min.Y) - inkAt(f, 0 - b.Max.Y), f, dpi))
macro glyphIn(ft *sfnt.Font, r int, symbol string, f font.Font, dpi float64, class string) ttf.ttfVal =
  struct ttf.ttfVal{
    font: ft, size: f.Size, postscript: nameOf(ft, 6),
    metrics: inked(ft, f, dpi, slantedIn(class, symbol), advanceOf(ft, glyphOf(ft, r), unitsOf(ft) * 384, 0), boundsOf(ft, glyphOf(ft, r), 768, 0)),
    symbolName: glyphName(ft, glyphOf(ft, r)), rune: r, glyph: glyphOf(ft, r),
    offset: offsetIn(ft, inkAt(f, 0 - boundsOf(ft, glyphOf(ft, r), 768, 0).Min.Y) - inkAt(f, 0 - boundsOf(ft, glyphOf(ft, r), 768, 0).Max.Y), f, dpi) }
macro infoOf(be *ttf.Backend, symbol string, f font.Font, dpi float64, math bool) ttf.ttfVal =
  glyphIn(be.fonts[classFor(f.Type, charOf(symbol, math))], charOf(symbol, math), symbol, f, dpi, classFor(f.Type, charOf(symbol, math)))
// What the cache holds was computed for its key, be it for text or math.
writers [C25, C26, C31] font/ttf.Backend.glyphs, font/ttf.Backend.fonts, font/ttf.Backend.canvas by font/ttf.NewFrom, font/ttf.(*Backend).getInfo;
mapinv font/ttf.Backend.glyphs(b, k, v) =
  v == infoOf(b, k.symbol, k.font, k.dpi, true) || v == infoOf(b, k.symbol, k.font, k.dpi, false)
// The cache does not tell text from math (known finding): where the two are
// different characters, the answer is that of whichever was asked for first.
macro oneChar(v string) bool = charOf(v, true) == charOf(v, false)
func font/ttf.(*Backend).getInfo(be, symbol, fnt, dpi, math) {
  props C25, C26;
  requires be != nil;
  maypanic;
  let key = struct ttf.ttfKey{ symbol: symbol, font: fnt, dpi: dpi };
  if has(be.glyphs, key) { returns be.glyphs[key]; }
  else {
    let v = infoOf(be, symbol, fnt, dpi, math);
    assigns be.glyphs[key] = v;
    returns v;
  }
  ensures [C25, C26] oneChar(symbol) ==> ret == infoOf(be, symbol, fnt, dpi, math);
  ensures [C25, C26] ret == infoOf(be, symbol, fnt, dpi, true) || ret == infoOf(be, symbol, fnt, dpi, false);
}

effect looked(be *ttf.Backend, symbol string, fnt font.Font, dpi float64, math bool) ttf.ttfVal {
  let key = struct ttf.ttfKey{ symbol: symbol, font: fnt, dpi: dpi };
  let v = has(be.glyphs, key) ? be.glyphs[key] : infoOf(be, symbol, fnt, dpi, math);
  assigns be.glyphs[key] = v;
  returns v;
}
func font/ttf.(*Backend).Metrics(be, symbol, fnt, dpi, math) {
  props C25, C26;
  requires be != nil;
  maypanic;
  let v = run looked(be, symbol, fnt, dpi, math);
  returns v.metrics;
  ensures [C25, C26] oneChar(symbol) ==> ret == infoOf(be, symbol, fnt, dpi, math).metrics;
}
// What is drawn is what was measured: same face, character and metrics (C26).
macro drawnAs(v ttf.ttfVal) drawtex.Glyph = struct drawtex.Glyph{ Font: v.font, Size: v.size, Postscript: v.postscript, Metrics: v.metrics, Symbol: runestr(v.rune), Num: v.glyph, Offset: v.offset }
func font/ttf.(*Backend).RenderGlyph(be, x, y, font, symbol, dpi) {
  props C26;
  requires be != nil;
  maypanic;
  let v = run looked(be, symbol, font, dpi, true);
  assigns be.canvas.ops = slice(seq(be.canvas.ops) ++ [box(drawtex.GlyphOp, struct drawtex.GlyphOp{ X: x, Y: y, Glyph: drawnAs(v) })]);
}
func font/ttf.(*Backend).RenderRectFilled(be, x1, y1, x2, y2) {
  props C26;
  requires be != nil;
  assigns be.canvas.ops = slice(seq(be.canvas.ops) ++ [box(drawtex.RectOp, struct drawtex.RectOp{ X1: x1, Y1: y1, X2: x2, Y2: y2 })]);
}
func font/ttf.(*Backend).UnderlineThickness(be, f, dpi) {
  props C25;
  returns ((0.0625 * f.Size) * dpi) / 72.0;
}
uf faceMetrics(f image/font.Face) image/font.Metrics
iface "golang.org/x/image/font.Face.Metrics"(f) assumed { returns faceMetrics(f); }
func font/ttf.(*Backend).XHeight(be, fnt, dpi) {
  props C25;
  requires be != nil;
  maypanic;
  let ft = be.fonts[fnt.Type];
  returns float(0 - faceMetrics(cast(faceOf(ft, dpi, fnt.Size, 0), type(image/font.Face))).XHeight) / 64.0;
}
func font/ttf.(*Backend).Kern(be, f1, s1, f2, s2, dpi) {
  props C25;
  requires be != nil;
  maypanic;
  if f1.Name == f2.Name && f1.Size == f2.Size {
    let a = run looked(be, s1, f1, dpi, true);
    let b = run looked(be, s2, f2, dpi, true);
    let e = pairKernError(a.font, a.glyph, b.glyph, unitsOf(a.font), 0);
    returns e == nil ? float(pairKern(a.font, a.glyph, b.glyph, unitsOf(a.font), 0)) / 64.0 : 0.0;
  } else {
    returns 0.0;
  }
  ensures [C25] f1.Name != f2.Name || f1.Size != f2.Size ==> ret == 0.0;
}

// Bundled families (C31). Nothing but Fonts writes the variables of the two
// packages; $once tells the Once objects already used.
writers [C31] font/lm.fnts, font/lm.once by font/lm.Fonts;
writers [C31] font/liberation.fnts, font/liberation.once by font/liberation.Fonts;
ghost $once[*sync.Once] bool
macro family(f *ttf.Fonts, rm *sfnt.Font, it *sfnt.Font, bf *sfnt.Font, bfit *sfnt.Font) bool =
  f != nil && f.Default == rm && f.Rm == rm && f.It == it && f.Bf == bf && f.BfIt == bfit
func font/lm.Fonts() {
  props C31;
  requires $once[&once] ==> family(fnts, fontOf(lmroman10regular.TTF), fontOf(lmroman10italic.TTF), fontOf(lmroman10bold.TTF), fontOf(lmroman10bolditalic.TTF));
  maypanic;
  if !$once[&once] {
    let f = new ttf.Fonts{ Default: fontOf(lmroman10regular.TTF), Rm: fontOf(lmroman10regular.TTF), It: fontOf(lmroman10italic.TTF), Bf: fontOf(lmroman10bold.TTF), BfIt: fontOf(lmroman10bolditalic.TTF) };
    assigns fnts = f, $once[&once] = true;
    returns f;
  } else {
    returns fnts;
  }
  ensures $once[&once] && ret == fnts && family(fnts, fontOf(lmroman10regular.TTF), fontOf(lmroman10italic.TTF), fontOf(lmroman10bold.TTF), fontOf(lmroman10bolditalic.TTF));
}
func font/liberation.Fonts() {
  props C31;
  requires $once[&once] ==> family(fnts, fontOf(liberationserifregular.TTF), fontOf(liberationserifitalic.TTF), fontOf(liberationserifbold.TTF), fontOf(liberationserifbolditalic.TTF));
  maypanic;
  if !$once[&once] {
    let f = new ttf.Fonts{ Default: fontOf(liberationserifregular.TTF), Rm: fontOf(liberationserifregular.TTF), It: fontOf(liberationserifitalic.TTF), Bf: fontOf(liberationserifbold.TTF), BfIt: fontOf(liberationserifbolditalic.TTF) };
    assigns fnts = f, $once[&once] = true;
    returns f;
  } else {
    returns fnts;
  }
  ensures $once[&once] && ret == fnts && family(fnts, fontOf(liberationserifregular.TTF), fontOf(liberationserifitalic.TTF), fontOf(liberationserifbold.TTF), fontOf(liberationserifbolditalic.TTF));
}

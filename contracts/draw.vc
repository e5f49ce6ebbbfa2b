// Drawing (C27).

owned drawtex.Canvas.ops;
// what is recorded is a glyph or a rectangle
macro recorded(op drawtex.Op) bool = match op { drawtex.GlyphOp as o: true; drawtex.RectOp as o: true; _: false; }
eleminv drawtex.Op(v) = recorded(v)

func drawtex.New() { props C27; returns new drawtex.Canvas{}; }
func drawtex.(*Canvas).RenderGlyph(c, x, y, infos) {
  props C27;
  assigns c.ops = slice(seq(c.ops) ++ [box(drawtex.GlyphOp, struct drawtex.GlyphOp{ X: x, Y: y, Glyph: infos })]);
}
func drawtex.(*Canvas).RenderRectFilled(c, x1, y1, x2, y2) {
  props C27;
  assigns c.ops = slice(seq(c.ops) ++ [box(drawtex.RectOp, struct drawtex.RectOp{ X1: x1, Y1: y1, X2: x2, Y2: y2 })]);
}
func drawtex.(*Canvas).Ops(c) {
  props C27;
  returns c.ops;
}

// Pictures. $drawn is what was done to each drawing context, in order; the
// drawing library and the encoder are assumed.
ghost $drawn[*gg.Context] seq any
ghost $encoded seq any
uf faceOf(f *sfnt.Font, dpi float64, size float64, hinting int) any
uf faceError(f *sfnt.Font, dpi float64, size float64, hinting int) error
uf imageOf(done seq any) any
uf encodeError(w io.Writer, img any) error

effect act(g *gg.Context, what any) { assigns $drawn[g] = $drawn[g] ++ [what]; }
func "git.sr.ht/~sbinet/gg.NewContext"(w, h) assumed {
  let g = new gg.Context{};
  assigns $drawn[g] = [box($context, w, h)];
  returns g;
}
func "git.sr.ht/~sbinet/gg.(*Context).SetColor"(g, c) assumed { run act(g, box($color, c)); }
func "git.sr.ht/~sbinet/gg.(*Context).SetFontFace"(g, f) assumed { run act(g, box($face, f)); }
func "git.sr.ht/~sbinet/gg.(*Context).DrawString"(g, s, x, y) assumed { run act(g, box($string, s, x, y)); }
func "git.sr.ht/~sbinet/gg.(*Context).NewSubPath"(g) assumed { run act(g, box($path, 0)); }
func "git.sr.ht/~sbinet/gg.(*Context).MoveTo"(g, x, y) assumed { run act(g, box($move, x, y)); }
func "git.sr.ht/~sbinet/gg.(*Context).LineTo"(g, x, y) assumed { run act(g, box($line, x, y)); }
func "git.sr.ht/~sbinet/gg.(*Context).ClosePath"(g) assumed { run act(g, box($close, 0)); }
func "git.sr.ht/~sbinet/gg.(*Context).Fill"(g) assumed { run act(g, box($fill, 0)); }
func "git.sr.ht/~sbinet/gg.(*Context).Image"(g) assumed { returns imageOf($drawn[g]); }
func "image/png.Encode"(w, img) assumed {
  assigns $encoded = $encoded ++ [box($png, w, img)];
  returns encodeError(w, img);
}
func "golang.org/x/image/font/opentype.NewFace"(f, o) assumed {
  let e = faceError(f, o.DPI, o.Size, o.Hinting);
  returns e == nil ? faceOf(f, o.DPI, o.Size, o.Hinting) : nil, e;
}

macro glyphActs(op drawtex.GlyphOp, dpi float64) seq any = [
  box($face, faceOf(op.Glyph.Font, dpi, op.Glyph.Size, 0)),
  box($string, op.Glyph.Symbol, op.X * (dpi / 72.0), op.Y * (dpi / 72.0)) ]
func drawtex/drawimg.drawGlyph(ctx, dpi, op) {
  props C27;
  requires ctx != nil;
  maypanic;
  assigns $drawn[ctx] = $drawn[ctx] ++ glyphActs(op, dpi);
}
uf closeError(c io.Closer) error
iface io.Closer.Close(c) assumed { returns closeError(c); }

macro rectActs(op drawtex.RectOp, by float64) seq any = [
  box($path, 0),
  box($move, op.X1 * by, op.Y1 * by),
  box($line, op.X2 * by, op.Y1 * by),
  box($line, op.X2 * by, op.Y2 * by),
  box($line, op.X1 * by, op.Y2 * by),
  box($line, op.X1 * by, op.Y1 * by),
  box($close, 0),
  box($fill, 0) ]
func drawtex/drawimg.drawRect(ctx, dpi, op) {
  props C27;
  requires ctx != nil;
  assigns $drawn[ctx] = $drawn[ctx] ++ rectActs(op, dpi / 72.0);
}
macro acts(op drawtex.Op, dpi float64) seq any = match op {
  drawtex.GlyphOp as o: glyphActs(o, dpi);
  drawtex.RectOp as o: rectActs(o, dpi / 72.0);
  _: [box($refused, op)];
}
fold drawing(q seq drawtex.Op; op)(before seq any, dpi float64) {
  all seq any = before -> all ++ acts(op, dpi);
}
func drawtex/drawimg.NewRenderer(w) { props C27; returns new drawtex/drawimg.Renderer{ w: w }; }
func drawtex/drawimg.(*Renderer).Render(r, width, height, dpi, c) {
  props C27;
  maypanic;
  let g = new gg.Context{};
  let start = [box($context, toint(ceil(width * dpi)), toint(ceil(height * dpi))), box($color, box(color.Gray16, color.Black))];
  assigns $drawn[g] = drawing(seq(c.ops))(start, dpi).all;
  let img = imageOf($drawn[g]);
  assigns $encoded = $encoded ++ [box($png, r.w, img)];
  returns encodeError(r.w, img);
}

// PDF files
ghost $pdf seq any
func "github.com/go-pdf/fpdf.NewCustom"(o) assumed {
  assigns $pdf = $pdf ++ [box($new, o.UnitStr, o.Size.Wd, o.Size.Ht)];
  returns new fpdf.Fpdf{};
}
func "github.com/go-pdf/fpdf.(*Fpdf).AddPage"(d) assumed { assigns $pdf = $pdf ++ [box($page, 0)]; }
uf pdfError(fname string, past seq any) error
func "github.com/go-pdf/fpdf.(*Fpdf).OutputFileAndClose"(d, fname) assumed {
  let past = $pdf;
  assigns $pdf = past ++ [box($output, fname)];
  returns pdfError(fname, past);
}
func log.Panicf(f, args) assumed never;
func drawtex/drawpdf.Write(fname, w, h, c) {
  props C27;
  requires c != nil;
  let start = $pdf ++ [box($new, "pt", w, h), box($page, 0)];
  assigns $pdf = start ++ [box($output, fname)];
  returns pdfError(fname, start);
}

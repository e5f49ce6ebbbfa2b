// Packing (C10, C11, C12) and construction (C13, C17) of lists.

macro runH(b tex.Box) bool = isinf(b.height) || isinf(b.depth)
macro hpH(b tex.Box, s float64, h float64) float64 = isinf(b.height) || isinf(b.depth) ? h : max(h, b.height - s)
macro hpD(b tex.Box, s float64, d float64) float64 = isinf(b.height) || isinf(b.depth) ? d : max(d, b.depth + s)

// what one child adds to the height and depth of a horizontal list
macro hpackH(n tex.Node, h float64) float64 = match n {
  *tex.Box as b: isinf(b.height) || isinf(b.depth) ? h : max(h, b.height);
  *tex.Char as c: max(h, c.height);
  tex.Char as c: max(h, c.height);
  *tex.Accent as a: max(h, a.char.height);
  *tex.List as l: hpH(l.box, l.shift, h);
  *tex.HList as l: hpH(l.lst.box, l.lst.shift, h);
  *tex.VList as l: hpH(l.lst.box, l.lst.shift, h);
  *tex.Rule as r: isinf(r.box.height) || isinf(r.box.depth) ? h : max(h, r.box.height);
  *tex.SubSuperCluster as s: hpH(s.HList.lst.box, s.HList.lst.shift, h);
  tex.SubSuperCluster as s: hpH(s.HList.lst.box, s.HList.lst.shift, h);
  _: h;
}
macro hpackD(n tex.Node, d float64) float64 = match n {
  *tex.Box as b: isinf(b.height) || isinf(b.depth) ? d : max(d, b.depth);
  *tex.Char as c: max(d, c.depth);
  tex.Char as c: max(d, c.depth);
  *tex.Accent as a: max(d, a.char.depth);
  *tex.List as l: hpD(l.box, l.shift, d);
  *tex.HList as l: hpD(l.lst.box, l.lst.shift, d);
  *tex.VList as l: hpD(l.lst.box, l.lst.shift, d);
  *tex.Rule as r: isinf(r.box.height) || isinf(r.box.depth) ? d : max(d, r.box.depth);
  *tex.SubSuperCluster as s: hpD(s.HList.lst.box, s.HList.lst.shift, d);
  tex.SubSuperCluster as s: hpD(s.HList.lst.box, s.HList.lst.shift, d);
  _: d;
}
macro glueSt(n tex.Node, st [4]float64) [4]float64 = match n {
  *tex.Glue as g: put(st, g.stretchOrder, st[g.stretchOrder] + g.stretch);
  _: st;
}
macro glueSh(n tex.Node, sh [4]float64) [4]float64 = match n {
  *tex.Glue as g: put(sh, g.shrinkOrder, sh[g.shrinkOrder] + g.shrink);
  _: sh;
}

iface tex.hpacker.hpackDims(n, width, height, depth, stretch, shrink) {
  props C10, C12;
  requires (solid(n) || is(n, tex.Char)) && isobj(width) && isobj(height) && isobj(depth) && width != height && width != depth && height != depth
    && width != nil && height != nil && depth != nil;
  requires len(stretch) == 4 && len(shrink) == 4 && arr(stretch) != arr(shrink) && off(stretch) == 0 && off(shrink) == 0;
  assigns *width = *width + widthOf(n), *height = hpackH(n, *height), *depth = hpackD(n, *depth);
  match n {
    *tex.Glue as g: {
      assigns stretch[g.stretchOrder] = stretch[g.stretchOrder] + g.stretch,
              shrink[g.shrinkOrder] = shrink[g.shrinkOrder] + g.shrink;
    }
    _: {}
  }
}

fold hdims(q seq tex.Node; n)() {
  x float64 = 0.0 -> x + widthOf(n);
  h float64 = 0.0 -> hpackH(n, h);
  d float64 = 0.0 -> hpackD(n, d);
  st [4]float64 = zero([4]float64) -> glueSt(n, st);
  sh [4]float64 = zero([4]float64) -> glueSh(n, sh);
}

// the highest order of infinity with any glue
macro orderOf(t [4]float64) int = t[3] != 0.0 ? 3 : t[2] != 0.0 ? 2 : t[1] != 0.0 ? 1 : 0
macro totalOf(t [4]float64) float64 = t[3] != 0.0 ? t[3] : t[2] != 0.0 ? t[2] : t[1] != 0.0 ? t[1] : t[0]

effect setGlue(l *tex.List, x float64, sign int, t [4]float64) {
  assigns l.glue.order = orderOf(t);
  if totalOf(t) != 0.0 { assigns l.glue.sign = sign, l.glue.set = x / totalOf(t); }
  else { assigns l.glue.sign = 0, l.glue.ratio = 0.0; }
}

effect packGlue(l *tex.List, x float64, st [4]float64, sh [4]float64) {
  if x == 0.0 { assigns l.glue.sign = 0, l.glue.order = 0, l.glue.ratio = 0.0; }
  else { if x > 0.0 { run setGlue(l, x, 1, st); } else { run setGlue(l, x, -1, sh); } }
}

effect hpack(l *tex.HList, q seq tex.Node, width float64, additional bool) {
  let x = hdims(q)().x;
  let st = hdims(q)().st;
  let sh = hdims(q)().sh;
  let w = additional ? width + x : width;
  assigns l.lst.box.height = hdims(q)().h, l.lst.box.depth = hdims(q)().d, l.lst.box.width = w;
  run packGlue(&l.lst, w - x, st, sh);
}

func tex.(*HList).HPack(lst, width, additional) {
  props C10, C12;
  run hpack(lst, seq(lst.lst.children), width, additional);
}

// vertical lists
macro vpW(b tex.Box, s float64, w float64) float64 = isinf(b.width) ? w : max(w, b.width + s)
macro vpackW(n tex.Node, w float64) float64 = match n {
  *tex.Box as b: isinf(b.width) ? w : max(w, b.width);
  *tex.List as l: vpW(l.box, l.shift, w);
  *tex.HList as l: vpW(l.lst.box, l.lst.shift, w);
  *tex.VList as l: vpW(l.lst.box, l.lst.shift, w);
  *tex.Rule as r: isinf(r.box.width) ? w : max(w, r.box.width);
  *tex.SubSuperCluster as s: vpW(s.HList.lst.box, s.HList.lst.shift, w);
  tex.SubSuperCluster as s: vpW(s.HList.lst.box, s.HList.lst.shift, w);
  _: w;
}
// glue and kerns count as height, without depth
macro vpackX(n tex.Node, x float64, d float64) float64 = match n {
  *tex.Glue as g: (x + d) + g.width;
  *tex.Kern as k: x + (d + k.width);
  _: x + (d + heightOf(n));
}
macro isText(n tex.Node) bool = is(n, *tex.Char) || is(n, *tex.Accent)

iface tex.vpacker.vpackDims(n, width, height, depth, stretch, shrink) {
  props C11, C12;
  requires solid(n) && isobj(width) && isobj(height) && isobj(depth) && width != height && width != depth && height != depth
    && width != nil && height != nil && depth != nil;
  requires len(stretch) == 4 && len(shrink) == 4 && arr(stretch) != arr(shrink) && off(stretch) == 0 && off(shrink) == 0;
  panics isText(n);
  assigns *width = vpackW(n, *width), *height = vpackX(n, *height, *depth), *depth = depthOf(n);
  match n {
    *tex.Glue as g: {
      assigns stretch[g.stretchOrder] = stretch[g.stretchOrder] + g.stretch,
              shrink[g.shrinkOrder] = shrink[g.shrinkOrder] + g.shrink;
    }
    _: {}
  }
}
fold vdims(q seq tex.Node; n)() {
  w float64 = 0.0 -> vpackW(n, w);
  x float64 = 0.0 -> vpackX(n, x, d);
  d float64 = 0.0 -> depthOf(n);
  st [4]float64 = zero([4]float64) -> glueSt(n, st);
  sh [4]float64 = zero([4]float64) -> glueSh(n, sh);
}
effect vpack(lst *tex.VList, q seq tex.Node, height float64, additional bool, l float64) {
  let w = vdims(q)().w;
  let x0 = vdims(q)().x;
  let d = vdims(q)().d;
  let st = vdims(q)().st;
  let sh = vdims(q)().sh;
  let x = d > l ? x0 + (d - l) : x0;
  let h = additional ? height + x : height;
  assigns lst.lst.box.width = w, lst.lst.box.depth = d > l ? l : d, lst.lst.box.height = h;
  run packGlue(&lst.lst, h - x, st, sh);
}
func tex.(*VList).VPack(lst, height, additional, l) {
  props C11, C12;
  maypanic;
  run vpack(lst, seq(lst.lst.children), height, additional, l);
}

// ---------- nodes

macro solid(n tex.Node) bool = match n {
  *tex.Box as b: b != nil;
  *tex.Char as c: c != nil;
  *tex.Accent as a: a != nil;
  *tex.List as l: l != nil;
  *tex.HList as l: l != nil;
  *tex.VList as l: l != nil;
  *tex.Rule as r: r != nil;
  *tex.Glue as g: g != nil;
  *tex.Kern as k: k != nil;
  *tex.SubSuperCluster as s: s != nil;
  tex.SubSuperCluster as s: s.HList != nil;
  nil: false;
  _: false;
}
eleminv tex.Node(v) = solid(v)
fieldinv tex.Char.be(v) = v != nil
fieldinv tex.State.be(v) = v != nil
fieldinv tex.Glue.stretchOrder(v) = 0 <= v && v <= 3
fieldinv tex.Glue.shrinkOrder(v) = 0 <= v && v <= 3
fieldinv tex.SubSuperCluster.HList(v) = v != nil

// dimensions of a node
macro widthOf(n tex.Node) float64 = match n {
  *tex.Box as b: b.width;
  *tex.Char as c: c.width;
  tex.Char as c: c.width;
  *tex.Accent as a: a.char.width;
  *tex.List as l: l.box.width;
  *tex.HList as l: l.lst.box.width;
  *tex.VList as l: l.lst.box.width;
  *tex.Rule as r: r.box.width;
  *tex.Glue as g: g.width;
  *tex.Kern as k: k.width;
  *tex.SubSuperCluster as s: s.HList.lst.box.width;
  tex.SubSuperCluster as s: s.HList.lst.box.width;
}
macro heightOf(n tex.Node) float64 = match n {
  *tex.Box as b: b.height;
  *tex.Char as c: c.height;
  tex.Char as c: c.height;
  *tex.Accent as a: a.char.height;
  *tex.List as l: l.box.height;
  *tex.HList as l: l.lst.box.height;
  *tex.VList as l: l.lst.box.height;
  *tex.Rule as r: r.box.height;
  *tex.Glue as g: 0.0;
  *tex.Kern as k: 0.0;
  *tex.SubSuperCluster as s: s.HList.lst.box.height;
  tex.SubSuperCluster as s: s.HList.lst.box.height;
}
macro depthOf(n tex.Node) float64 = match n {
  *tex.Box as b: b.depth;
  *tex.Char as c: c.depth;
  tex.Char as c: c.depth;
  *tex.Accent as a: a.char.depth;
  *tex.List as l: l.box.depth;
  *tex.HList as l: l.lst.box.depth;
  *tex.VList as l: l.lst.box.depth;
  *tex.Rule as r: r.box.depth;
  *tex.Glue as g: 0.0;
  *tex.Kern as k: 0.0;
  *tex.SubSuperCluster as s: s.HList.lst.box.depth;
  tex.SubSuperCluster as s: s.HList.lst.box.depth;
}

iface tex.Node.Width(n)  { props C10, C11, C15, C16; returns widthOf(n); }
iface tex.Node.Height(n) { props C10, C11, C15, C16; returns heightOf(n); }
iface tex.Node.Depth(n)  { props C10, C11, C15, C16; returns depthOf(n); }

// ---------- characters (C18)

macro charMetrics(c *tex.Char) font.Metrics = metrics(c.be, c.c, c.font, c.dpi, c.math)

func tex.NewChar(c, state, math) {
  props C18;
  requires state.be != nil;
  let m = metrics(state.be, c, state.Font, state.DPI, math);
  returns new tex.Char{ c: c, be: state.be, font: state.Font, dpi: state.DPI, math: math, metrics: m,
    width: c == " " ? m.Advance : m.Width,
    height: m.Iceberg,
    depth: -(m.Iceberg - m.Height) };
}
func tex.NewAccent(c, state, math) {
  props C18;
  requires state.be != nil;
  let m = metrics(state.be, c, state.Font, state.DPI, math);
  returns new tex.Accent{ char.c: c, char.be: state.be, char.font: state.Font, char.dpi: state.DPI, char.math: math,
    char.metrics: m, char.width: m.XMax - m.XMin, char.height: m.YMax - m.YMin };
}

// the distance between a node and the next one
macro charKern(c *tex.Char, next tex.Node) float64 =
  (c.metrics.Advance - c.width) + match next {
    *tex.Char as d: kernOf(c.be, c.font, c.c, d.font, d.c, c.dpi);
    *tex.Accent as d: kernOf(c.be, c.font, c.c, d.char.font, d.char.c, c.dpi);
    _: 0.0;
  }
macro kerning(n tex.Node, next tex.Node) float64 = match n {
  *tex.Char as c: charKern(c, next);
  *tex.Accent as a: charKern(&a.char, next);
  _: 0.0;
}
iface tex.Node.Kerning(n, next) { props C13; requires next == nil || solid(next); returns kerning(n, next); }

// ---------- sizes (C14)

effect shrinkBox(b *tex.Box) {
  let on = b.size + 1 < 6;
  assigns b.size = b.size + 1;
  if on { assigns b.width = b.width * 0.7, b.height = b.height * 0.7, b.depth = b.depth * 0.7; }
}
effect shrinkChar(b *tex.Char) {
  let on = b.size + 1 < 6;
  assigns b.size = b.size + 1;
  if on { assigns b.font.Size = b.font.Size * 0.7, b.width = b.width * 0.7, b.height = b.height * 0.7, b.depth = b.depth * 0.7; }
}
effect accentDims(a *tex.Accent) {
  let m = charMetrics(&a.char);
  assigns a.char.metrics = m, a.char.width = m.XMax - m.XMin, a.char.height = m.YMax - m.YMin, a.char.depth = 0.0;
}
effect shrinkList(l *tex.List) {
  run shrinkAll(seq(l.children));
  let on = l.box.size + 1 < 6;
  run shrinkBox(&l.box);
  if on { assigns l.shift = l.shift * 0.7, l.glue.set = l.glue.set * 0.7; }
}
fold shrinkAll(q seq tex.Node; x)() { do { run shrink(x); } }
effect shrink(n tex.Node) on n {
  match n {
    *tex.Box as b: { run shrinkBox(b); }
    *tex.Char as c: { run shrinkChar(c); }
    *tex.Accent as a: { run shrinkChar(&a.char); run accentDims(a); }
    *tex.List as l: { run shrinkList(l); }
    *tex.HList as l: { run shrinkList(&l.lst); }
    *tex.VList as l: { run shrinkList(&l.lst); }
    *tex.Rule as r: { run shrinkBox(&r.box); }
    *tex.Glue as g: {
      let on = g.size + 1 < 6;
      assigns g.size = g.size + 1;
      if on { assigns g.width = g.width * 0.7; }
    }
    *tex.Kern as k: {
      let on = k.size + 1 < 6;
      assigns k.size = k.size + 1;
      if on { assigns k.width = k.width * 0.7; }
    }
    *tex.SubSuperCluster as s: { run shrinkList(&s.HList.lst); }
    tex.SubSuperCluster as s: { run shrinkList(&s.HList.lst); }
  }
}
iface tex.Node.Shrink(n) { props C14; run shrink(n); }

macro grow1() float64 = 1.0/0.7
effect growBox(b *tex.Box) {
  assigns b.size = b.size - 1, b.width = b.width * grow1(), b.height = b.height * grow1(), b.depth = b.depth * grow1();
}
effect growChar(b *tex.Char) {
  assigns b.size = b.size - 1, b.font.Size = b.font.Size * grow1(), b.width = b.width * grow1(), b.height = b.height * grow1(), b.depth = b.depth * grow1();
}
effect growList(l *tex.List) {
  run growAll(seq(l.children));
  run growBox(&l.box);
  assigns l.shift = l.shift * grow1(), l.glue.set = l.glue.set * grow1();
}
fold growAll(q seq tex.Node; x)() { do { run grow(x); } }
effect grow(n tex.Node) on n {
  match n {
    *tex.Box as b: { run growBox(b); }
    *tex.Char as c: { run growChar(c); }
    *tex.Accent as a: { run growChar(&a.char); run accentDims(a); }
    *tex.List as l: { run growList(l); }
    *tex.HList as l: { run growList(&l.lst); }
    *tex.VList as l: { run growList(&l.lst); }
    *tex.Rule as r: { run growBox(&r.box); }
    *tex.Glue as g: { assigns g.size = g.size - 1, g.width = g.width * grow1(); }
    *tex.Kern as k: { assigns k.size = k.size - 1, k.width = k.width * grow1(); }
    *tex.SubSuperCluster as s: { run growList(&s.HList.lst); }
    tex.SubSuperCluster as s: { run growList(&s.HList.lst); }
  }
}
iface tex.Node.Grow(n) { props C14; run grow(n); }

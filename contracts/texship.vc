// Shipping (C15, C16).

macro listIn(n tex.Tree) *tex.List = match n {
  *tex.List as l: l;
  *tex.HList as l: &l.lst;
  *tex.VList as l: &l.lst;
  *tex.SubSuperCluster as s: &s.HList.lst;
  tex.SubSuperCluster as s: &s.HList.lst;
}
macro solidTree(n tex.Tree) bool = match n {
  *tex.List as l: l != nil;
  *tex.HList as l: l != nil;
  *tex.VList as l: l != nil;
  *tex.SubSuperCluster as s: s != nil;
  tex.SubSuperCluster as s: s.HList != nil;
  _: false;
}
iface tex.Tree.Nodes(n) { props C15, C16, C17; returns listIn(n).children; }
iface tex.Tree.GlueOrder(n) { props C15, C16; returns listIn(n).glue.order; }
iface tex.Tree.GlueSign(n) { props C15, C16; returns listIn(n).glue.sign; }
iface tex.Tree.GlueSet(n) { props C15, C16; returns listIn(n).glue.set; }

// drawing of a single node
effect renderNode(n tex.Node, x float64, y float64) {
  match n {
    *tex.Char as c: { assigns $out = $out ++ [box($glyph, c.be, x, y, c.font, c.c, c.dpi)]; }
    *tex.Accent as a: { assigns $out = $out ++ [box($glyph, a.char.be, x - a.char.metrics.XMin, y + a.char.metrics.YMin, a.char.font, a.char.c, a.char.dpi)]; }
    _: {}
  }
}
iface tex.Node.Render(n, x, y) { props C15, C16, C18; run renderNode(n, x, y); }
func tex.(*Rule).render(rule, x, y, w, h) {
  props C15, C16;
  panics rule.out == nil;
  assigns $out = $out ++ [box($rect, rule.out, x, y, x + w, y + h)];
}

// glue: stretch or shrink accumulate over the glue of the list's order, and
// the share of the list's setting is rounded as a whole
macro clampF(v float64) float64 = v < -1000000000.0 ? -1000000000.0 : v > 1000000000.0 ? 1000000000.0 : v
macro glueTaken(l *tex.List, g *tex.Glue, sign int, order int) bool =
  sign != 0 && (sign == 1 ? g.stretchOrder == order : g.shrinkOrder == order)
macro glueAmount(g *tex.Glue, sign int) float64 = sign == 1 ? g.stretch : g.shrink

macro glueSum(l *tex.List, n tex.Node, sign int, order int, sum float64) float64 = match n {
  *tex.Glue as g: glueTaken(l, g, sign, order) ? sum + glueAmount(g, sign) : sum;
  _: sum;
}
macro glueRound(l *tex.List, n tex.Node, sign int, order int, sum float64, was int) int = match n {
  *tex.Glue as g: glueTaken(l, g, sign, order) ? toint(round(clampF(l.glue.set * (sum + glueAmount(g, sign))))) : was;
  _: was;
}

effect shipRule(ship *tex.Ship, n tex.Node, w float64, h float64) {
  match n {
    *tex.Rule as r: {
      let x = ship.cur.h + ship.off.h;
      let y = ship.cur.v + ship.off.v;
      assigns $out = $out ++ [box($rect, r.out, x, y, x + w, y + h)];
    }
    _: {}
  }
}

fold hNodes(q seq tex.Node; n)(ship *tex.Ship, bx tex.Tree, sign int, order int, base float64) {
  sum float64 = 0.0 -> glueSum(listIn(bx), n, sign, order, sum);
  cur int = 0 -> glueRound(listIn(bx), n, sign, order, sum, cur);
  was int = 0 -> cur;
  do {
    match n {
      *tex.Char as c: { run renderNode(n, ship.cur.h + ship.off.h, ship.cur.v + ship.off.v); assigns ship.cur.h = ship.cur.h + c.width; }
      *tex.Accent as a: { run renderNode(n, ship.cur.h + ship.off.h, ship.cur.v + ship.off.v); assigns ship.cur.h = ship.cur.h + a.char.width; }
      *tex.Kern as k: { assigns ship.cur.h = ship.cur.h + k.width; }
      *tex.HList as l: {
        let edge = ship.cur.h;
        if len(l.lst.children) == 0 { assigns ship.cur.h = edge + l.lst.box.width; }
        else {
          assigns ship.cur.v = base + l.lst.shift;
          run hOut(ship, l);
          assigns ship.cur.h = edge + l.lst.box.width, ship.cur.v = base;
        }
      }
      *tex.VList as l: {
        let edge = ship.cur.h;
        if len(l.lst.children) == 0 { assigns ship.cur.h = edge + l.lst.box.width; }
        else {
          assigns ship.cur.v = base + l.lst.shift;
          run vOut(ship, l);
          assigns ship.cur.h = edge + l.lst.box.width, ship.cur.v = base;
        }
      }
      *tex.Glue as g: { assigns ship.cur.h = ship.cur.h + ((g.width - float(was)) + float(cur)); }
      _: {
        let h = isinf(heightOf(n)) ? heightOf(bx) : heightOf(n);
        let d = isinf(depthOf(n)) ? depthOf(bx) : depthOf(n);
        let w = widthOf(n);
        if h > 0.0 && w > 0.0 {
          assigns ship.cur.v = base + d;
          run shipRule(ship, n, w, h);
          assigns ship.cur.v = base;
        } else {}
        assigns ship.cur.h = ship.cur.h + w;
      }
    }
  };
}
effect hOut(ship *tex.Ship, bx tex.Tree) {
  let s = ship.cur.s;
  assigns ship.cur.s = s + 1, ship.maxPush = s + 1 > ship.maxPush ? s + 1 : ship.maxPush;
  run hNodes(seq(listIn(bx).children))(ship, bx, listIn(bx).glue.sign, listIn(bx).glue.order, ship.cur.v);
  assigns ship.cur.s = ship.cur.s - 1;
}
func tex.(*Ship).hlistOut(ship, bx) {
  props C15, C16;
  maypanic;
  requires solidTree(bx);
  split is(bx, *tex.List), is(bx, *tex.HList), is(bx, *tex.VList), is(bx, *tex.SubSuperCluster), is(bx, tex.SubSuperCluster);
  run hOut(ship, bx);
}

fold vNodes(q seq tex.Node; n)(ship *tex.Ship, bx tex.Tree, sign int, order int, left float64) {
  sum float64 = 0.0 -> glueSum(listIn(bx), n, sign, order, sum);
  cur int = 0 -> glueRound(listIn(bx), n, sign, order, sum, cur);
  was int = 0 -> cur;
  do {
    match n {
      *tex.Char as c: { assigns $out = $out ++ [box($refused, 0)]; }
      *tex.Accent as a: { assigns $out = $out ++ [box($refused, 0)]; }
      *tex.Kern as k: { assigns ship.cur.v = ship.cur.v + k.width; }
      *tex.HList as l: {
        if len(l.lst.children) == 0 { assigns ship.cur.v = ship.cur.v + (l.lst.box.height + l.lst.box.depth); }
        else {
          let v = ship.cur.v + l.lst.box.height;
          assigns ship.cur.v = v, ship.cur.h = left + l.lst.shift, l.lst.box.width = widthOf(bx);
          run hOut(ship, l);
          assigns ship.cur.v = v + l.lst.box.depth, ship.cur.h = left;
        }
      }
      *tex.VList as l: {
        if len(l.lst.children) == 0 { assigns ship.cur.v = ship.cur.v + (l.lst.box.height + l.lst.box.depth); }
        else {
          let v = ship.cur.v + l.lst.box.height;
          assigns ship.cur.v = v, ship.cur.h = left + l.lst.shift, l.lst.box.width = widthOf(bx);
          run vOut(ship, l);
          assigns ship.cur.v = v + l.lst.box.depth, ship.cur.h = left;
        }
      }
      *tex.Glue as g: { assigns ship.cur.v = ship.cur.v + ((g.width - float(was)) + float(cur)); }
      _: {
        let w = isinf(widthOf(n)) ? widthOf(bx) : widthOf(n);
        let d = depthOf(n);
        let h = heightOf(n) + d;
        if h > 0.0 && d > 0.0 {
          assigns ship.cur.v = ship.cur.v + h;
          run shipRule(ship, n, w, h);
        } else {}
      }
    }
  };
}
effect vOut(ship *tex.Ship, bx tex.Tree) {
  let s = ship.cur.s;
  let left = ship.cur.h;
  assigns ship.cur.s = s + 1, ship.maxPush = s + 1 > ship.maxPush ? s + 1 : ship.maxPush, ship.cur.v = ship.cur.v - heightOf(bx);
  run vNodes(seq(listIn(bx).children))(ship, bx, listIn(bx).glue.sign, listIn(bx).glue.order, left);
  assigns ship.cur.s = ship.cur.s - 1;
}
func tex.(*Ship).vlistOut(ship, bx) {
  props C16;
  maypanic;
  requires solidTree(bx);
  split is(bx, *tex.List), is(bx, *tex.HList), is(bx, *tex.VList), is(bx, *tex.SubSuperCluster), is(bx, tex.SubSuperCluster);
  run vOut(ship, bx);
}
func tex.(*Ship).Call(ship, ox, oy, bx) {
  props C15, C24;
  maypanic;
  requires solidTree(bx);
  assigns ship.maxPush = 0, ship.cur.s = 0, ship.cur.v = 0.0, ship.cur.h = 0.0, ship.off.h = ox, ship.off.v = oy + heightOf(bx);
  run hOut(ship, bx);
}

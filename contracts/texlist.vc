// Construction of nodes and lists (C13, C17).

effect bump() { assigns $alloc = $alloc + 1; }

func tex.NewKern(width) { props C13, C17; returns new tex.Kern{ width: width }; }

// the elements of a kerned list: after each element, a kern of its kerning
// with its right neighbour unless that is zero
macro nextIn(q seq tex.Node, i int) tex.Node = i < len(q) - 1 ? q[i+1] : nil
macro kernPart(x tex.Node, d float64, i int) seq tex.Node =
  d != 0.0 ? [x, new@(i) tex.Kern{ width: d }] : [x]
fold kerned(q seq tex.Node; x, i)(all seq tex.Node) {
  acc seq tex.Node = [] -> acc ++ kernPart(x, kerning(x, nextIn(all, i)), i);
}

func tex.(*HList).kern(lst) {
  props C13;
  let q = seq(lst.lst.children);
  assigns lst.lst.children = slice(kerned(q)(q).acc);
  run bump();
}

func tex.ListOf(elements) {
  props C17;
  returns new tex.List{ children: slice(seq(elements)) };
}

effect hlistOf(q seq tex.Node, k bool) *tex.HList {
  let r = k ? kerned(q)(q).acc : q;
  if k { run bump(); } else {}
  let l = new tex.HList{ lst.children: slice(r) };
  run hpack(l, r, 0.0, true);
  returns l;
}
func tex.HListOf(elements, doKern) {
  props C13, C17, C10, C12;
  let l = run hlistOf(seq(elements), doKern);
  returns l;
}
effect vlistOf(q seq tex.Node) *tex.VList {
  let l = new tex.VList{ lst.children: slice(q) };
  run vpack(l, q, 0.0, true, inf());
  returns l;
}
func tex.VListOf(elements) {
  props C17, C11, C12;
  maypanic;
  let l = run vlistOf(seq(elements));
  returns l;
}

// glue
macro glueOf(w float64, st float64, sto int, sh float64, sho int) *tex.Glue =
  new tex.Glue{ width: w, stretch: st, stretchOrder: sto, shrink: sh, shrinkOrder: sho }
macro knownGlue(t string) bool = t == "fil" || t == "fill" || t == "filll" || t == "neg_fil" || t == "neg_fill" || t == "neg_filll" || t == "empty" || t == "ss"
func tex.NewGlue(typ) {
  props C17, C12;
  panics !knownGlue(typ);
  returns new tex.Glue{
    stretch: typ == "fil" || typ == "fill" || typ == "filll" || typ == "ss" ? 1.0 : 0.0,
    stretchOrder: typ == "fil" || typ == "ss" ? 1 : typ == "fill" ? 2 : typ == "filll" ? 3 : 0,
    shrink: typ == "neg_fil" || typ == "neg_fill" || typ == "neg_filll" ? 1.0 : typ == "ss" ? -1.0 : 0.0,
    shrinkOrder: typ == "neg_fil" || typ == "ss" ? 1 : typ == "neg_fill" ? 2 : typ == "neg_filll" ? 3 : 0 };
}
effect ssGlue() *tex.Glue {
  returns new tex.Glue{ stretch: 1.0, stretchOrder: 1, shrink: -1.0, shrinkOrder: 1 };
}
func tex.HCentered(elements) {
  props C17;
  let a = run ssGlue();
  let b = run ssGlue();
  let l = run hlistOf([a] ++ seq(elements) ++ [b], false);
  returns l;
}
func tex.VCentered(elements) {
  props C17;
  maypanic;
  let a = run ssGlue();
  let b = run ssGlue();
  let l = run vlistOf([a] ++ seq(elements) ++ [b]);
  returns l;
}

// boxes and rules
func tex.HBox(w) { props C10; returns new tex.Box{ width: w }; }
func tex.VBox(h, d) { props C11; returns new tex.Box{ height: h, depth: d }; }
func tex.NewRule(w, h, d, state) { props C15, C16; returns new tex.Rule{ box.width: w, box.height: h, box.depth: d, out: state.be }; }


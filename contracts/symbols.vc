// Sets of symbols (C28).

func sort.Strings(x) assumed { assigns elems(x) = sorted(seq(x)); }

func mtex/symbols.NewSet(vs) {
  props C28;
  returns mapof(mtex/symbols.Set, keys(seq(vs)));
}

func mtex/symbols.Set.Has(set, k) {
  props C28;
  returns has(set, k);
}

// the listing of a set: its elements in increasing order, each once
func mtex/symbols.Set.Keys(set) {
  props C28;
  returns slice(strings(keys(set)));
}

fold unioned(q seq mtex/symbols.Set; s)() {
  acc set string = noone() -> union(acc, keys(s));
}

func mtex/symbols.UnionOf(sets) {
  props C28;
  returns mapof(mtex/symbols.Set, unioned(seq(sets))().acc);
}

func mtex/symbols.IsSpaced(s) {
  props C28;
  returns has(BinaryOperators, s) || has(RelationSymbols, s) || has(ArrowSymbols, s);
}

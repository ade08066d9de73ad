# Contracts of equality (C17).

func po.Entry.Equal(e, x) -> (r)
  returns entry_same(e, x)
  entry lemma_forms_in_order(e, x); lemma_forms_in_order(x, e); assert(e.Flags.take(0) =~= x.Flags.take(0)); lemma_lexcmp_equal(e.Flags, x.Flags, 0); lemma_full_uid(e, x);

# Comparison by reflection: for values made of truth values, numbers, strings,
# slices and structs it tells whether they are the same. A pair of addresses
# already seen is either settled as the same or belongs to a value around the
# ones compared, and then is of a type of higher rank.
func util.equal(v1, v2, visited) -> (r)
  requires rv_plain(v1) && rv_plain(v2) && rv_mem(v1) && rv_mem(v2)
  requires rv_seen(visited, v1.ty.rank)
  ensures r == rv_same(v1, v2)
  ensures r ==> rv_settled(visited, visited_out)
  rec_decreases v1.ty.rank * 2 + 1

func util.sliceEqual(v1, v2, visited) -> (r)
  requires rv_plain(v1) && rv_plain(v2) && rv_mem(v1) && rv_mem(v2) && v1.ty == v2.ty && (v1.ty.kind == 17 || v1.ty.kind == 23)
  requires rv_around(visited, v1.ty.rank)
  ensures r == rv_same(v1, v2)
  ensures r ==> rv_settled(visited, visited_out)
  rec_decreases v1.ty.rank * 2
  loop 1
    invariant 0 <= i <= rv_parts(v1).len() && rv_parts(v1).len() == rv_parts(v2).len()
    invariant forall|k: int| #![trigger rv_parts(v1)[k]] 0 <= k < i ==> rv_same(rv_parts(v1)[k], rv_parts(v2)[k])
    invariant rv_settled(old_visited, visited)
    decreases rv_parts(v1).len() - i

func util.structEqual(v1, v2, visited) -> (r)
  requires rv_plain(v1) && rv_plain(v2) && rv_mem(v1) && rv_mem(v2) && v1.ty == v2.ty && v1.ty.kind == 25
  requires rv_around(visited, v1.ty.rank)
  ensures r == rv_same(v1, v2)
  ensures r ==> rv_settled(visited, visited_out)
  rec_decreases v1.ty.rank * 2
  loop 1
    invariant 0 <= i <= rv_parts(v1).len() && rv_parts(v1).len() == rv_parts(v2).len()
    invariant forall|k: int| #![trigger rv_parts(v1)[k]] 0 <= k < i ==> rv_same(rv_parts(v1)[k], rv_parts(v2)[k])
    invariant rv_settled(old_visited, visited)
    decreases rv_parts(v1).len() - i

# not reached by the types of catalogues: nothing is taken for granted
func util.mapEqual(v1, v2, visited) -> (r)
  requires v1.ty.kind == 21
  trusted not reached: catalogues hold no maps

func util.floatEqual(a, b) -> (r)
  trusted not reached: catalogues hold no floating point numbers

func util.complexEqual(a, b) -> (r)
  trusted not reached: catalogues hold no floating point numbers

func po.PluralEntry.Equal(p, p2) -> (r)
  ensures r == (p == p2)

func po.PluralEntries.Equal(p, p2) -> (r)
  ensures r == (p == p2)

func po.Location.Equal(l, l2) -> (r)
  ensures r == (l == l2)

func po.Locations.Equal(l, l2) -> (r)
  ensures r == (l == l2)

func po.Entries.Equal(e, e2) -> (r)
  ensures r == (e.d == e2.d)

func po.File.Equal(f, f2) -> (r)
  ensures r == (f.Name == f2.Name && f.Entries.d == f2.Entries.d)

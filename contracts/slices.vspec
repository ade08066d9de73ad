# Contracts of internal/slices.

func slices.Equal(s1, s2) -> (r)
  returns s1.d == s2.d
  loop 1
  invariant forall|k: int| 0 <= k < IDX ==> s1.d[k] == s2.d[k]
  after assert(s1.d =~= s2.d);

func slices.IndexFunc(s, f) -> (r)
  returns first_index(s.d, f, 0) as i64
  ensures r as int == first_index(s.d, f, 0)
  entry lemma_go_len(s.d);
  loop 1
  invariant first_index(s.d, f, 0) == first_index(s.d, f, IDX)

func slices.Index(s, v) -> (r)
  returns first_equal(s.d, v, 0) as i64
  ensures r as int == first_equal(s.d, v, 0)
  entry lemma_go_len(s.d);
  loop 1
  invariant first_equal(s.d, v, 0) == first_equal(s.d, v, IDX)

func slices.DeleteFunc(s, del) -> (r)
  requires s.own
  ensures r.d == keep(s.d, del)
  ensures r.own
  loop 1
  invariant s == old_s && keep(s.d.take(IDX), del) == s.d.take(IDX)
  begin let n = IDX; assert(s.d.take(n).drop_last() =~= s.d.take(n - 1)); assert(s.d.take(n).last() == s.d[n - 1]);
    assert(keep(s.d.take(n), del) == if del(s.d[n - 1]) { s.d.take(n - 1) } else { s.d.take(n - 1).push(s.d[n - 1]) }); assert(s.d.take(n - 1).push(s.d[n - 1]) =~= s.d.take(n));
  after assert(s.d.take(s.d.len() as int) =~= s.d);
  loop 2
  invariant 0 <= j < i <= s.d.len() && s.d.len() == old_s.d.len() && s.own 
  invariant s.d.take(j as int) =~= keep(old_s.d.take(i as int), del)
  invariant forall|k: int| i <= k < s.d.len() ==> s.d[k] == old_s.d[k]
  begin let n = i as int; assert(old_s.d.take(n + 1).drop_last() =~= old_s.d.take(n)); assert(old_s.d.take(n + 1).last() == old_s.d[n]); let sb = s.d; let jb = j as int;
  end let n = i as int; assert(old_s.d.take(n).drop_last() =~= old_s.d.take(n - 1)); assert(old_s.d.take(n).last() == old_s.d[n - 1]); assert(v == old_s.d[n - 1]);
    if !del(v) { assert(s.d.take(j as int) =~= s.d.take(j - 1).push(v)); }
  after assert(old_s.d.take(old_s.d.len() as int) =~= old_s.d);

func slices.Delete(s, i, j) -> (r)
  requires s.own
  requires 0 <= i <= j <= s.d.len()
  ensures r.d == s.d.take(i as int).add(s.d.skip(j as int))
  ensures r.own
  exit assert(r.d =~= old_s.d.take(i as int).add(old_s.d.skip(j as int)));

func slices.IsSortedFunc(x, cmp) -> (r)
  returns sorted_adj(cmp, x.d)
  loop 1
  invariant -1 <= i < x.d.len()
  invariant forall|k: int| i < k < x.d.len() && k > 0 ==> !((#[trigger] cmp(x.d[k], x.d[k - 1])) < 0)

func slices.CompareFunc(s1, s2, cmp) -> (r)
  spinoff
  returns lexcmp(s1.d, s2.d, cmp, 0)
  loop 1
  invariant lexcmp(s1.d, s2.d, cmp, 0) == lexcmp(s1.d, s2.d, cmp, IDX)

func slices.Clone(s) -> (r)
  ensures r.d == s.d
  ensures r.own
  exit assert(r.d =~= s.d);

func slices.Clip(s) -> (r)
  returns (Sl { d: s.d, own: s.own, cf: true })
  entry lemma_go_len(s.d);
  exit assert(r.d =~= s.d);

# The standard library's sort: result assumed to be a permutation that is
# ordered whenever the comparison is a total preorder (axiom ax_sort_by).
func slices.SortFunc(x, cmp)
  trusted slices.SortFunc of the standard library
  requires x.own
  ensures x_out.d == sort_by(cmp, x.d)
  ensures x_out.own == x.own && x_out.cf == x.cf

func slices.Contains(s, v) -> (r)
  returns s.d.contains(v)
  entry lemma_go_len(s.d);

func slices.ContainsFunc(s, f) -> (r)
  returns first_index(s.d, f, 0) >= 0
  entry lemma_go_len(s.d);

# Contracts of pkg/po: entries.

func po.Entries.SolveFunc(e, merger) -> (r)
  ensures r.d == sv(merger, e.d)
  ensures r.own
  local cleaned: github.com/Tom5521/gotext-tools/v2/pkg/po.Entries
  local seened: map[string]int
  exit assert(e.d.take(e.d.len() as int) =~= e.d);
  loop 1
  invariant cleaned.own && cleaned.d == sv(merger, e.d.take(IDX))
  invariant cleaned.d.len() == sk(e.d.take(IDX)).len()
  invariant sk(e.d.take(IDX)).no_duplicates()
  invariant forall|k: Seq<u8>| #[trigger] seened.dom().contains(k) == sk(e.d.take(IDX)).contains(k)
  invariant forall|i: int| 0 <= i < sk(e.d.take(IDX)).len() ==> seened[#[trigger] sk(e.d.take(IDX))[i]] == i
  pre assert(e.d.take(0) =~= Seq::empty());
  begin let n = IDX; let T = e.d.take(n); assert(T.drop_last() =~= e.d.take(n - 1)); assert(T.last() == e.d[n - 1]); lemma_sk(T); lemma_sv_len(merger, T); lemma_sk(e.d.take(n - 1));
    let K = sk(e.d.take(n - 1)); let u = uid(e.d[n - 1]); if K.contains(u) { assert(K[K.index_of(u)] == u); }
    else { assert(K.push(u)[K.len() as int] == u); assert forall|k: Seq<u8>| K.push(u).contains(k) == (K.contains(k) || k == u) by { if K.contains(k) { assert(K.push(u)[K.index_of(k)] == k); } } }

func po.Entry.UnifiedID(e) -> (r)
  returns uid(e)
  exit assert(r =~= uid(e));

func po.Entries.Solve(e) -> (r)
  ensures r.d == sv(fv_po_SolveMerge_s(), e.d)
  ensures r.own

func po.Entries.CleanDuplicates(e) -> (r)
  entry lemma_sv_any(join_locs(), e.d);
  ensures r.d == dedup(e.d)
  ensures r.own

func po.Entries.HasDuplicates(e) -> (r)
  ensures r == !all_distinct(e.d)
  local seen: map[string]struct{}
  loop 1
  invariant forall|i: int, j: int| 0 <= i < j < IDX ==> uid(#[trigger] e.d[i]) != uid(#[trigger] e.d[j])
  invariant forall|i: int| 0 <= i < IDX ==> seen.dom().contains(uid(#[trigger] e.d[i]))
  invariant forall|k: Seq<u8>| #[trigger] seen.dom().contains(k) ==> exists|i: int| 0 <= i < IDX && uid(#[trigger] e.d[i]) == k

func po.Entries.CatchDuplicateEntries(e) -> (r)
  ensures r == dup_errors(e.d)
  local seen: map[string]int
  local errs: []error
  exit assert(e.d.take(e.d.len() as int) =~= e.d);
  loop 1
  invariant errs == dup_errors(e.d.take(IDX))
  invariant forall|k: Seq<u8>| #[trigger] seen.dom().contains(k) == (first_pos(e.d.take(IDX), k) >= 0)
  invariant forall|k: Seq<u8>| seen.dom().contains(k) ==> #[trigger] seen[k] == first_pos(e.d.take(IDX), k)
  pre assert(e.d.take(0) =~= Seq::empty());
  begin let n = IDX; assert(e.d.take(n).drop_last() =~= e.d.take(n - 1)); assert(e.d.take(n).last() == e.d[n - 1]);

func po.Entries.CutHeader(e) -> (r)
  requires e.own
  ensures r.d == (if first_index(e.d, |x: Entry| x.ID.len() == 0 && x.Context.len() == 0, 0) >= 0 { e.d.remove(first_index(e.d, |x: Entry| x.ID.len() == 0 && x.Context.len() == 0, 0) as int) } else { e.d })
  ensures r.own
  entry lemma_go_len(e.d);
  exit let k = first_index(old_e.d, |x: Entry| x.ID.len() == 0 && x.Context.len() == 0, 0); if k >= 0 { assert(r.d =~= old_e.d.remove(k as int)); }

func po.Entries.CleanFuzzy(e) -> (r)
  requires e.own
  ensures r.d == keep(e.d, |x: Entry| fuzzy(x))
  ensures r.own

func po.Entries.CleanObsoletes(e) -> (r)
  requires e.own
  ensures r.d == keep(e.d, |x: Entry| x.Obsolete)
  ensures r.own

func po.Entries.CleanEmpties(e) -> (r)
  requires e.own
  ensures r.d == keep(e.d, |x: Entry| x.ID.len() == 0)
  ensures r.own

func po.Entries.Sort(e) -> (r)
  requires e.own
  returns (Sl { d: sort_by(fv_po_CompareEntry_s(), e.d), ..e }, Sl { d: sort_by(fv_po_CompareEntry_s(), e.d), ..e })
  ensures r.d.to_multiset() == e.d.to_multiset()
  ensures r.d.len() == e.d.len()
  ensures sorted_by(fv_po_CompareEntry_s(), r.d)
  ensures r.own
  entry lemma_entry();

func po.Entries.SortFunc(e, cmp) -> (r)
  requires e.own
  returns (Sl { d: sort_by(cmp, e.d), ..e }, Sl { d: sort_by(cmp, e.d), ..e })
  ensures e_out.d == r.d
  ensures r.own && e_out.own

func po.Entries.PrepareSorter(e, cmp) -> (r)
  requires e.own
  ensures r() == (Sl { d: sort_by(cmp, e.d), ..e })

func po.Entries.Index(e, id, context) -> (r)
  returns first_index(e.d, |x: Entry| x.ID =~= id && x.Context =~= context, 0) as i64
  ensures r as int == first_index(e.d, |x: Entry| x.ID =~= id && x.Context =~= context, 0)
  entry lemma_go_len(e.d);

func po.Entries.IndexByUnifiedID(e, key) -> (r)
  returns first_index(e.d, |x: Entry| uid(x) == key, 0) as i64
  ensures r as int == first_index(e.d, |x: Entry| uid(x) == key, 0)
  entry lemma_go_len(e.d);

func po.Entries.ContainsUnifiedID(e, key) -> (r)
  returns first_index(e.d, |x: Entry| uid(x) == key, 0) >= 0

func po.Entry.FullUnifiedID(e) -> (r)
  returns full_uid(e)
  exit assert(r =~= full_uid(e));

func po.Entry.UnifiedStr(e) -> (r)
  returns unified_str(e)
  entry lemma_plural();
  exit assert(r =~= unified_str(old_e));
  local builder: strings.Builder
  local plurals: github.com/Tom5521/gotext-tools/v2/pkg/po.PluralEntries
  loop 1
  invariant plurals == plurals_in_order(e)
  invariant builder == e.Str.add(join_nul(plurals, IDX))
  pre assert(builder =~= e.Str.add(join_nul(plurals, 0)));
  end assert(builder =~= e.Str.add(join_nul(plurals, IDX)));

func po.SolveMerge(a, b) -> (r)
  returns Some(solve_merge(a, b))
  entry lemma_entry(); lemma_by_str(); assert(sgn(po_CompareEntry_s(a, b) as int) == entry_le(a, b)); assert(sgn(po_CompareEntryByStr_s(a, b) as int) == str_le(a, b));

func po.MergeUsingPriorAsBase(prior) -> (r)
  entry lemma_go_len(prior.d);
  ensures forall|a: Entry, b: Entry| #[trigger] r(a, b) == (if first_index(prior.d, |x: Entry| uid(x) == uid(a), 0) >= 0 { Some(solve_merge(prior.d[first_index(prior.d, |x: Entry| uid(x) == uid(a), 0) as int], b)) } else { Some(solve_merge(a, b)) })

func po.MergeUsingPriorityOrFallback(prior) -> (r)
  entry lemma_go_len(prior.d);
  ensures forall|a: Entry, b: Entry| #[trigger] r(a, b) == (if first_index(prior.d, |x: Entry| uid(x) == uid(a), 0) >= 0 { Some(prior.d[first_index(prior.d, |x: Entry| uid(x) == uid(a), 0) as int]) } else { Some(solve_merge(a, b)) })

func po.MergeIfInPriorityList(prior) -> (r)
  ensures forall|a: Entry, b: Entry| #[trigger] r(a, b) == (if prior.contains(uid(a)) { Some(solve_merge(a, b)) } else { None })

func po.MergeAndMarkObsoleteIfNotPrioritized(prior) -> (r)
  ensures forall|a: Entry, b: Entry| #[trigger] r(a, b) == (if prior.contains(uid(a)) { Some(solve_merge(a, b)) } else { Some(Entry { Obsolete: true, ..solve_merge(a, b) }) })

func po.Entries.BestIDRatio(e, x) -> (best, ratio)
  ensures (best as int, ratio as int) == best_ratio(e.d, |y: Entry| id_similarity(x, y), e.d.len() as int)
  local highestRatio: int
  loop 1
  invariant (best as int, highestRatio as int) == best_ratio(e.d, |y: Entry| id_similarity(x, y), IDX)


func po.PluralEntries.Solve(p) -> (r)
  ensures r == plurals_once(p)
  local seen: map[string]struct{}
  local cleaned: github.com/Tom5521/gotext-tools/v2/pkg/po.PluralEntries
  exit assert(p.take(p.len() as int) =~= p);
  loop 1
  pre assert(p.take(0) =~= Seq::empty());
  invariant cleaned == plurals_once(p.take(IDX))
  invariant forall|q: PluralEntry| #[trigger] cleaned.contains(q) == seen.dom().contains(plural_key(q))
  begin let n = IDX; assert(p.take(n).drop_last() =~= p.take(n - 1)); assert(p.take(n).last() == p[n - 1]); lemma_plural_key(); let w = p[n - 1]; assert(w.Str.add(seq![0u8]) =~= w.Str.push(0u8)); lemma_push_contains(cleaned, w); assert(plural_key(w) == w.Str.push(0u8).add(itoa(w.ID as int)));

func po.PluralEntries.Sort(p) -> (r)
  ensures r == sort_by(fv_po_ComparePluralEntry_s(), p)
  ensures p_out == r

func po.PluralEntries.IsSorted(p) -> (r)
  returns sorted_adj(fv_po_ComparePluralEntry_s(), p)

func po.Locations.Sort(l) -> (r)
  ensures r.to_multiset() == l.to_multiset()
  ensures sorted_by(fv_po_CompareLocation_s(), r)
  entry lemma_location();

func po.File.Set(f, id, context, e)
  requires f.Entries.own
  ensures f_out.Name == f.Name
  ensures f_out.Entries.d == (if first_index(f.Entries.d, |x: Entry| x.ID =~= id && x.Context =~= context, 0) >= 0 { f.Entries.d.update(first_index(f.Entries.d, |x: Entry| x.ID =~= id && x.Context =~= context, 0) as int, e) } else { f.Entries.d.push(e) })

func po.File.Load(f, id, context) -> (r)
  ensures r == (if first_index(f.Entries.d, |x: Entry| x.ID =~= id && x.Context =~= context, 0) >= 0 { f.Entries.d[first_index(f.Entries.d, |x: Entry| x.ID =~= id && x.Context =~= context, 0) as int].Str } else { Seq::empty() })

func po.File.LoadByUnifiedID(f, key) -> (r)
  ensures r == (if first_index(f.Entries.d, |x: Entry| uid(x) == key, 0) >= 0 { f.Entries.d[first_index(f.Entries.d, |x: Entry| uid(x) == key, 0) as int].Str } else { Seq::empty() })

func po.EntryIDMatchRatio(a, b) -> (r)
  returns id_similarity(a, b)
  local ratios: []int
  exit assert(ratios =~= id_ratios(a, b));

func po.EntryStrMatchRatio(a, b) -> (r)
  ensures r == str_similarity(a, b)
  local ratios: []int
  exit let z = some_ratio(a.Str.len() > 0 || b.Str.len() > 0, a.Str, b.Str); assert(ratios =~= z || ratios =~= z.add(form_ratios(a.Plurals, b.Plurals, a.Plurals.len() as int)));
  loop 1
  pre let z = some_ratio(a.Str.len() > 0 || b.Str.len() > 0, a.Str, b.Str); assert(ratios =~= z.add(form_ratios(a.Plurals, b.Plurals, 0)));
  invariant ratios == some_ratio(a.Str.len() > 0 || b.Str.len() > 0, a.Str, b.Str).add(form_ratios(a.Plurals, b.Plurals, IDX))
  end assert(ratios =~= some_ratio(a.Str.len() > 0 || b.Str.len() > 0, a.Str, b.Str).add(form_ratios(a.Plurals, b.Plurals, IDX)));

func po.Entries.BestStrRatio(e, x) -> (best, ratio)
  ensures (best as int, ratio as int) == best_ratio(e.d, |y: Entry| str_similarity(x, y), e.d.len() as int)
  local highestRatio: int
  loop 1
  invariant (best as int, highestRatio as int) == best_ratio(e.d, |y: Entry| str_similarity(x, y), IDX)

func po.Entries.IsSorted(e) -> (r)
  ensures r == sorted_by(fv_po_CompareEntry_s(), e.d)
  entry lemma_entry(); lemma_is_sorted(fv_po_CompareEntry_s(), e.d);

func po.Entries.IsSortedFunc(e, cmp) -> (r)
  ensures total_preorder(cmp) ==> r == sorted_by(cmp, e.d)
  ensures r == sorted_adj(cmp, e.d)
  entry if total_preorder(cmp) { lemma_is_sorted(cmp, e.d); }

func po.Locations.IsSorted(l) -> (r)
  ensures r == sorted_by(fv_po_CompareLocation_s(), l)
  entry lemma_location(); lemma_is_sorted(fv_po_CompareLocation_s(), l);

func po.Locations.IsSortedFunc(l, cmp) -> (r)
  ensures total_preorder(cmp) ==> r == sorted_by(cmp, l)
  entry if total_preorder(cmp) { lemma_is_sorted(cmp, l); }

func po.Locations.SortFunc(l, cmp) -> (r)
  ensures r == sort_by(cmp, l)
  ensures l_out == r

func po.PluralEntries.IsSortedFunc(p, cmp) -> (r)
  ensures total_preorder(cmp) ==> r == sorted_by(cmp, p)
  entry if total_preorder(cmp) { lemma_is_sorted(cmp, p); }

func po.PluralEntries.SortFunc(p, cmp) -> (r)
  ensures r == sort_by(cmp, p)
  ensures p_out == r

func po.CompareEntriesFunc(a, b, cmp) -> (r)
  returns lexcmp(a.d, b.d, cmp, 0)

func po.CompareLocationsFunc(a, b, cmp) -> (r)
  returns lexcmp(a, b, cmp, 0)

func po.Entries.IndexFunc(e, f) -> (r)
  returns first_index(e.d, f, 0) as i64
  ensures r as int == first_index(e.d, f, 0)
  entry lemma_go_len(e.d);

func po.Entries.ContainsFunc(e, f) -> (r)
  returns first_index(e.d, f, 0) >= 0

func po.Entries.FuzzyFind(e, id, context) -> (r)
  ensures r as int == first_index(e.d, |x: Entry| fuzzy_ratio(id, x.ID) >= 80 && fuzzy_ratio(x.Context, context) >= 80, 0)
  entry lemma_go_len(e.d);

func po.Entry.HasComments(e) -> (r)
  returns e.Flags.len() > 0 || e.Comments.len() > 0 || e.ExtractedComments.len() > 0 || e.Previous.len() > 0 || e.Locations.len() > 0

func po.Entry.Hash(e) -> (r)
  ensures r == pjw(uid(e), uid(e).len() as int)

func po.Entry.FullHash(e) -> (r)
  ensures r == pjw(full_uid(e), full_uid(e).len() as int)

func po.NewFile(name, entries) -> (r)
  ensures r is Some && r->0.Name == name && r->0.Entries.d == entries.d

// include header.rs
// Merging a translated catalogue with a template (C08).
pub open spec fn at_key(d: Seq<Entry>, k: Seq<u8>) -> int { first_index(d, |x: Entry| uid(x) == k, 0) }
pub open spec fn similar(d: Seq<Entry>, e: Entry) -> (int, int) { best_ratio(d, |y: Entry| id_similarity(e, y), d.len() as int) }
pub open spec fn follows(e: Entry, t: Entry) -> Entry { Entry { Obsolete: t.Obsolete, ExtractedComments: t.ExtractedComments, Locations: t.Locations, ..e } }
pub open spec fn can_become(e: Entry, t: Entry, def: Seq<Entry>) -> bool { !is_header(t) && is_plural(t) == is_plural(e) && at_key(def, uid(t)) < 0 }

// an old message after the merge
pub open spec fn merge_old(c: MergeConfig, e: Entry, def: Seq<Entry>, tpl: Seq<Entry>) -> Entry {
    let k = at_key(tpl, uid(e));
    if is_header(e) { e }
    else if k >= 0 { follows(e, tpl[k]) }
    else if c.FuzzyMatch {
        let b = similar(tpl, e);
        if b.1 >= 50 && can_become(e, tpl[b.0], def) { follows(Entry { ID: tpl[b.0].ID, Context: tpl[b.0].Context, Plural: tpl[b.0].Plural, ..as_fuzzy(e) }, tpl[b.0]) }
        else { Entry { Obsolete: true, ..e } }
    }
    else if c.KeepPreviousIDs { as_fuzzy(e) }
    else { Entry { Obsolete: true, ..e } }
}
pub open spec fn merge_olds(c: MergeConfig, s: Seq<Entry>, tpl: Seq<Entry>, n: int) -> Seq<Entry>
    decreases n
{ if n <= 0 { s } else { let p = merge_olds(c, s, tpl, n - 1); p.update(n - 1, merge_old(c, p[n - 1], p, tpl)) } }

// a template message with the translation of another
pub open spec fn with_text(t: Entry, s: Entry) -> Entry {
    if is_plural(t) && is_plural(s) { Entry { Plurals: s.Plurals, ..t } }
    else if is_plural(t) { Entry { Plurals: (if t.Plurals.len() == 0 { seq![PluralEntry { ID: 0, Str: s.Str }] } else { t.Plurals.update(0, PluralEntry { Str: s.Str, ..t.Plurals[0] }) }), ..t } }
    else if is_plural(s) { if s.Plurals.len() > 0 { Entry { Str: s.Plurals[0].Str, ..t } } else { t } }
    else { Entry { Str: s.Str, ..t } }
}
pub open spec fn untranslated(id: Seq<u8>, np: int) -> Seq<PluralEntry> { Seq::new((if np > 0 { np } else { 0 }) as nat, |i: int| PluralEntry { ID: i as i64, Str: id }) }
// a message only the template has, after the merge
pub open spec fn merge_new(c: MergeConfig, e: Entry, old: Seq<Entry>, np: int) -> Entry {
    if c.FuzzyMatch { let b = similar(old, e); if b.1 >= 50 { with_text(as_fuzzy(e), old[b.0]) } else { e } }
    else if is_plural(e) && e.Plurals.len() == 0 { Entry { Plurals: untranslated(e.ID, np), ..e } }
    else { e }
}
pub open spec fn merge_news(c: MergeConfig, old: Seq<Entry>, tpl: Seq<Entry>, np: int, n: int) -> Seq<Entry>
    decreases n
{
    if n <= 0 { old } else {
        let p = merge_news(c, old, tpl, np, n - 1);
        if is_header(tpl[n - 1]) || at_key(p, uid(tpl[n - 1])) >= 0 { p } else { p.push(merge_new(c, tpl[n - 1], old, np)) }
    }
}
pub open spec fn merge_list(c: MergeConfig, s: Seq<Entry>, tpl: Seq<Entry>, np: int) -> Seq<Entry> { merge_news(c, merge_olds(c, s, tpl, s.len() as int), tpl, np, tpl.len() as int) }
pub open spec fn mode_order(m: i64) -> spec_fn(Entry, Entry) -> i64 {
    if m == 1 { fv_po_CompareEntryByID_s() } else if m == 2 { fv_po_CompareEntryByFile_s() } else if m == 3 { fv_po_CompareEntryByLine_s() } else if m == 4 { fv_po_CompareEntryByFuzzy_s() } else if m == 5 { fv_po_CompareEntryByObsolete_s() } else { fv_po_CompareEntry_s() }
}
pub open spec fn merge_result(c: MergeConfig, def: Seq<Entry>, tpl: Seq<Entry>, np: int) -> Seq<Entry> {
    let l = merge_list(c, sv(fv_po_SolveMerge_s(), def), tpl, np);
    if c.Sort { sort_by(mode_order(c.SortMode), l) } else { l }
}
pub open spec fn is_merge(c: MergeConfig, def: Seq<Entry>, tpl: Seq<Entry>, r: Seq<Entry>) -> bool { exists|np: int| r == #[trigger] merge_result(c, def, tpl, np) }

// the options, applied in order
pub open spec fn merge_opts(c: MergeConfig, opts: Seq<spec_fn(MergeConfig) -> MergeConfig>, n: int) -> MergeConfig
    decreases n
{ if n <= 0 { c } else { let o = opts[n - 1]; o(merge_opts(c, opts, n - 1)) } }
pub open spec fn merge_defaults() -> MergeConfig { MergeConfig { FuzzyMatch: true, KeepPreviousIDs: false, Sort: true, SortMode: 0 } }

// --- what that means ---
pub proof fn lemma_at_key(d: Seq<Entry>, k: Seq<u8>)
    ensures -1 <= at_key(d, k) < d.len(), at_key(d, k) >= 0 ==> uid(d[at_key(d, k)]) == k,
        at_key(d, k) < 0 ==> forall|i: int| 0 <= i < d.len() ==> uid(#[trigger] d[i]) != k,
{
    let p = |x: Entry| uid(x) == k;
    lemma_first_index(d, p, 0);
    if first_index(d, p, 0) < 0 { assert forall|i: int| 0 <= i < d.len() implies uid(#[trigger] d[i]) != k by { assert(!p(d[i])); } }
}
pub proof fn lemma_at_key_has(d: Seq<Entry>, k: Seq<u8>, i: int)
    requires 0 <= i < d.len(), uid(d[i]) == k
    ensures at_key(d, k) >= 0
{ lemma_at_key(d, k); }

// An old message keeps its translation and its translators' comments. With its
// key in the template it stays that message; without, it is obsolete, or has
// become a fuzzy message of the template, or (as configured) is fuzzy itself.
pub open spec fn same_text(a: Entry, b: Entry) -> bool { a.Str == b.Str && a.Plurals == b.Plurals && a.Comments == b.Comments && a.Previous == b.Previous }
pub open spec fn old_kept(c: MergeConfig, e: Entry, tpl: Seq<Entry>, r: Entry) -> bool {
    let k = at_key(tpl, uid(e));
    &&& same_text(e, r)
    &&& is_header(e) ==> r == e
    &&& !is_header(e) && k >= 0 ==> uid(r) == uid(e) && r.Flags == e.Flags && r.Obsolete == tpl[k].Obsolete && r.Locations == tpl[k].Locations && r.ExtractedComments == tpl[k].ExtractedComments
    &&& !is_header(e) && k < 0 ==> (uid(r) == uid(e) && r.Obsolete && r.Flags == e.Flags) || (c.FuzzyMatch && fuzzy(r) && at_key(tpl, uid(r)) >= 0) || (!c.FuzzyMatch && c.KeepPreviousIDs && fuzzy(r) && uid(r) == uid(e))
    &&& !c.FuzzyMatch && !c.KeepPreviousIDs ==> r.Flags == e.Flags
}
pub proof fn lemma_merge_old(c: MergeConfig, e: Entry, def: Seq<Entry>, tpl: Seq<Entry>)
    ensures old_kept(c, e, tpl, merge_old(c, e, def, tpl)),
        uid(merge_old(c, e, def, tpl)) == uid(e) || at_key(def, uid(merge_old(c, e, def, tpl))) < 0,
{
    lemma_at_key(tpl, uid(e));
    lemma_as_fuzzy(e);
    let b = similar(tpl, e);
    lemma_best_ratio(tpl, |y: Entry| id_similarity(e, y), tpl.len() as int);
    let r = merge_old(c, e, def, tpl);
    if !is_header(e) && at_key(tpl, uid(e)) < 0 && c.FuzzyMatch && b.1 >= 50 && can_become(e, tpl[b.0], def) {
        assert(uid(r) == uid(tpl[b.0]));
        lemma_at_key_has(tpl, uid(r), b.0);
        assert(r.Flags == as_fuzzy(e).Flags);
        assert(fuzzy(r));
    }
    if !is_header(e) && at_key(tpl, uid(e)) >= 0 { assert(uid(r) == uid(e)); }
}
pub proof fn lemma_merge_olds(c: MergeConfig, s: Seq<Entry>, tpl: Seq<Entry>, n: int)
    requires 0 <= n <= s.len(), all_distinct(s)
    ensures
        merge_olds(c, s, tpl, n).len() == s.len(),
        all_distinct(merge_olds(c, s, tpl, n)),
        forall|i: int| n <= i < s.len() ==> #[trigger] merge_olds(c, s, tpl, n)[i] == s[i],
        forall|i: int| 0 <= i < n ==> old_kept(c, s[i], tpl, #[trigger] merge_olds(c, s, tpl, n)[i]),
    decreases n
{
    if n > 0 {
        lemma_merge_olds(c, s, tpl, n - 1);
        let p = merge_olds(c, s, tpl, n - 1);
        let r = merge_old(c, p[n - 1], p, tpl);
        let q = p.update(n - 1, r);
        assert(p[n - 1] == s[n - 1]);
        lemma_merge_old(c, p[n - 1], p, tpl);
        lemma_at_key(p, uid(r));
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies uid(#[trigger] q[i]) != uid(#[trigger] q[j]) by {
            if i == n - 1 { assert(q[j] == p[j]); assert(uid(p[i]) != uid(p[j])); }
            else if j == n - 1 { assert(q[i] == p[i]); assert(uid(p[i]) != uid(p[j])); }
            else { assert(q[i] == p[i] && q[j] == p[j]); }
        }
        assert forall|i: int| 0 <= i < n implies old_kept(c, s[i], tpl, #[trigger] q[i]) by { if i < n - 1 { assert(q[i] == p[i]); } }
    }
}
// A message only the template has is as it is there, or has a similar old
// message's translation and is fuzzy.
pub open spec fn new_follows(c: MergeConfig, e: Entry, r: Entry) -> bool {
    &&& uid(r) == uid(e) && r.Plural == e.Plural && r.Comments == e.Comments && r.ExtractedComments == e.ExtractedComments && r.Locations == e.Locations && r.Previous == e.Previous && r.Obsolete == e.Obsolete
    &&& r.Flags == e.Flags || (c.FuzzyMatch && r.Flags == as_fuzzy(e).Flags)
    &&& c.FuzzyMatch && (r.Str != e.Str || r.Plurals != e.Plurals) ==> fuzzy(r)
    &&& !c.FuzzyMatch ==> r.Str == e.Str && (r.Plurals == e.Plurals || e.Plurals.len() == 0)
}
pub proof fn lemma_merge_new(c: MergeConfig, e: Entry, old: Seq<Entry>, np: int)
    ensures new_follows(c, e, merge_new(c, e, old, np))
{
    lemma_as_fuzzy(e);
    let b = similar(old, e);
    if c.FuzzyMatch && b.1 >= 50 {
        let r = merge_new(c, e, old, np);
        let t = as_fuzzy(e);
        assert(r.Flags == t.Flags);
        assert(fuzzy(t));
        assert(fuzzy(r));
        assert(r.ID == e.ID && r.Context == e.Context);
    }
}
pub open spec fn comes_from(c: MergeConfig, tpl: Seq<Entry>, n: int, r: Entry) -> bool { exists|j: int| 0 <= j < n && !is_header(tpl[j]) && new_follows(c, #[trigger] tpl[j], r) }
pub proof fn lemma_merge_news(c: MergeConfig, old: Seq<Entry>, tpl: Seq<Entry>, np: int, n: int)
    requires 0 <= n <= tpl.len(), all_distinct(old)
    ensures
        merge_news(c, old, tpl, np, n).len() >= old.len(),
        all_distinct(merge_news(c, old, tpl, np, n)),
        forall|i: int| 0 <= i < old.len() ==> #[trigger] merge_news(c, old, tpl, np, n)[i] == old[i],
        forall|i: int| old.len() <= i < merge_news(c, old, tpl, np, n).len() ==> comes_from(c, tpl, n, #[trigger] merge_news(c, old, tpl, np, n)[i]),
        forall|j: int| 0 <= j < n && !is_header(tpl[j]) ==> at_key(merge_news(c, old, tpl, np, n), uid(#[trigger] tpl[j])) >= 0,
    decreases n
{
    if n > 0 {
        lemma_merge_news(c, old, tpl, np, n - 1);
        let p = merge_news(c, old, tpl, np, n - 1);
        let q = merge_news(c, old, tpl, np, n);
        let e = tpl[n - 1];
        let r = merge_new(c, e, old, np);
        lemma_merge_new(c, e, old, np);
        lemma_at_key(p, uid(e));
        let add = !is_header(e) && at_key(p, uid(e)) < 0;
        assert(q == if add { p.push(r) } else { p });
        if add { assert(uid(r) == uid(e)); assert(q[p.len() as int] == r); lemma_at_key_has(q, uid(e), p.len() as int); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies uid(#[trigger] q[i]) != uid(#[trigger] q[j]) by {
            assert(q[i] == p[i]);
            if j < p.len() { assert(q[j] == p[j]); } else { assert(q[j] == r); assert(uid(p[i]) != uid(e)); }
        }
        assert forall|i: int| 0 <= i < old.len() implies #[trigger] q[i] == old[i] by { assert(q[i] == p[i]); }
        assert forall|i: int| old.len() <= i < q.len() implies comes_from(c, tpl, n, #[trigger] q[i]) by {
            if i < p.len() { assert(q[i] == p[i]); assert(comes_from(c, tpl, n - 1, p[i])); let j = choose|j: int| 0 <= j < n - 1 && !is_header(tpl[j]) && new_follows(c, #[trigger] tpl[j], p[i]); assert(new_follows(c, tpl[j], q[i])); }
            else { assert(new_follows(c, tpl[n - 1], q[i])); }
        }
        assert forall|j: int| 0 <= j < n && !is_header(tpl[j]) implies at_key(q, uid(#[trigger] tpl[j])) >= 0 by {
            if j < n - 1 || !add {
                let k = at_key(p, uid(tpl[j]));
                lemma_at_key(p, uid(tpl[j]));
                assert(k >= 0);
                assert(q[k] == p[k]);
                lemma_at_key_has(q, uid(tpl[j]), k);
            }
        }
    }
}
// The merged list, before sorting: one entry per key; every template message;
// every old message first, in order, each keeping its translation.
pub proof fn lemma_merge(c: MergeConfig, s: Seq<Entry>, tpl: Seq<Entry>, np: int)
    requires all_distinct(s)
    ensures
        all_distinct(merge_list(c, s, tpl, np)),
        merge_list(c, s, tpl, np).len() >= s.len(),
        forall|i: int| 0 <= i < s.len() ==> old_kept(c, s[i], tpl, #[trigger] merge_list(c, s, tpl, np)[i]),
        forall|i: int| s.len() <= i < merge_list(c, s, tpl, np).len() ==> comes_from(c, tpl, tpl.len() as int, #[trigger] merge_list(c, s, tpl, np)[i]),
        forall|j: int| 0 <= j < tpl.len() && !is_header(tpl[j]) ==> at_key(merge_list(c, s, tpl, np), uid(#[trigger] tpl[j])) >= 0,
{
    lemma_merge_olds(c, s, tpl, s.len() as int);
    let o = merge_olds(c, s, tpl, s.len() as int);
    lemma_merge_news(c, o, tpl, np, tpl.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies old_kept(c, s[i], tpl, #[trigger] merge_list(c, s, tpl, np)[i]) by { assert(merge_list(c, s, tpl, np)[i] == o[i]); }
}
// the list the merge starts from has one entry per key
pub proof fn lemma_merge_start(def: Seq<Entry>)
    ensures all_distinct(sv(fv_po_SolveMerge_s(), def))
{
    let m = fv_po_SolveMerge_s();
    assert(keeps_keys(m)) by {
        assert forall|a: Entry, b: Entry| uid(a) == uid(b) implies uid(#[trigger] merged(m, a, b)) == uid(a) by {
            assert(merged(m, a, b) == solve_merge(a, b));
        }
    }
    lemma_sv_keys(m, def);
    lemma_sk(def);
}

// include entries.rs
// Ordering: what the comparisons mean and that each is a total preorder.
pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x > 0 { 1 } else { 0 } }
pub open spec fn cmp_bool(a: bool, b: bool) -> int { if a == b { 0 } else if a { 1 } else { -1 } }
pub open spec fn cmp_int(a: int, b: int) -> int { if a < b { -1 } else if a > b { 1 } else { 0 } }

pub proof fn lemma_lexcmp_sym<A>(a: Seq<A>, b: Seq<A>, cmp: spec_fn(A, A) -> i64, i: int)
    requires total_preorder(cmp), 0 <= i, i <= a.len(), i <= b.len()
    ensures (lexcmp(a, b, cmp, i) < 0) == (lexcmp(b, a, cmp, i) > 0)
    decreases a.len() - i
{
    if i < a.len() && i < b.len() {
        assert((cmp(a[i], b[i]) < 0) == (cmp(b[i], a[i]) > 0));
        assert((cmp(b[i], a[i]) < 0) == (cmp(a[i], b[i]) > 0));
        lemma_lexcmp_sym(a, b, cmp, i + 1);
    }
}
pub proof fn lemma_lexcmp_trans<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>, cmp: spec_fn(A, A) -> i64, i: int)
    requires total_preorder(cmp), 0 <= i, i <= a.len(), i <= b.len(), i <= c.len(), lexcmp(a, b, cmp, i) <= 0, lexcmp(b, c, cmp, i) <= 0
    ensures lexcmp(a, c, cmp, i) <= 0
    decreases a.len() - i
{
    if i < a.len() && i < b.len() && i < c.len() {
        let (x, y, z) = (a[i], b[i], c[i]);
        assert(cmp(x, y) <= 0 && cmp(y, z) <= 0);
        assert(cmp(x, z) <= 0);
        if cmp(x, z) == 0 {
            assert((cmp(z, x) < 0) == (cmp(x, z) > 0));
            assert((cmp(x, z) < 0) == (cmp(z, x) > 0));
            assert(cmp(z, x) <= 0);
            assert(cmp(z, y) <= 0) by { assert(cmp(z, x) <= 0 && cmp(x, y) <= 0); }
            assert((cmp(y, z) < 0) == (cmp(z, y) > 0));
            assert(cmp(y, x) <= 0) by { assert(cmp(y, z) <= 0 && cmp(z, x) <= 0); }
            assert((cmp(x, y) < 0) == (cmp(y, x) > 0));
            lemma_lexcmp_trans(a, b, c, cmp, i + 1);
        }
    }
}
pub open spec fn lex_of<A>(cmp: spec_fn(A, A) -> i64) -> spec_fn(Seq<A>, Seq<A>) -> i64 { |a: Seq<A>, b: Seq<A>| lexcmp(a, b, cmp, 0) }
pub proof fn lemma_lex_preorder<A>(cmp: spec_fn(A, A) -> i64)
    requires total_preorder(cmp)
    ensures total_preorder(lex_of(cmp))
{
    let f = lex_of(cmp);
    assert forall|a: Seq<A>, b: Seq<A>| #![trigger f(a, b)] (f(a, b) < 0) == (f(b, a) > 0) && (f(a, b) <= 0 || f(b, a) <= 0) by {
        lemma_lexcmp_sym(a, b, cmp, 0);
        lemma_lexcmp_sym(b, a, cmp, 0);
    }
    assert forall|a: Seq<A>, b: Seq<A>, c: Seq<A>| #![trigger f(a, b), f(b, c)] f(a, b) <= 0 && f(b, c) <= 0 implies f(a, c) <= 0 by {
        lemma_lexcmp_trans(a, b, c, cmp, 0);
    }
}
// comparing through a key
pub proof fn lemma_key_preorder<A, K>(f: spec_fn(K, K) -> i64, k: spec_fn(A) -> K, h: spec_fn(A, A) -> i64)
    requires total_preorder(f), forall|a: A, b: A| sgn(#[trigger] h(a, b) as int) == sgn(f(k(a), k(b)) as int)
    ensures total_preorder(h)
{
    assert forall|a: A, b: A| #![trigger h(a, b)] (h(a, b) < 0) == (h(b, a) > 0) && (h(a, b) <= 0 || h(b, a) <= 0) by {
        assert((f(k(a), k(b)) < 0) == (f(k(b), k(a)) > 0));
        assert((f(k(b), k(a)) < 0) == (f(k(a), k(b)) > 0));
        assert(sgn(h(b, a) as int) == sgn(f(k(b), k(a)) as int));
    }
    assert forall|a: A, b: A, c: A| #![trigger h(a, b), h(b, c)] h(a, b) <= 0 && h(b, c) <= 0 implies h(a, c) <= 0 by {
        assert(f(k(a), k(b)) <= 0 && f(k(b), k(c)) <= 0);
        assert(sgn(h(a, c) as int) == sgn(f(k(a), k(c)) as int));
    }
}
// the first comparison decides, the second breaks ties
pub proof fn lemma_then_preorder<A>(f: spec_fn(A, A) -> i64, g: spec_fn(A, A) -> i64, h: spec_fn(A, A) -> i64)
    requires total_preorder(f), total_preorder(g),
        forall|a: A, b: A| sgn(#[trigger] h(a, b) as int) == (if f(a, b) != 0 { sgn(f(a, b) as int) } else { sgn(g(a, b) as int) })
    ensures total_preorder(h)
{
    assert forall|a: A, b: A| #![trigger h(a, b)] (h(a, b) < 0) == (h(b, a) > 0) && (h(a, b) <= 0 || h(b, a) <= 0) by {
        assert((f(a, b) < 0) == (f(b, a) > 0));
        assert((f(b, a) < 0) == (f(a, b) > 0));
        assert((g(a, b) < 0) == (g(b, a) > 0));
        assert((g(b, a) < 0) == (g(a, b) > 0));
        assert(sgn(h(b, a) as int) == (if f(b, a) != 0 { sgn(f(b, a) as int) } else { sgn(g(b, a) as int) }));
    }
    assert forall|a: A, b: A, c: A| #![trigger h(a, b), h(b, c)] h(a, b) <= 0 && h(b, c) <= 0 implies h(a, c) <= 0 by {
        assert(f(a, b) <= 0 && f(b, c) <= 0);
        assert(f(a, c) <= 0);
        assert(sgn(h(a, c) as int) == (if f(a, c) != 0 { sgn(f(a, c) as int) } else { sgn(g(a, c) as int) }));
        if f(a, c) == 0 {
            assert((f(c, a) < 0) == (f(a, c) > 0));
            assert((f(a, c) < 0) == (f(c, a) > 0));
            assert(f(c, a) <= 0);
            assert(f(b, a) <= 0) by { assert(f(b, c) <= 0 && f(c, a) <= 0); }
            assert((f(a, b) < 0) == (f(b, a) > 0));
            assert(f(c, b) <= 0) by { assert(f(c, a) <= 0 && f(a, b) <= 0); }
            assert((f(b, c) < 0) == (f(c, b) > 0));
            assert(g(a, b) <= 0 && g(b, c) <= 0);
        }
    }
}
pub proof fn lemma_str_preorder()
    ensures total_preorder(fv_str_cmp())
{
    let f = fv_str_cmp();
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger f(a, b)] (f(a, b) < 0) == (f(b, a) > 0) && (f(a, b) <= 0 || f(b, a) <= 0) by {
        assert(str_cmp(a, b) == -str_cmp(b, a));
    }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #![trigger f(a, b), f(b, c)] f(a, b) <= 0 && f(b, c) <= 0 implies f(a, c) <= 0 by {
        assert(str_cmp(a, b) <= 0 && str_cmp(b, c) <= 0);
    }
}
// --- locations and plural forms ---
pub proof fn lemma_location_by_line()
    ensures forall|a: Location, b: Location| sgn(#[trigger] po_CompareLocationByLine_s(a, b) as int) == cmp_int(a.Line as int, b.Line as int),
        total_preorder(fv_po_CompareLocationByLine_s())
{}
pub proof fn lemma_location_by_file()
    ensures forall|a: Location, b: Location| sgn(#[trigger] po_CompareLocationByFile_s(a, b) as int) == sgn(str_cmp(path_clean(a.File), path_clean(b.File)) as int),
        total_preorder(fv_po_CompareLocationByFile_s())
{
    lemma_str_preorder();
    lemma_key_preorder(fv_str_cmp(), |l: Location| path_clean(l.File), fv_po_CompareLocationByFile_s());
}
pub proof fn lemma_location()
    ensures
        forall|a: Location, b: Location| sgn(#[trigger] po_CompareLocation_s(a, b) as int) == (if str_cmp(path_clean(a.File), path_clean(b.File)) != 0 { sgn(str_cmp(path_clean(a.File), path_clean(b.File)) as int) } else { cmp_int(a.Line as int, b.Line as int) }),
        total_preorder(fv_po_CompareLocation_s())
{
    lemma_location_by_line();
    lemma_location_by_file();
    assert forall|a: Location, b: Location| sgn(#[trigger] po_CompareLocation_s(a, b) as int) == (if str_cmp(path_clean(a.File), path_clean(b.File)) != 0 { sgn(str_cmp(path_clean(a.File), path_clean(b.File)) as int) } else { cmp_int(a.Line as int, b.Line as int) }) by {
        assert(sgn(po_CompareLocationByFile_s(a, b) as int) == sgn(str_cmp(path_clean(a.File), path_clean(b.File)) as int));
        assert(sgn(po_CompareLocationByLine_s(a, b) as int) == cmp_int(a.Line as int, b.Line as int));
    }
    assert forall|a: Location, b: Location| sgn(#[trigger] (fv_po_CompareLocation_s())(a, b) as int) == (if (fv_po_CompareLocationByFile_s())(a, b) != 0 { sgn((fv_po_CompareLocationByFile_s())(a, b) as int) } else { sgn((fv_po_CompareLocationByLine_s())(a, b) as int) }) by {
        assert(sgn(po_CompareLocation_s(a, b) as int) == sgn(po_CompareLocation_s(a, b) as int));
        assert(sgn(po_CompareLocationByFile_s(a, b) as int) == sgn(str_cmp(path_clean(a.File), path_clean(b.File)) as int));
        assert(sgn(po_CompareLocationByLine_s(a, b) as int) == cmp_int(a.Line as int, b.Line as int));
    }
    lemma_then_preorder(fv_po_CompareLocationByFile_s(), fv_po_CompareLocationByLine_s(), fv_po_CompareLocation_s());
}
pub proof fn lemma_plural_by_id()
    ensures forall|a: PluralEntry, b: PluralEntry| sgn(#[trigger] po_ComparePluralEntryByID_s(a, b) as int) == cmp_int(a.ID as int, b.ID as int),
        total_preorder(fv_po_ComparePluralEntryByID_s())
{}
pub proof fn lemma_plural_by_str()
    ensures forall|a: PluralEntry, b: PluralEntry| sgn(#[trigger] po_ComparePluralEntryByStr_s(a, b) as int) == sgn(str_cmp(a.Str, b.Str) as int),
        total_preorder(fv_po_ComparePluralEntryByStr_s())
{
    lemma_str_preorder();
    lemma_key_preorder(fv_str_cmp(), |l: PluralEntry| l.Str, fv_po_ComparePluralEntryByStr_s());
}
pub open spec fn plural_le(a: PluralEntry, b: PluralEntry) -> int { if a.ID != b.ID { cmp_int(a.ID as int, b.ID as int) } else { sgn(str_cmp(a.Str, b.Str) as int) } }
pub proof fn lemma_plural()
    ensures
        forall|a: PluralEntry, b: PluralEntry| sgn(#[trigger] po_ComparePluralEntry_s(a, b) as int) == plural_le(a, b),
        total_preorder(fv_po_ComparePluralEntry_s())
{
    lemma_plural_by_id();
    lemma_plural_by_str();
    let (f, g, h) = (fv_po_ComparePluralEntryByID_s(), fv_po_ComparePluralEntryByStr_s(), fv_po_ComparePluralEntry_s());
    assert forall|a: PluralEntry, b: PluralEntry| sgn(#[trigger] po_ComparePluralEntry_s(a, b) as int) == plural_le(a, b) by {
        assert(sgn(po_ComparePluralEntryByID_s(a, b) as int) == cmp_int(a.ID as int, b.ID as int));
        assert(sgn(po_ComparePluralEntryByStr_s(a, b) as int) == sgn(str_cmp(a.Str, b.Str) as int));
    }
    assert forall|a: PluralEntry, b: PluralEntry| sgn(#[trigger] h(a, b) as int) == (if f(a, b) != 0 { sgn(f(a, b) as int) } else { sgn(g(a, b) as int) }) by {
        assert(sgn(po_ComparePluralEntry_s(a, b) as int) == plural_le(a, b));
        assert(sgn(po_ComparePluralEntryByID_s(a, b) as int) == cmp_int(a.ID as int, b.ID as int));
        assert(sgn(po_ComparePluralEntryByStr_s(a, b) as int) == sgn(str_cmp(a.Str, b.Str) as int));
    }
    lemma_then_preorder(f, g, h);
}

// --- entries ---
pub proof fn lemma_entry_by_obsolete()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByObsolete_s(a, b) as int) == cmp_bool(a.Obsolete, b.Obsolete),
        total_preorder(fv_po_CompareEntryByObsolete_s())
{}
pub proof fn lemma_entry_by_fuzzy()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByFuzzy_s(a, b) as int) == cmp_bool(fuzzy(a), fuzzy(b)),
        total_preorder(fv_po_CompareEntryByFuzzy_s())
{
    broadcast use lemma_is_fuzzy;
    let h = fv_po_CompareEntryByFuzzy_s();
    let f = |x: bool, y: bool| cmp_bool(x, y) as i64;
    lemma_key_preorder(f, |e: Entry| fuzzy(e), h);
}
pub proof fn lemma_entry_by_id()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByID_s(a, b) as int) == sgn(str_cmp(uid(a), uid(b)) as int),
        total_preorder(fv_po_CompareEntryByID_s())
{
    lemma_str_preorder();
    lemma_key_preorder(fv_str_cmp(), |e: Entry| uid(e), fv_po_CompareEntryByID_s());
}
pub proof fn lemma_entry_by_location()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByLocation_s(a, b) as int) == sgn(lexcmp(a.Locations, b.Locations, fv_po_CompareLocation_s(), 0) as int),
        total_preorder(fv_po_CompareEntryByLocation_s())
{
    lemma_location();
    lemma_lex_preorder(fv_po_CompareLocation_s());
    lemma_key_preorder(lex_of(fv_po_CompareLocation_s()), |e: Entry| e.Locations, fv_po_CompareEntryByLocation_s());
}
pub proof fn lemma_entry_by_line()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByLine_s(a, b) as int) == sgn(lexcmp(a.Locations, b.Locations, fv_po_CompareLocationByLine_s(), 0) as int),
        total_preorder(fv_po_CompareEntryByLine_s())
{
    lemma_location_by_line();
    lemma_lex_preorder(fv_po_CompareLocationByLine_s());
    lemma_key_preorder(lex_of(fv_po_CompareLocationByLine_s()), |e: Entry| e.Locations, fv_po_CompareEntryByLine_s());
}
pub proof fn lemma_entry_by_file()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByFile_s(a, b) as int) == sgn(lexcmp(a.Locations, b.Locations, fv_po_CompareLocationByFile_s(), 0) as int),
        total_preorder(fv_po_CompareEntryByFile_s())
{
    lemma_location_by_file();
    lemma_lex_preorder(fv_po_CompareLocationByFile_s());
    lemma_key_preorder(lex_of(fv_po_CompareLocationByFile_s()), |e: Entry| e.Locations, fv_po_CompareEntryByFile_s());
}
// obsolete last, then fuzzy last, then source location, then key
pub open spec fn entry_le(a: Entry, b: Entry) -> int {
    if a.Obsolete != b.Obsolete { cmp_bool(a.Obsolete, b.Obsolete) }
    else if fuzzy(a) != fuzzy(b) { cmp_bool(fuzzy(a), fuzzy(b)) }
    else if lexcmp(a.Locations, b.Locations, fv_po_CompareLocation_s(), 0) != 0 { sgn(lexcmp(a.Locations, b.Locations, fv_po_CompareLocation_s(), 0) as int) }
    else { sgn(str_cmp(uid(a), uid(b)) as int) }
}
pub proof fn lemma_entry()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntry_s(a, b) as int) == entry_le(a, b),
        total_preorder(fv_po_CompareEntry_s())
{
    lemma_entry_by_obsolete();
    lemma_entry_by_fuzzy();
    lemma_entry_by_location();
    lemma_entry_by_id();
    let (o, f, l, i) = (fv_po_CompareEntryByObsolete_s(), fv_po_CompareEntryByFuzzy_s(), fv_po_CompareEntryByLocation_s(), fv_po_CompareEntryByID_s());
    let li = |a: Entry, b: Entry| if l(a, b) != 0 { l(a, b) } else { i(a, b) };
    let fli = |a: Entry, b: Entry| if f(a, b) != 0 { f(a, b) } else { li(a, b) };
    lemma_then_preorder(l, i, li);
    lemma_then_preorder(f, li, fli);
    assert forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntry_s(a, b) as int) == entry_le(a, b) by {
        assert(sgn(po_CompareEntryByObsolete_s(a, b) as int) == cmp_bool(a.Obsolete, b.Obsolete));
        assert(sgn(po_CompareEntryByFuzzy_s(a, b) as int) == cmp_bool(fuzzy(a), fuzzy(b)));
        assert(sgn(po_CompareEntryByLocation_s(a, b) as int) == sgn(lexcmp(a.Locations, b.Locations, fv_po_CompareLocation_s(), 0) as int));
        assert(sgn(po_CompareEntryByID_s(a, b) as int) == sgn(str_cmp(uid(a), uid(b)) as int));
    }
    assert forall|a: Entry, b: Entry| sgn(#[trigger] (fv_po_CompareEntry_s())(a, b) as int) == (if o(a, b) != 0 { sgn(o(a, b) as int) } else { sgn(fli(a, b) as int) }) by {
        assert(sgn(po_CompareEntry_s(a, b) as int) == entry_le(a, b));
        assert(sgn(po_CompareEntryByObsolete_s(a, b) as int) == cmp_bool(a.Obsolete, b.Obsolete));
        assert(sgn(po_CompareEntryByFuzzy_s(a, b) as int) == cmp_bool(fuzzy(a), fuzzy(b)));
        assert(sgn(po_CompareEntryByLocation_s(a, b) as int) == sgn(lexcmp(a.Locations, b.Locations, fv_po_CompareLocation_s(), 0) as int));
        assert(sgn(po_CompareEntryByID_s(a, b) as int) == sgn(str_cmp(uid(a), uid(b)) as int));
    }
    lemma_then_preorder(o, fli, fv_po_CompareEntry_s());
}

// --- merging two entries with one key ---
pub open spec fn str_le(a: Entry, b: Entry) -> int {
    let p = lexcmp(a.Plurals, b.Plurals, fv_po_ComparePluralEntryByStr_s(), 0);
    if (a.Plural.len() > 0 || a.Plurals.len() > 0) && (b.Plural.len() > 0 || b.Plurals.len() > 0) && p != 0 { sgn(p as int) }
    else { sgn(str_cmp(a.Str, b.Str) as int) }
}
pub proof fn lemma_by_str()
    ensures forall|a: Entry, b: Entry| sgn(#[trigger] po_CompareEntryByStr_s(a, b) as int) == str_le(a, b)
{}
pub open spec fn solve_merge(a: Entry, b: Entry) -> Entry {
    let p = if entry_le(a, b) > 0 { a } else { b };
    let s = if str_le(a, b) > 0 { a } else { b };
    Entry { Locations: a.Locations.add(b.Locations), Str: s.Str, Plurals: s.Plurals, ..p }
}
// --- plural forms as one string ---
pub open spec fn plurals_in_order(e: Entry) -> Seq<PluralEntry> {
    if sorted_adj(fv_po_ComparePluralEntry_s(), e.Plurals) { e.Plurals } else { sort_by(fv_po_ComparePluralEntry_s(), e.Plurals) }
}
pub open spec fn join_nul(p: Seq<PluralEntry>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else { let h = join_nul(p, n - 1).add(p[n - 1].Str); if n < p.len() { h.push(0u8) } else { h } }
}
pub open spec fn unified_str(e: Entry) -> Seq<u8> { let p = plurals_in_order(e); e.Str.add(join_nul(p, p.len() as int)) }
pub open spec fn full_uid(e: Entry) -> Seq<u8> { if e.Plural.len() > 0 { uid(e).push(0u8).add(e.Plural) } else { uid(e) } }

// first of the entries reaching the best positive ratio
pub open spec fn best_ratio(s: Seq<Entry>, f: spec_fn(Entry) -> i64, n: int) -> (int, int)
    decreases n
{
    if n <= 0 { (0, 0) } else {
        let p = best_ratio(s, f, n - 1);
        if f(s[n - 1]) > p.1 { (n - 1, f(s[n - 1]) as int) } else { p }
    }
}
pub proof fn lemma_best_ratio(s: Seq<Entry>, f: spec_fn(Entry) -> i64, n: int)
    requires 0 <= n <= s.len()
    ensures
        best_ratio(s, f, n).1 >= 0,
        forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]) <= best_ratio(s, f, n).1,
        best_ratio(s, f, n).1 > 0 ==> 0 <= best_ratio(s, f, n).0 < n && f(s[best_ratio(s, f, n).0]) == best_ratio(s, f, n).1,
        best_ratio(s, f, n).1 == 0 ==> best_ratio(s, f, n).0 == 0,
    decreases n
{ if n > 0 { lemma_best_ratio(s, f, n - 1); } }

// plural forms without repetition, first occurrences kept in order
pub open spec fn plurals_once(p: Seq<PluralEntry>) -> Seq<PluralEntry>
    decreases p.len()
{ if p.len() == 0 { p } else { let q = plurals_once(p.drop_last()); if q.contains(p.last()) { q } else { q.push(p.last()) } } }
pub open spec fn plural_key(q: PluralEntry) -> Seq<u8> { q.Str.push(0u8).add(itoa(q.ID as int)) }
// what stands before the only NUL, and after it
pub proof fn lemma_cut_nul(x: Seq<u8>, m: Seq<u8>, y: Seq<u8>, n: Seq<u8>)
    requires x.push(0u8).add(m) == y.push(0u8).add(n), forall|k: int| 0 <= k < m.len() ==> m[k] != 0, forall|k: int| 0 <= k < n.len() ==> n[k] != 0
    ensures x == y, m == n
{
    let (p, q) = (x.push(0u8).add(m), y.push(0u8).add(n));
    let (i, j) = (x.len() as int, y.len() as int);
    assert(p[i] == 0 && q[j] == 0);
    assert(p.len() == i + 1 + m.len() && q.len() == j + 1 + n.len());
    if i < j { assert(p[j] == m[j - i - 1]); }
    if j < i { assert(q[i] == n[i - j - 1]); }
    assert(x =~= p.take(i));
    assert(y =~= q.take(j));
    assert(m =~= p.skip(i + 1));
    assert(n =~= q.skip(j + 1));
}
#[verifier::spinoff_prover]
pub proof fn lemma_plural_key_pair(a: PluralEntry, b: PluralEntry)
    requires plural_key(a) == plural_key(b)
    ensures a == b
{
    let (m, n) = (itoa(a.ID as int), itoa(b.ID as int));
    lemma_itoa(a.ID as int);
    lemma_itoa(b.ID as int);
    assert(forall|k: int| 0 <= k < m.len() ==> #[trigger] m[k] != 0);
    assert(forall|k: int| 0 <= k < n.len() ==> #[trigger] n[k] != 0);
    lemma_cut_nul(a.Str, m, b.Str, n);
    lemma_itoa_inj(a.ID as int, b.ID as int);
}
pub proof fn lemma_plural_key()
    ensures forall|a: PluralEntry, b: PluralEntry| #![trigger plural_key(a), plural_key(b)] plural_key(a) == plural_key(b) ==> a == b
{
    assert forall|a: PluralEntry, b: PluralEntry| #![trigger plural_key(a), plural_key(b)] plural_key(a) == plural_key(b) implies a == b by { lemma_plural_key_pair(a, b); }
}

// compared pair by pair with its neighbour, a list is in order throughout
pub proof fn lemma_adjacent<T>(cmp: spec_fn(T, T) -> i64, s: Seq<T>, n: int)
    requires total_preorder(cmp), sorted_adj(cmp, s), 0 <= n <= s.len()
    ensures forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] cmp(s[i], s[j])) <= 0
    decreases n
{
    if n > 0 {
        lemma_adjacent(cmp, s, n - 1);
        assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] cmp(s[i], s[j])) <= 0 by {
            if j == n - 1 {
                assert(!(cmp(s[j], s[j - 1]) < 0));
                assert(cmp(s[j - 1], s[j]) <= 0);
                if i < j - 1 { assert(cmp(s[i], s[j - 1]) <= 0); }
            }
        }
    }
}
pub proof fn lemma_is_sorted<T>(cmp: spec_fn(T, T) -> i64, s: Seq<T>)
    requires total_preorder(cmp)
    ensures sorted_adj(cmp, s) == sorted_by(cmp, s)
{
    if sorted_adj(cmp, s) { lemma_adjacent(cmp, s, s.len() as int); }
    if sorted_by(cmp, s) {
        assert forall|k: int| 0 < k < s.len() implies !((#[trigger] cmp(s[k], s[k - 1])) < 0) by { assert(cmp(s[k - 1], s[k]) <= 0); }
    }
}

// --- similarity of messages (0 to 100): the average over what either has ---
pub open spec fn some_ratio(on: bool, a: Seq<u8>, b: Seq<u8>) -> Seq<i64> { if on { seq![fuzzy_ratio(a, b)] } else { Seq::empty() } }
pub open spec fn has_plural(e: Entry) -> bool { e.Plural.len() > 0 || e.Plurals.len() > 0 }
// ids, contexts if either has one, plural ids if both are plural
pub open spec fn id_similarity(a: Entry, b: Entry) -> i64 { avg_i64(id_ratios(a, b)) }
pub open spec fn id_ratios(a: Entry, b: Entry) -> Seq<i64> {
    some_ratio(a.ID.len() > 0 || b.ID.len() > 0, a.ID, b.ID)
        .add(some_ratio(a.Context.len() > 0 || b.Context.len() > 0, a.Context, b.Context))
        .add(some_ratio(has_plural(a) && has_plural(b), a.Plural, b.Plural))
}
// translations, and the plural forms both have by position if either message is plural
pub open spec fn form_ratios(a: Seq<PluralEntry>, b: Seq<PluralEntry>, n: int) -> Seq<i64> {
    Seq::new((if n < b.len() { n } else { b.len() as int }) as nat, |i: int| fuzzy_ratio(a[i].Str, b[i].Str))
}
pub open spec fn str_similarity(a: Entry, b: Entry) -> i64 {
    let s = some_ratio(a.Str.len() > 0 || b.Str.len() > 0, a.Str, b.Str);
    avg_i64(if has_plural(a) || has_plural(b) { s.add(form_ratios(a.Plurals, b.Plurals, a.Plurals.len() as int)) } else { s })
}

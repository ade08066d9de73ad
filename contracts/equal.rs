// include order.rs
// Equality of messages (C17).
pub open spec fn entry_same(a: Entry, b: Entry) -> bool {
    &&& uid(a) == uid(b) && a.Plural == b.Plural && a.Str == b.Str
    &&& a.Plurals.to_multiset() == b.Plurals.to_multiset()
    &&& a.Flags == b.Flags && a.Obsolete == b.Obsolete
}
pub proof fn lemma_lexcmp_equal(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), a.take(i) == b.take(i)
    ensures (lexcmp(a, b, fv_str_cmp(), i) == 0) == (a == b)
    decreases a.len() - i
{
    if i >= a.len() || i >= b.len() { if a.len() == b.len() { assert(a =~= a.take(i)); assert(b =~= b.take(i)); } }
    else if str_cmp(a[i], b[i]) == 0 {
        assert forall|j: int| 0 <= j < i implies a[j] == b[j] by { assert(a.take(i)[j] == b.take(i)[j]); }
        assert(a.take(i + 1) =~= b.take(i + 1));
        lemma_lexcmp_equal(a, b, i + 1);
    }
}
pub open spec fn antisym<T>(cmp: spec_fn(T, T) -> i64) -> bool { forall|a: T, b: T| (#[trigger] cmp(a, b)) == 0 ==> a == b }
pub proof fn lemma_sorted_same<T>(cmp: spec_fn(T, T) -> i64, x: Seq<T>, y: Seq<T>)
    requires total_preorder(cmp), antisym(cmp), sorted_by(cmp, x), sorted_by(cmp, y), x.to_multiset() == y.to_multiset()
    ensures x == y
    decreases x.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(x.len() == x.to_multiset().len() && y.len() == y.to_multiset().len());
    if x.len() > 0 {
        let (a, b) = (x.last(), y.last());
        assert(x.to_multiset().contains(a)) by { assert(x.contains(a)); }
        assert(y.to_multiset().contains(b)) by { assert(y.contains(b)); }
        assert(y.contains(a) && x.contains(b));
        let i = y.index_of(a);
        let j = x.index_of(b);
        if i < y.len() - 1 && j < x.len() - 1 {
            assert(cmp(y[i], y[y.len() - 1]) <= 0);
            assert(cmp(x[j], x[x.len() - 1]) <= 0);
            assert(cmp(a, b) <= 0 && cmp(b, a) <= 0);
            assert(cmp(a, b) == 0);
        }
        assert(a == b);
        let (p, q) = (x.drop_last(), y.drop_last());
        assert(p.push(a) =~= x);
        assert(q.push(a) =~= y);
        assert(p.to_multiset() =~= x.to_multiset().remove(a)) by { assert(p.push(a).to_multiset() =~= p.to_multiset().insert(a)); }
        assert(q.to_multiset() =~= y.to_multiset().remove(a)) by { assert(q.push(a).to_multiset() =~= q.to_multiset().insert(a)); }
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] cmp(p[i], p[j])) <= 0 by { assert(p[i] == x[i] && p[j] == x[j]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] cmp(q[i], q[j])) <= 0 by { assert(q[i] == y[i] && q[j] == y[j]); }
        lemma_sorted_same(cmp, p, q);
    } else { assert(x =~= y); }
}
pub proof fn lemma_full_uid(a: Entry, b: Entry)
    ensures uid(a) == uid(b) ==> (full_uid(a) == full_uid(b)) == (a.Plural == b.Plural)
{
    if uid(a) == uid(b) && full_uid(a) == full_uid(b) {
        let n = uid(a).len() as int;
        assert(full_uid(a).len() == n + if a.Plural.len() > 0 { 1 + a.Plural.len() } else { 0 });
        assert(full_uid(b).len() == n + if b.Plural.len() > 0 { 1 + b.Plural.len() } else { 0 });
        if a.Plural.len() > 0 { assert(full_uid(a).skip(n + 1) =~= a.Plural); assert(full_uid(b).skip(n + 1) =~= b.Plural); }
        else { assert(a.Plural =~= b.Plural); }
    }
}
// plural forms in order are the same when there are the same
pub proof fn lemma_forms_in_order(a: Entry, b: Entry)
    ensures
        sort_by(fv_po_ComparePluralEntry_s(), a.Plurals) == plurals_in_order(a),
        (plurals_in_order(a) == plurals_in_order(b)) == (a.Plurals.to_multiset() == b.Plurals.to_multiset()),
{
    let cmp = fv_po_ComparePluralEntry_s();
    lemma_plural();
    assert(antisym(cmp)) by {
        assert forall|x: PluralEntry, y: PluralEntry| (#[trigger] cmp(x, y)) == 0 implies x == y by { assert(sgn(po_ComparePluralEntry_s(x, y) as int) == plural_le(x, y)); }
    }
    let (p, q) = (plurals_in_order(a), plurals_in_order(b));
    if sorted_adj(cmp, a.Plurals) { lemma_adjacent(cmp, a.Plurals, a.Plurals.len() as int); }
    if sorted_adj(cmp, b.Plurals) { lemma_adjacent(cmp, b.Plurals, b.Plurals.len() as int); }
    assert(p.to_multiset() == a.Plurals.to_multiset() && q.to_multiset() == b.Plurals.to_multiset());
    assert(sorted_by(cmp, p) && sorted_by(cmp, q));
    lemma_sorted_same(cmp, sort_by(cmp, a.Plurals), p);
    if p.to_multiset() == q.to_multiset() { lemma_sorted_same(cmp, p, q); }
}
// equality of messages is an equivalence and tells apart what the property names
pub proof fn lemma_equivalence(a: Entry, b: Entry, c: Entry)
    ensures
        entry_same(a, a),
        entry_same(a, b) == entry_same(b, a),
        entry_same(a, b) && entry_same(b, c) ==> entry_same(a, c),
        uid(a) != uid(b) || a.Plural != b.Plural || a.Str != b.Str || a.Obsolete != b.Obsolete || a.Flags != b.Flags ==> !entry_same(a, b),
        (exists|f: PluralEntry| #[trigger] a.Plurals.to_multiset().count(f) != b.Plurals.to_multiset().count(f)) ==> !entry_same(a, b),
{}

// --- values seen through reflection ---
// what the pair stands for is the same
pub open spec fn rv_pair_same(p: Util_visitedPair) -> bool { rv_same(go_mem(p.typ, p.addr1), go_mem(p.typ, p.addr2)) }
pub open spec fn rv_seen(m: Map<Util_visitedPair, ()>, rank: nat) -> bool { forall|p: Util_visitedPair| #[trigger] m.contains_key(p) ==> rv_pair_same(p) || p.typ.rank > rank }
pub open spec fn rv_around(m: Map<Util_visitedPair, ()>, rank: nat) -> bool { forall|p: Util_visitedPair| #[trigger] m.contains_key(p) ==> rv_pair_same(p) || p.typ.rank >= rank }
pub open spec fn rv_settled(a: Map<Util_visitedPair, ()>, b: Map<Util_visitedPair, ()>) -> bool { forall|p: Util_visitedPair| #[trigger] b.contains_key(p) ==> a.contains_key(p) || rv_pair_same(p) }

pub broadcast group rv_types {
    rv_string, rv_int, rv_bool, rv_strings, rv_PluralEntry, rv_PluralEntries, rv_Location, rv_Locations, rv_Entry, rv_Entries, rv_File,
    pl_string, pl_int, pl_bool, pl_strings, pl_PluralEntry, pl_PluralEntries, pl_Location, pl_Locations, pl_Entry, pl_Entries, pl_File,
}
pub broadcast proof fn rv_string(a: Seq<u8>, b: Seq<u8>, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_string(a, m, x), rv_of_string(b, k, y)) == (a == b)
{}
pub broadcast proof fn pl_string(a: Seq<u8>, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_string(a, m, x)) {}
pub broadcast proof fn rv_int(a: i64, b: i64, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_int(a, m, x), rv_of_int(b, k, y)) == (a == b)
{}
pub broadcast proof fn pl_int(a: i64, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_int(a, m, x)) {}
pub broadcast proof fn rv_bool(a: bool, b: bool, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_bool(a, m, x), rv_of_bool(b, k, y)) == (a == b)
{}
pub broadcast proof fn pl_bool(a: bool, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_bool(a, m, x)) {}
pub broadcast proof fn rv_strings(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_slice_string(a, m, x), rv_of_slice_string(b, k, y)) == (a == b)
{
    broadcast use rv_string;
    let (s, t) = (rv_parts(rv_of_slice_string(a, m, x)), rv_parts(rv_of_slice_string(b, k, y)));
    if rv_same(rv_of_slice_string(a, m, x), rv_of_slice_string(b, k, y)) {
        assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(rv_same(s[i], t[i])); }
        assert(a =~= b);
    }
    if a == b {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies rv_same(s[i], t[i]) by { assert(a[i] == b[i]); }
        assert(rv_same(rv_of_slice_string(a, m, x), rv_of_slice_string(b, k, y)));
    }
}
pub broadcast proof fn pl_strings(a: Seq<Seq<u8>>, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_slice_string(a, m, x)) { broadcast use pl_string; }
pub broadcast proof fn rv_PluralEntry(a: PluralEntry, b: PluralEntry, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_PluralEntry(a, m, x), rv_of_PluralEntry(b, k, y)) == (a == b)
{
    broadcast use rv_int, rv_string;
    let (s, t) = (rv_parts(rv_of_PluralEntry(a, m, x)), rv_parts(rv_of_PluralEntry(b, k, y)));
    if rv_same(rv_of_PluralEntry(a, m, x), rv_of_PluralEntry(b, k, y)) { assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1])); }
    if a == b {
        assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1]));
        assert(rv_same(rv_of_PluralEntry(a, m, x), rv_of_PluralEntry(b, k, y)));
    }
}
pub broadcast proof fn pl_PluralEntry(a: PluralEntry, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_PluralEntry(a, m, x)) { broadcast use pl_int, pl_string; }
pub broadcast proof fn rv_PluralEntries(a: Seq<PluralEntry>, b: Seq<PluralEntry>, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_PluralEntries(a, m, x), rv_of_PluralEntries(b, k, y)) == (a == b)
{
    broadcast use rv_PluralEntry;
    let (s, t) = (rv_parts(rv_of_PluralEntries(a, m, x)), rv_parts(rv_of_PluralEntries(b, k, y)));
    if rv_same(rv_of_PluralEntries(a, m, x), rv_of_PluralEntries(b, k, y)) {
        assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(rv_same(s[i], t[i])); }
        assert(a =~= b);
    }
    if a == b {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies rv_same(s[i], t[i]) by { assert(a[i] == b[i]); }
        assert(rv_same(rv_of_PluralEntries(a, m, x), rv_of_PluralEntries(b, k, y)));
    }
}
pub broadcast proof fn pl_PluralEntries(a: Seq<PluralEntry>, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_PluralEntries(a, m, x)) { broadcast use pl_PluralEntry; }
pub broadcast proof fn rv_Location(a: Location, b: Location, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_Location(a, m, x), rv_of_Location(b, k, y)) == (a == b)
{
    broadcast use rv_int, rv_string;
    let (s, t) = (rv_parts(rv_of_Location(a, m, x)), rv_parts(rv_of_Location(b, k, y)));
    if rv_same(rv_of_Location(a, m, x), rv_of_Location(b, k, y)) { assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1])); }
    if a == b {
        assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1]));
        assert(rv_same(rv_of_Location(a, m, x), rv_of_Location(b, k, y)));
    }
}
pub broadcast proof fn pl_Location(a: Location, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_Location(a, m, x)) { broadcast use pl_int, pl_string; }
pub broadcast proof fn rv_Locations(a: Seq<Location>, b: Seq<Location>, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_Locations(a, m, x), rv_of_Locations(b, k, y)) == (a == b)
{
    broadcast use rv_Location;
    let (s, t) = (rv_parts(rv_of_Locations(a, m, x)), rv_parts(rv_of_Locations(b, k, y)));
    if rv_same(rv_of_Locations(a, m, x), rv_of_Locations(b, k, y)) {
        assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(rv_same(s[i], t[i])); }
        assert(a =~= b);
    }
    if a == b {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies rv_same(s[i], t[i]) by { assert(a[i] == b[i]); }
        assert(rv_same(rv_of_Locations(a, m, x), rv_of_Locations(b, k, y)));
    }
}
pub broadcast proof fn pl_Locations(a: Seq<Location>, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_Locations(a, m, x)) { broadcast use pl_Location; }
pub broadcast proof fn rv_Entry(a: Entry, b: Entry, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_Entry(a, m, x), rv_of_Entry(b, k, y)) == (a == b)
{
    broadcast use rv_bool, rv_string, rv_strings, rv_PluralEntries, rv_Locations;
    let (s, t) = (rv_parts(rv_of_Entry(a, m, x)), rv_parts(rv_of_Entry(b, k, y)));
    if rv_same(rv_of_Entry(a, m, x), rv_of_Entry(b, k, y)) { assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1])); assert(rv_same(s[2], t[2])); assert(rv_same(s[3], t[3])); assert(rv_same(s[4], t[4])); assert(rv_same(s[5], t[5])); assert(rv_same(s[6], t[6])); assert(rv_same(s[7], t[7])); assert(rv_same(s[8], t[8])); assert(rv_same(s[9], t[9])); assert(rv_same(s[10], t[10])); }
    if a == b {
        assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1])); assert(rv_same(s[2], t[2])); assert(rv_same(s[3], t[3])); assert(rv_same(s[4], t[4])); assert(rv_same(s[5], t[5])); assert(rv_same(s[6], t[6])); assert(rv_same(s[7], t[7])); assert(rv_same(s[8], t[8])); assert(rv_same(s[9], t[9])); assert(rv_same(s[10], t[10]));
        assert(rv_same(rv_of_Entry(a, m, x), rv_of_Entry(b, k, y)));
    }
}
pub broadcast proof fn pl_Entry(a: Entry, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_Entry(a, m, x)) { broadcast use pl_bool, pl_string, pl_strings, pl_PluralEntries, pl_Locations; }
pub broadcast proof fn rv_Entries(a: Sl<Entry>, b: Sl<Entry>, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_Entries(a, m, x), rv_of_Entries(b, k, y)) == (a.d == b.d)
{
    broadcast use rv_Entry;
    let (s, t) = (rv_parts(rv_of_Entries(a, m, x)), rv_parts(rv_of_Entries(b, k, y)));
    if rv_same(rv_of_Entries(a, m, x), rv_of_Entries(b, k, y)) {
        assert forall|i: int| 0 <= i < s.len() implies a.d[i] == b.d[i] by { assert(rv_same(s[i], t[i])); }
        assert(a.d =~= b.d);
    }
    if a.d == b.d {
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies rv_same(s[i], t[i]) by { assert(a.d[i] == b.d[i]); }
        assert(rv_same(rv_of_Entries(a, m, x), rv_of_Entries(b, k, y)));
    }
}
pub broadcast proof fn pl_Entries(a: Sl<Entry>, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_Entries(a, m, x)) { broadcast use pl_Entry; }
pub broadcast proof fn rv_File(a: File, b: File, m: int, k: int, x: bool, y: bool)
    ensures #[trigger] rv_same(rv_of_File(a, m, x), rv_of_File(b, k, y)) == (a.Name == b.Name && a.Entries.d == b.Entries.d)
{
    broadcast use rv_string, rv_Entries;
    let (s, t) = (rv_parts(rv_of_File(a, m, x)), rv_parts(rv_of_File(b, k, y)));
    if rv_same(rv_of_File(a, m, x), rv_of_File(b, k, y)) { assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1])); }
    if a.Name == b.Name && a.Entries.d == b.Entries.d {
        assert(rv_same(s[0], t[0])); assert(rv_same(s[1], t[1]));
        assert(rv_same(rv_of_File(a, m, x), rv_of_File(b, k, y)));
    }
}
pub broadcast proof fn pl_File(a: File, m: int, x: bool) ensures rv_plain(#[trigger] rv_of_File(a, m, x)) { broadcast use pl_string, pl_Entries; }

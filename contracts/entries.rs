// include base.rs
// Duplicate resolution (Entries.SolveFunc) and its consequences.
pub open spec fn uid(e: Entry) -> Seq<u8> { if e.Context.len() > 0 { e.Context.push(4u8).add(e.ID) } else { e.ID } }

// the distinct keys of a list, in order of first occurrence
pub open spec fn sk(s: Seq<Entry>) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = sk(s.drop_last());
        if p.contains(uid(s.last())) { p } else { p.push(uid(s.last())) }
    }
}
pub open spec fn merged(m: spec_fn(Entry, Entry) -> Option<Entry>, a: Entry, b: Entry) -> Entry {
    match m(a, b) { Some(x) => x, None => a }
}
// the entries standing for those keys
pub open spec fn sv(m: spec_fn(Entry, Entry) -> Option<Entry>, s: Seq<Entry>) -> Seq<Entry>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = sv(m, s.drop_last());
        let k = sk(s.drop_last());
        if k.contains(uid(s.last())) {
            let i = k.index_of(uid(s.last()));
            p.update(i, merged(m, p[i], s.last()))
        } else { p.push(s.last()) }
    }
}
// keys are pairwise different, each stands for some entry, none is missing
pub proof fn lemma_sk(s: Seq<Entry>)
    ensures
        sk(s).no_duplicates(),
        forall|i: int| 0 <= i < s.len() ==> sk(s).contains(uid(#[trigger] s[i])),
        forall|k: Seq<u8>| sk(s).contains(k) ==> exists|i: int| 0 <= i < s.len() && uid(#[trigger] s[i]) == k,
        sk(s).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_sk(t);
        let p = sk(t);
        let u = uid(s.last());
        if p.contains(u) {
        } else {
            assert(p.push(u)[p.len() as int] == u);
            assert forall|k: Seq<u8>| p.contains(k) implies p.push(u).contains(k) by {
                let i = p.index_of(k);
                assert(p.push(u)[i] == k);
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies sk(s).contains(uid(#[trigger] s[i])) by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
        assert forall|k: Seq<u8>| sk(s).contains(k) implies exists|i: int| 0 <= i < s.len() && uid(#[trigger] s[i]) == k by {
            if p.contains(k) {
                let i = choose|i: int| 0 <= i < t.len() && uid(#[trigger] t[i]) == k;
                assert(s[i] == t[i]);
            } else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}
pub proof fn lemma_sv_len(m: spec_fn(Entry, Entry) -> Option<Entry>, s: Seq<Entry>)
    ensures sv(m, s).len() == sk(s).len()
    decreases s.len()
{ if s.len() > 0 { lemma_sv_len(m, s.drop_last()); } }
pub broadcast proof fn lemma_sv_ext(m1: spec_fn(Entry, Entry) -> Option<Entry>, m2: spec_fn(Entry, Entry) -> Option<Entry>, s: Seq<Entry>)
    requires forall|a: Entry, b: Entry| merged(m1, a, b) == merged(m2, a, b)
    ensures #[trigger] sv(m1, s) == #[trigger] sv(m2, s)
    decreases s.len()
{ if s.len() > 0 { lemma_sv_ext(m1, m2, s.drop_last()); } }

// a rule written in another way
pub proof fn lemma_sv_any(m: spec_fn(Entry, Entry) -> Option<Entry>, s: Seq<Entry>)
    ensures forall|n: spec_fn(Entry, Entry) -> Option<Entry>| (forall|a: Entry, b: Entry| #[trigger] n(a, b) == m(a, b)) ==> #[trigger] sv(n, s) == sv(m, s)
{
    assert forall|n: spec_fn(Entry, Entry) -> Option<Entry>| (forall|a: Entry, b: Entry| #[trigger] n(a, b) == m(a, b)) implies #[trigger] sv(n, s) == sv(m, s) by { lemma_sv_ext(n, m, s); }
}

// one entry per key, in order of first occurrence, provided the merger keeps keys
pub open spec fn keeps_keys(m: spec_fn(Entry, Entry) -> Option<Entry>) -> bool {
    forall|a: Entry, b: Entry| uid(a) == uid(b) ==> uid(#[trigger] merged(m, a, b)) == uid(a)
}
pub proof fn lemma_sv_keys(m: spec_fn(Entry, Entry) -> Option<Entry>, s: Seq<Entry>)
    requires keeps_keys(m)
    ensures sv(m, s).len() == sk(s).len(), forall|i: int| 0 <= i < sk(s).len() ==> uid(#[trigger] sv(m, s)[i]) == sk(s)[i],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_sv_keys(m, t);
        lemma_sk(t);
        if sk(t).contains(uid(s.last())) {
            let i = sk(t).index_of(uid(s.last()));
            assert(uid(sv(m, t)[i]) == sk(t)[i]);
            assert(uid(merged(m, sv(m, t)[i], s.last())) == uid(sv(m, t)[i]));
        }
    }
}

// what removing duplicates means: the first entry with a key stays, carrying
// the source locations of every entry with that key, in order
pub open spec fn first_at(s: Seq<Entry>, k: Seq<u8>, i: int) -> bool {
    0 <= i < s.len() && uid(s[i]) == k && forall|j: int| 0 <= j < i ==> uid(#[trigger] s[j]) != k
}
pub open spec fn locs_of(s: Seq<Entry>, k: Seq<u8>) -> Seq<Location>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = locs_of(s.drop_last(), k);
        if uid(s.last()) == k { p.add(s.last().Locations) } else { p }
    }
}
pub open spec fn with_locs(e: Entry, l: Seq<Location>) -> Entry { Entry { Locations: l, ..e } }
pub open spec fn join_locs() -> spec_fn(Entry, Entry) -> Option<Entry> {
    |a: Entry, b: Entry| Some(with_locs(a, a.Locations.add(b.Locations)))
}
pub open spec fn dedup(s: Seq<Entry>) -> Seq<Entry> { sv(join_locs(), s) }
// the i-th resolved entry is entry f of the list, the first one with its key,
// with the collected locations
pub open spec fn stands_for(s: Seq<Entry>, i: int, f: int) -> bool {
    first_at(s, sk(s)[i], f) && dedup(s)[i] == with_locs(s[f], locs_of(s, sk(s)[i]))
}
pub open spec fn has_origin(s: Seq<Entry>, i: int) -> bool { exists|f: int| stands_for(s, i, f) }
pub proof fn lemma_dedup(s: Seq<Entry>)
    ensures
        dedup(s).len() == sk(s).len(),
        forall|i: int| 0 <= i < sk(s).len() ==> uid(#[trigger] dedup(s)[i]) == sk(s)[i],
        forall|i: int| 0 <= i < sk(s).len() ==> (#[trigger] dedup(s)[i]).Locations == locs_of(s, sk(s)[i]),
        forall|i: int| 0 <= i < sk(s).len() ==> #[trigger] has_origin(s, i),
    decreases s.len()
{
    assert(keeps_keys(join_locs())) by {
        assert forall|a: Entry, b: Entry| uid(a) == uid(b) implies uid(#[trigger] merged(join_locs(), a, b)) == uid(a) by {}
    }
    lemma_sv_keys(join_locs(), s);
    lemma_sk(s);
    if s.len() > 0 {
        let t = s.drop_last();
        let e = s.last();
        lemma_dedup(t);
        lemma_sk(t);
        lemma_sv_keys(join_locs(), t);
        let kt = sk(t);
        let ks = sk(s);
        assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] dedup(s)[i]).Locations == locs_of(s, ks[i]) by {
            if kt.contains(uid(e)) {
                let j = kt.index_of(uid(e));
                if i != j { assert(kt[i] != kt[j]); }
                assert(dedup(t)[i].Locations == locs_of(t, kt[i]));
            } else if i < kt.len() {
                assert(dedup(t)[i].Locations == locs_of(t, kt[i]));
            } else {
                lemma_locs_none(t, uid(e));
                assert(locs_of(s, uid(e)) =~= e.Locations);
            }
        }
        assert forall|i: int| 0 <= i < ks.len() implies #[trigger] has_origin(s, i) by {
            if i < kt.len() {
                assert(dedup(t)[i].Locations == locs_of(t, kt[i]));
                assert(has_origin(t, i)); let f = choose|f: int| stands_for(t, i, f);
                assert(s[f] == t[f]);
                assert forall|j: int| 0 <= j < f implies uid(#[trigger] s[j]) != kt[i] by { assert(s[j] == t[j]); }
                assert(first_at(s, kt[i], f));
                assert(dedup(s)[i].Locations == locs_of(s, ks[i]));
                assert(stands_for(s, i, f));
            } else {
                let f = s.len() - 1;
                assert(s[f] == e);
                assert forall|j: int| 0 <= j < f implies uid(#[trigger] s[j]) != uid(e) by {
                    assert(t[j] == s[j]);
                    assert(kt.contains(uid(t[j])));
                }
                assert(first_at(s, ks[i], f));
                assert(dedup(s)[i] == e);
                assert(stands_for(s, i, f));
            }
        }
    }
}
pub proof fn lemma_locs_none(s: Seq<Entry>, k: Seq<u8>)
    requires !sk(s).contains(k)
    ensures locs_of(s, k) == Seq::<Location>::empty()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sk(s);
        assert(sk(s).contains(uid(s[s.len() - 1])));
        let t = s.drop_last();
        if sk(t).contains(k) {
            lemma_sk(t);
            let i = choose|i: int| 0 <= i < t.len() && uid(#[trigger] t[i]) == k;
            assert(s[i] == t[i]);
        }
        lemma_locs_none(t, k);
    }
}
// solving an already solved list changes nothing
pub proof fn lemma_sk_nodup(s: Seq<Entry>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> uid(#[trigger] s[i]) != uid(#[trigger] s[j])
    ensures sk(s).len() == s.len(), forall|m: spec_fn(Entry, Entry) -> Option<Entry>| #[trigger] sv(m, s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies uid(#[trigger] t[i]) != uid(#[trigger] t[j]) by { assert(t[i] == s[i]); assert(t[j] == s[j]); }
        lemma_sk_nodup(t);
        lemma_sk(t);
        if sk(t).contains(uid(s.last())) {
            let i = choose|i: int| 0 <= i < t.len() && uid(#[trigger] t[i]) == uid(s.last());
            assert(s[i] == t[i]);
            assert(uid(s[i]) != uid(s[s.len() - 1]));
        }
        assert forall|m: spec_fn(Entry, Entry) -> Option<Entry>| #[trigger] sv(m, s) == s by {
            assert(sv(m, t) == t);
            assert(t.push(s.last()) =~= s);
        }
    }
}



// --- duplicate reports ---
pub open spec fn all_distinct(s: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> uid(#[trigger] s[i]) != uid(#[trigger] s[j]) }
pub open spec fn first_pos(s: Seq<Entry>, k: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else { let p = first_pos(s.drop_last(), k); if p >= 0 { p } else if uid(s.last()) == k { s.len() - 1 } else { -1 } } }
pub proof fn lemma_first_pos(s: Seq<Entry>, k: Seq<u8>)
    ensures
        first_pos(s, k) < 0 ==> forall|i: int| 0 <= i < s.len() ==> uid(#[trigger] s[i]) != k,
        first_pos(s, k) >= 0 ==> first_at(s, k, first_pos(s, k)),
        (first_pos(s, k) >= 0) == sk(s).contains(k),
    decreases s.len()
{
    lemma_sk(s);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_first_pos(t, k);
        if first_pos(t, k) >= 0 {
            assert(s[first_pos(t, k)] == t[first_pos(t, k)]);
            assert forall|j: int| 0 <= j < first_pos(t, k) implies uid(#[trigger] s[j]) != k by { assert(t[j] == s[j]); }
        } else {
            assert forall|j: int| 0 <= j < t.len() implies uid(#[trigger] s[j]) != k by { assert(t[j] == s[j]); }
            assert(s[s.len() - 1] == s.last());
        }
    }
}
pub open spec fn dup_error(at: int, key: Seq<u8>, first: int) -> GoErr {
    GoErr::InvalidEntryAtIndexError(Box::new(InvalidEntryAtIndexError { Index: at as i64,
        Reason: GoErr::InvalidEntryError(Box::new(InvalidEntryError { ID: key,
            Reason: GoErr::DuplicatedEntryError(Box::new(DuplicatedEntryError { OriginalIndex: first as i64 })) })) }))
}
// one report per entry whose key occurred before, naming the first position
pub open spec fn dup_errors(s: Seq<Entry>) -> Seq<GoErr>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = dup_errors(s.drop_last());
        let f = first_pos(s.drop_last(), uid(s.last()));
        if f >= 0 { p.push(dup_error(s.len() - 1, uid(s.last()), f)) } else { p }
    }
}
pub proof fn lemma_dup_errors(s: Seq<Entry>)
    ensures (dup_errors(s).len() == 0) == all_distinct(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_dup_errors(t);
        lemma_first_pos(t, uid(s.last()));
        let f = first_pos(t, uid(s.last()));
        if f >= 0 {
            assert(uid(s[f]) == uid(s[s.len() - 1])) by { assert(s[f] == t[f]); }
            assert(!all_distinct(s));
        } else {
            if all_distinct(t) {
                assert forall|i: int, j: int| 0 <= i < j < s.len() implies uid(#[trigger] s[i]) != uid(#[trigger] s[j]) by {
                    assert(s[i] == t[i]);
                    if j < t.len() { assert(s[j] == t[j]); }
                }
            }
            if all_distinct(s) {
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies uid(#[trigger] t[i]) != uid(#[trigger] t[j]) by { assert(s[i] == t[i]); assert(s[j] == t[j]); }
            }
        }
    }
}
// the number of reports is the number of surplus entries
pub proof fn lemma_dup_count(s: Seq<Entry>)
    ensures dup_errors(s).len() + sk(s).len() == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dup_count(s.drop_last());
        lemma_first_pos(s.drop_last(), uid(s.last()));
    }
}
// deleting with a predicate keeps exactly the others, in order
pub proof fn lemma_keep<E>(s: Seq<E>, del: spec_fn(E) -> bool)
    ensures
        keep(s, del) == s.filter(|e: E| !del(e)),
        keep(s, del).len() <= s.len(),
        forall|i: int| 0 <= i < keep(s, del).len() ==> !del(#[trigger] keep(s, del)[i]),
        forall|e: E| keep(s, del).contains(e) <==> s.contains(e) && !del(e),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_keep(t, del);
        let k = keep(t, del);
        assert forall|e: E| keep(s, del).contains(e) <==> s.contains(e) && !del(e) by {
            if s.contains(e) && !del(e) {
                let i = s.index_of(e);
                if i < t.len() { assert(t[i] == e); assert(t.contains(e)); assert(k.contains(e)); assert(keep(s, del)[k.index_of(e)] == e); }
                else { assert(keep(s, del).last() == e); assert(keep(s, del)[keep(s, del).len() - 1] == e); }
            }
            if keep(s, del).contains(e) {
                let i = keep(s, del).index_of(e);
                if i < k.len() { assert(k[i] == e); assert(k.contains(e)); assert(t.contains(e)); let j = t.index_of(e); assert(s[j] == e); }
                else { assert(e == s.last()); assert(s[s.len() - 1] == e); }
            }
        }
        assert forall|i: int| 0 <= i < keep(s, del).len() implies !del(#[trigger] keep(s, del)[i]) by {
            if i < k.len() { assert(keep(s, del)[i] == k[i]); }
        }
    }
}

// --- fuzzy flag ---
pub open spec fn fuzzy_flag() -> Seq<u8> { seq![102u8, 117u8, 122u8, 122u8, 121u8] }
pub open spec fn fuzzy(e: Entry) -> bool { e.Flags.contains(fuzzy_flag()) }
pub open spec fn is_header(e: Entry) -> bool { e.ID.len() == 0 && e.Context.len() == 0 }
pub open spec fn is_plural(e: Entry) -> bool { e.Plural.len() > 0 || e.Plurals.len() > 0 }
pub open spec fn as_fuzzy(e: Entry) -> Entry { if fuzzy(e) { e } else { Entry { Flags: e.Flags.push(fuzzy_flag()), ..e } } }
pub proof fn lemma_as_fuzzy(e: Entry)
    ensures fuzzy(as_fuzzy(e)), uid(as_fuzzy(e)) == uid(e)
{ lemma_push_contains(e.Flags, fuzzy_flag()); }
pub broadcast proof fn lemma_is_fuzzy(e: Entry)
    ensures #[trigger] po_Entry_IsFuzzy_s(e) == fuzzy(e)
{
    broadcast use base_facts;
}

pub broadcast group entries_facts { lemma_sv_ext, lemma_is_fuzzy }

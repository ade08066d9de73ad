// include header.rs
// Concatenating catalogues (C09).
pub open spec fn cat_marker(name: Seq<u8>) -> Seq<u8> { (b"#-#-#-#-#  ").add(name).add((b"  #-#-#-#-#")) }

// two texts for one message: the one there is, or both under their files' names
pub open spec fn cat_text(a: Seq<u8>, b: Seq<u8>, fa: Seq<u8>, fb: Seq<u8>) -> Seq<u8> {
    if a == b || b.len() == 0 { a }
    else if a.len() == 0 { b }
    else { cat_marker(fa).push(10u8).add(a).push(10u8).add(cat_marker(fb)).push(10u8).add(b) }
}
pub open spec fn cat_block(a: Seq<Seq<u8>>, f: Seq<u8>) -> Seq<Seq<u8>> { if a.len() == 0 { Seq::empty() } else { (seq![cat_marker(f)]).add(a) } }
pub open spec fn cat_comments(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, fa: Seq<u8>, fb: Seq<u8>) -> Seq<Seq<u8>> {
    if a == b { a } else { cat_block(a, fa).add(cat_block(b, fb)) }
}
pub open spec fn cat_flags(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>>
    decreases n
{ if n <= 0 { a } else { let p = cat_flags(a, b, n - 1); if p.contains(b[n - 1]) { p } else { p.push(b[n - 1]) } } }
pub open spec fn cat_form(a: Seq<PluralEntry>, b: Seq<PluralEntry>, fa: Seq<u8>, fb: Seq<u8>, i: int) -> PluralEntry {
    if i >= b.len() { a[i] } else if i >= a.len() { b[i] } else { PluralEntry { ID: a[i].ID, Str: cat_text(a[i].Str, b[i].Str, fa, fb) } }
}
pub open spec fn cat_forms(a: Seq<PluralEntry>, b: Seq<PluralEntry>, fa: Seq<u8>, fb: Seq<u8>) -> Seq<PluralEntry> {
    Seq::new((if a.len() > b.len() { a.len() } else { b.len() }) as nat, |i: int| cat_form(a, b, fa, fb, i))
}
pub open spec fn cat_plurals(a: Entry, b: Entry, fa: Seq<u8>, fb: Seq<u8>) -> Seq<PluralEntry> {
    if is_plural(a) && is_plural(b) { cat_forms(a.Plurals, b.Plurals, fa, fb) } else { a.Plurals }
}
pub open spec fn cat_translated(e: Entry) -> bool { e.Str.len() > 0 || exists|i: int| 0 <= i < e.Plurals.len() && (#[trigger] e.Plurals[i]).Str.len() > 0 }
pub open spec fn cat_conflict(a: Entry, b: Entry) -> bool {
    (a.Str != b.Str || a.Plurals != b.Plurals) && (is_plural(a) != is_plural(b) || cat_translated(a) && cat_translated(b))
}
pub open spec fn cat_differ(a: Entry, b: Entry) -> bool { full_uid(a) != full_uid(b) || cat_conflict(a, b) }
pub open spec fn cat_both(a: Entry, b: Entry, fa: Seq<u8>, fb: Seq<u8>) -> Entry {
    Entry {
        Flags: cat_flags(a.Flags, b.Flags, b.Flags.len() as int),
        Comments: cat_comments(a.Comments, b.Comments, fa, fb),
        ExtractedComments: cat_comments(a.ExtractedComments, b.ExtractedComments, fa, fb),
        Previous: cat_comments(a.Previous, b.Previous, fa, fb),
        Obsolete: a.Obsolete && b.Obsolete,
        Plurals: cat_plurals(a, b, fa, fb),
        Str: (if is_plural(a) == is_plural(b) { cat_text(a.Str, b.Str, fa, fb) } else { a.Str }),
        Locations: a.Locations.add(b.Locations),
        ..a
    }
}
// two messages with one key
pub open spec fn cat_join(a: Entry, b: Entry, fa: Seq<u8>, fb: Seq<u8>) -> Entry {
    if cat_differ(a, b) { as_fuzzy(cat_both(a, b, fa, fb)) } else { cat_both(a, b, fa, fb) }
}

// what is known of a key: its message, the first file with it, its occurrences
pub struct CatItem { pub e: Entry, pub file: Seq<u8>, pub n: int }
pub open spec fn cat_at(s: Seq<CatItem>, k: Seq<u8>) -> int { first_index(s, |x: CatItem| uid(x.e) == k, 0) }
pub open spec fn cat_step(c: MsgcatMergeConfig, s: Seq<CatItem>, e: Entry, f: Seq<u8>) -> Seq<CatItem> {
    let i = cat_at(s, uid(e));
    if i >= 0 { s.update(i, CatItem { e: (if c.UseFirst { s[i].e } else { cat_join(s[i].e, e, s[i].file, f) }), n: s[i].n + 1, ..s[i] }) }
    else { s.push(CatItem { e: e, file: f, n: 1 }) }
}
pub open spec fn cat_file(c: MsgcatMergeConfig, s: Seq<CatItem>, es: Seq<Entry>, f: Seq<u8>, n: int) -> Seq<CatItem>
    decreases n
{ if n <= 0 { s } else { cat_step(c, cat_file(c, s, es, f, n - 1), es[n - 1], f) } }
pub open spec fn cat_files(c: MsgcatMergeConfig, fs: Seq<Option<File>>, n: int) -> Seq<CatItem>
    decreases n
{ if n <= 0 { Seq::empty() } else { cat_file(c, cat_files(c, fs, n - 1), fs[n - 1]->0.Entries.d, fs[n - 1]->0.Name, fs[n - 1]->0.Entries.d.len() as int) } }
pub open spec fn cat_wanted(c: MsgcatMergeConfig, n: int) -> bool { c.MoreThan < n < c.LessThan }
pub open spec fn cat_select(c: MsgcatMergeConfig, s: Seq<CatItem>) -> Seq<Entry>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = cat_select(c, s.drop_last()); if cat_wanted(c, s.last().n) { p.push(s.last().e) } else { p } } }
pub open spec fn cat_result(c: MsgcatMergeConfig, fs: Seq<Option<File>>) -> Seq<Entry> { cat_select(c, cat_files(c, fs, fs.len() as int)) }
pub open spec fn cat_total(fs: Seq<Option<File>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cat_total(fs, n - 1) + fs[n - 1]->0.Entries.d.len() } }
pub open spec fn cat_opts(c: MsgcatMergeConfig, opts: Seq<spec_fn(MsgcatMergeConfig) -> MsgcatMergeConfig>, n: int) -> MsgcatMergeConfig
    decreases n
{ if n <= 0 { c } else { let o = opts[n - 1]; o(cat_opts(c, opts, n - 1)) } }
pub open spec fn cat_defaults() -> MsgcatMergeConfig { MsgcatMergeConfig { LessThan: u64::MAX, MoreThan: 0, UseFirst: false } }

// the state of the code's loop
pub open spec fn cat_info(m: msgcatMergeProcess, i: int) -> msgcatEntryInfo { m.entriesMap[uid(m.entriesSlice.d[i])] }
pub open spec fn cat_items(m: msgcatMergeProcess) -> Seq<CatItem> {
    Seq::new(m.entriesSlice.d.len(), |i: int| CatItem { e: m.entriesSlice.d[i], file: cat_info(m, i).file, n: cat_info(m, i).timesFound as int })
}
pub open spec fn cat_ok(m: msgcatMergeProcess) -> bool {
    &&& m.entriesSlice.own
    &&& forall|i: int| 0 <= i < m.entriesSlice.d.len() ==> m.entriesMap.dom().contains(uid(#[trigger] m.entriesSlice.d[i])) && cat_info(m, i).index == i
    &&& forall|k: Seq<u8>| #[trigger] m.entriesMap.dom().contains(k) ==> 0 <= m.entriesMap[k].index < m.entriesSlice.d.len() && uid(m.entriesSlice.d[m.entriesMap[k].index as int]) == k
}
pub open spec fn cat_small(s: Seq<CatItem>, n: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> 0 < (#[trigger] s[i]).n <= n }
pub proof fn lemma_cat_at(s: Seq<CatItem>, k: Seq<u8>)
    ensures -1 <= cat_at(s, k) < s.len(), cat_at(s, k) >= 0 ==> uid(s[cat_at(s, k)].e) == k,
        cat_at(s, k) < 0 ==> forall|i: int| 0 <= i < s.len() ==> uid((#[trigger] s[i]).e) != k,
{
    let p = |x: CatItem| uid(x.e) == k;
    lemma_first_index(s, p, 0);
    if first_index(s, p, 0) < 0 { assert forall|i: int| 0 <= i < s.len() implies uid((#[trigger] s[i]).e) != k by { assert(!p(s[i])); } }
}
// the code's table finds what a search finds
pub proof fn lemma_cat_found(m: msgcatMergeProcess, k: Seq<u8>)
    requires cat_ok(m)
    ensures m.entriesMap.dom().contains(k) == (cat_at(cat_items(m), k) >= 0), m.entriesMap.dom().contains(k) ==> m.entriesMap[k].index == cat_at(cat_items(m), k)
{
    let s = cat_items(m);
    lemma_cat_at(s, k);
    let i = cat_at(s, k);
    if i >= 0 { assert(s[i].e == m.entriesSlice.d[i]); assert(cat_info(m, i).index == i); }
    if m.entriesMap.dom().contains(k) { let j = m.entriesMap[k].index as int; assert(s[j].e == m.entriesSlice.d[j]); }
}
pub proof fn lemma_msgcat_step(c: MsgcatMergeConfig, s: Seq<CatItem>, e: Entry, f: Seq<u8>, n: int)
    requires cat_small(s, n)
    ensures cat_small(cat_step(c, s, e, f), n + 1)
{ lemma_cat_at(s, uid(e)); }
pub proof fn lemma_cat_drop(c: MsgcatMergeConfig, s: Seq<CatItem>, es: Seq<Entry>, del: spec_fn(Entry) -> bool)
    requires s.len() == es.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).e == es[i] && del(es[i]) == !cat_wanted(c, s[i].n)
    ensures keep(es, del) == cat_select(c, s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let u = es.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).e == u[i] && del(u[i]) == !cat_wanted(c, t[i].n) by { assert(t[i] == s[i]); assert(u[i] == es[i]); }
        lemma_cat_drop(c, t, u, del);
        assert(s.last() == s[s.len() - 1]);
        assert(es.last() == es[es.len() - 1]);
    }
}
pub proof fn lemma_cat_total(fs: Seq<Option<File>>, n: int)
    requires 0 <= n
    ensures 0 <= cat_total(fs, n), forall|i: int| 0 <= i <= n ==> 0 <= #[trigger] cat_total(fs, i) <= cat_total(fs, n)
    decreases n
{ if n > 0 { lemma_cat_total(fs, n - 1); assert(cat_total(fs, n) == cat_total(fs, n - 1) + fs[n - 1]->0.Entries.d.len()); } }
pub proof fn lemma_cat_drops(c: MsgcatMergeConfig, s: Seq<CatItem>, es: Seq<Entry>)
    requires s.len() == es.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).e == es[i]
    ensures forall|del: spec_fn(Entry) -> bool| (forall|i: int| 0 <= i < es.len() ==> #[trigger] del(es[i]) == !cat_wanted(c, s[i].n)) ==> #[trigger] keep(es, del) == cat_select(c, s)
{
    assert forall|del: spec_fn(Entry) -> bool| (forall|i: int| 0 <= i < es.len() ==> #[trigger] del(es[i]) == !cat_wanted(c, s[i].n)) implies #[trigger] keep(es, del) == cat_select(c, s) by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).e == es[i] && del(es[i]) == !cat_wanted(c, s[i].n) by {}
        lemma_cat_drop(c, s, es, del);
    }
}

// --- what that means ---
// the messages of all files, one after the other, with their files' names
pub open spec fn cat_tag(es: Seq<Entry>, f: Seq<u8>, n: int) -> Seq<(Entry, Seq<u8>)> { Seq::new(n as nat, |i: int| (es[i], f)) }
pub open spec fn cat_occ(fs: Seq<Option<File>>, n: int) -> Seq<(Entry, Seq<u8>)>
    decreases n
{ if n <= 0 { Seq::empty() } else { cat_occ(fs, n - 1).add(cat_tag(fs[n - 1]->0.Entries.d, fs[n - 1]->0.Name, fs[n - 1]->0.Entries.d.len() as int)) } }
pub open spec fn cat_fold(c: MsgcatMergeConfig, o: Seq<(Entry, Seq<u8>)>) -> Seq<CatItem>
    decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { cat_step(c, cat_fold(c, o.drop_last()), o.last().0, o.last().1) } }
pub proof fn lemma_cat_fold_file(c: MsgcatMergeConfig, o: Seq<(Entry, Seq<u8>)>, es: Seq<Entry>, f: Seq<u8>, n: int)
    requires 0 <= n <= es.len()
    ensures cat_file(c, cat_fold(c, o), es, f, n) == cat_fold(c, o.add(cat_tag(es, f, n)))
    decreases n
{
    if n <= 0 { assert(o.add(cat_tag(es, f, n)) =~= o); }
    else {
        lemma_cat_fold_file(c, o, es, f, n - 1);
        let q = o.add(cat_tag(es, f, n));
        assert(q.drop_last() =~= o.add(cat_tag(es, f, n - 1)));
        assert(q.last() == (es[n - 1], f));
    }
}
pub proof fn lemma_cat_fold(c: MsgcatMergeConfig, fs: Seq<Option<File>>, n: int)
    ensures cat_files(c, fs, n) == cat_fold(c, cat_occ(fs, n))
    decreases n
{ if n > 0 { lemma_cat_fold(c, fs, n - 1); let l = fs[n - 1]->0; lemma_cat_fold_file(c, cat_occ(fs, n - 1), l.Entries.d, l.Name, l.Entries.d.len() as int); } }

pub open spec fn cat_count(o: Seq<(Entry, Seq<u8>)>, k: Seq<u8>) -> int
    decreases o.len()
{ if o.len() == 0 { 0 } else { cat_count(o.drop_last(), k) + if uid(o.last().0) == k { 1int } else { 0int } } }
// the first occurrence of a key
pub open spec fn cat_first(o: Seq<(Entry, Seq<u8>)>, k: Seq<u8>, i: int) -> bool {
    0 <= i < o.len() && uid(o[i].0) == k && forall|j: int| 0 <= j < i ==> uid((#[trigger] o[j]).0) != k
}
pub open spec fn part_of<E>(a: Seq<E>, b: Seq<E>) -> bool { exists|p: int| 0 <= p && p + a.len() <= b.len() && #[trigger] b.subrange(p, p + a.len()) == a }
// e's comments, locations, flags and texts are in r
pub open spec fn cat_has(r: Entry, e: Entry) -> bool {
    &&& part_of(e.Comments, r.Comments) && part_of(e.ExtractedComments, r.ExtractedComments) && part_of(e.Previous, r.Previous) && part_of(e.Locations, r.Locations)
    &&& forall|f: Seq<u8>| #[trigger] e.Flags.contains(f) ==> r.Flags.contains(f)
    &&& is_plural(e) == is_plural(r) ==> part_of(e.Str, r.Str)
    &&& is_plural(e) && is_plural(r) ==> e.Plurals.len() <= r.Plurals.len() && forall|i: int| 0 <= i < e.Plurals.len() ==> part_of((#[trigger] e.Plurals[i]).Str, r.Plurals[i].Str)
    &&& r.Obsolete ==> e.Obsolete
}
pub proof fn lemma_part_at<E>(a: Seq<E>, b: Seq<E>, p: int)
    requires 0 <= p, p + a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[p + i]
    ensures part_of(a, b)
{
    let s = b.subrange(p, p + a.len());
    assert forall|i: int| 0 <= i < a.len() implies s[i] == a[i] by { assert(s[i] == b[p + i]); }
    assert(s =~= a);
}
pub proof fn lemma_part_refl<E>(a: Seq<E>)
    ensures part_of(a, a)
{ lemma_part_at(a, a, 0); }
pub proof fn lemma_part_trans<E>(a: Seq<E>, b: Seq<E>, c: Seq<E>)
    requires part_of(a, b), part_of(b, c)
    ensures part_of(a, c)
{
    let p = choose|p: int| 0 <= p && p + a.len() <= b.len() && #[trigger] b.subrange(p, p + a.len()) == a;
    let q = choose|q: int| 0 <= q && q + b.len() <= c.len() && #[trigger] c.subrange(q, q + b.len()) == b;
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] c[(q + p) + i] by {
        assert(a[i] == b.subrange(p, p + a.len())[i]);
        assert(b[p + i] == c.subrange(q, q + b.len())[p + i]);
    }
    lemma_part_at(a, c, q + p);
}
pub proof fn lemma_part_add<E>(x: Seq<E>, a: Seq<E>, y: Seq<E>)
    ensures part_of(a, x.add(a).add(y))
{ lemma_part_at(a, x.add(a).add(y), x.len() as int); }
pub proof fn lemma_cat_comments(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, fa: Seq<u8>, fb: Seq<u8>)
    ensures part_of(a, cat_comments(a, b, fa, fb)), part_of(b, cat_comments(a, b, fa, fb))
{
    let r = cat_comments(a, b, fa, fb);
    if a == b { lemma_part_refl(a); }
    else {
        if a.len() == 0 { lemma_part_at(a, r, 0); } else { lemma_part_at(a, r, 1); }
        if b.len() == 0 { lemma_part_at(b, r, 0); } else { lemma_part_at(b, r, cat_block(a, fa).len() as int + 1); }
    }
}
pub proof fn lemma_cat_text(a: Seq<u8>, b: Seq<u8>, fa: Seq<u8>, fb: Seq<u8>)
    ensures part_of(a, cat_text(a, b, fa, fb)), part_of(b, cat_text(a, b, fa, fb))
{
    let r = cat_text(a, b, fa, fb);
    if a == b { lemma_part_refl(a); }
    else if b.len() == 0 { lemma_part_refl(a); lemma_part_at(b, r, 0); }
    else if a.len() == 0 { lemma_part_refl(b); lemma_part_at(a, r, 0); }
    else {
        let m = cat_marker(fa).push(10u8); let n = cat_marker(fb);
        assert(r =~= m.add(a).add(seq![10u8].add(n).push(10u8).add(b)));
        lemma_part_add(m, a, seq![10u8].add(n).push(10u8).add(b));
        assert(r =~= m.add(a).push(10u8).add(n).push(10u8).add(b).add(Seq::empty()));
        lemma_part_add(m.add(a).push(10u8).add(n).push(10u8), b, Seq::empty());
    }
}
pub proof fn lemma_cat_flags(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= b.len()
    ensures forall|f: Seq<u8>| a.contains(f) ==> #[trigger] cat_flags(a, b, n).contains(f), forall|i: int| 0 <= i < n ==> cat_flags(a, b, n).contains(#[trigger] b[i])
    decreases n
{
    if n > 0 {
        lemma_cat_flags(a, b, n - 1);
        let p = cat_flags(a, b, n - 1);
        lemma_push_contains(p, b[n - 1]);
    }
}
pub proof fn lemma_cat_join(a: Entry, b: Entry, fa: Seq<u8>, fb: Seq<u8>)
    ensures
        uid(cat_join(a, b, fa, fb)) == uid(a), is_plural(cat_join(a, b, fa, fb)) == is_plural(a),
        cat_has(cat_join(a, b, fa, fb), a), cat_has(cat_join(a, b, fa, fb), b),
        cat_differ(a, b) ==> fuzzy(cat_join(a, b, fa, fb)),
{
    let x = cat_both(a, b, fa, fb);
    let r = cat_join(a, b, fa, fb);
    lemma_as_fuzzy(x);
    lemma_cat_comments(a.Comments, b.Comments, fa, fb);
    lemma_cat_comments(a.ExtractedComments, b.ExtractedComments, fa, fb);
    lemma_cat_comments(a.Previous, b.Previous, fa, fb);
    lemma_part_add(Seq::empty(), a.Locations, b.Locations);
    assert(Seq::empty().add(a.Locations).add(b.Locations) =~= x.Locations);
    lemma_part_add(a.Locations, b.Locations, Seq::empty());
    assert(a.Locations.add(b.Locations).add(Seq::empty()) =~= x.Locations);
    lemma_cat_flags(a.Flags, b.Flags, b.Flags.len() as int);
    lemma_push_contains(x.Flags, fuzzy_flag());
    assert forall|f: Seq<u8>| #[trigger] b.Flags.contains(f) implies r.Flags.contains(f) by { let i = b.Flags.index_of(f); assert(b.Flags[i] == f); assert(x.Flags.contains(f)); }
    assert forall|f: Seq<u8>| #[trigger] a.Flags.contains(f) implies r.Flags.contains(f) by { assert(x.Flags.contains(f)); }
    lemma_cat_text(a.Str, b.Str, fa, fb);
    lemma_part_refl(a.Str);
    assert(is_plural(r) == is_plural(a));
    assert forall|i: int| 0 <= i < a.Plurals.len() implies part_of((#[trigger] a.Plurals[i]).Str, r.Plurals[i].Str) by {
        if is_plural(a) && is_plural(b) && i < b.Plurals.len() { lemma_cat_text(a.Plurals[i].Str, b.Plurals[i].Str, fa, fb); } else { lemma_part_refl(a.Plurals[i].Str); }
    }
    if is_plural(a) && is_plural(b) {
        assert forall|i: int| 0 <= i < b.Plurals.len() implies part_of((#[trigger] b.Plurals[i]).Str, r.Plurals[i].Str) by {
            if i < a.Plurals.len() { lemma_cat_text(a.Plurals[i].Str, b.Plurals[i].Str, fa, fb); } else { lemma_part_refl(b.Plurals[i].Str); }
        }
    }
}
pub proof fn lemma_cat_has(a: Entry, b: Entry, e: Entry)
    requires cat_has(a, b), cat_has(b, e), is_plural(a) == is_plural(b)
    ensures cat_has(a, e)
{
    lemma_part_trans(e.Comments, b.Comments, a.Comments);
    lemma_part_trans(e.ExtractedComments, b.ExtractedComments, a.ExtractedComments);
    lemma_part_trans(e.Previous, b.Previous, a.Previous);
    lemma_part_trans(e.Locations, b.Locations, a.Locations);
    if is_plural(e) == is_plural(b) {
        lemma_part_trans(e.Str, b.Str, a.Str);
        if is_plural(e) {
            assert forall|i: int| 0 <= i < e.Plurals.len() implies part_of((#[trigger] e.Plurals[i]).Str, a.Plurals[i].Str) by {
                let y = b.Plurals[i];
                lemma_part_trans(e.Plurals[i].Str, y.Str, a.Plurals[i].Str);
            }
        }
    }
}
pub open spec fn cat_origin(c: MsgcatMergeConfig, o: Seq<(Entry, Seq<u8>)>, x: CatItem, f: int) -> bool {
    cat_first(o, uid(x.e), f) && x.file == o[f].1 && (c.UseFirst ==> x.e == o[f].0) && is_plural(x.e) == is_plural(o[f].0)
}
pub open spec fn cat_from(c: MsgcatMergeConfig, o: Seq<(Entry, Seq<u8>)>, x: CatItem) -> bool { exists|f: int| cat_origin(c, o, x, f) }
// One message per key, each with the number of its occurrences and the place
// of the first one; with first-wins that one's text, otherwise what every
// occurrence says.
#[verifier::rlimit(120)]
#[verifier::spinoff_prover]
pub proof fn lemma_cat(c: MsgcatMergeConfig, o: Seq<(Entry, Seq<u8>)>)
    ensures
        cat_fold(c, o).len() <= o.len(),
        forall|i: int, j: int| 0 <= i < j < cat_fold(c, o).len() ==> uid((#[trigger] cat_fold(c, o)[i]).e) != uid((#[trigger] cat_fold(c, o)[j]).e),
        forall|i: int| 0 <= i < cat_fold(c, o).len() ==> (#[trigger] cat_fold(c, o)[i]).n == cat_count(o, uid(cat_fold(c, o)[i].e)),
        forall|i: int| 0 <= i < cat_fold(c, o).len() ==> cat_from(c, o, #[trigger] cat_fold(c, o)[i]),
        forall|j: int| 0 <= j < o.len() ==> cat_at(cat_fold(c, o), uid((#[trigger] o[j]).0)) >= 0,
        !c.UseFirst ==> forall|j: int| 0 <= j < o.len() ==> cat_has(cat_fold(c, o)[cat_at(cat_fold(c, o), uid((#[trigger] o[j]).0))].e, o[j].0),
    decreases o.len()
{
    if o.len() > 0 {
        let t = o.drop_last();
        lemma_cat(c, t);
        let p = cat_fold(c, t);
        let q = cat_fold(c, o);
        let e = o.last().0;
        let f = o.last().1;
        let k = cat_at(p, uid(e));
        lemma_cat_at(p, uid(e));
        if k >= 0 { lemma_cat_join(p[k].e, e, p[k].file, f); assert(uid(q[k].e) == uid(p[k].e)); assert(is_plural(q[k].e) == is_plural(p[k].e)); }
        assert forall|i: int| 0 <= i < p.len() implies uid((#[trigger] q[i]).e) == uid(p[i].e) && is_plural(q[i].e) == is_plural(p[i].e) && q[i].file == p[i].file && (c.UseFirst ==> q[i].e == p[i].e) by {}
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies uid((#[trigger] q[i]).e) != uid((#[trigger] q[j]).e) by {
            assert(uid(q[i].e) == uid(p[i].e));
            if j < p.len() { assert(uid(p[i].e) != uid(p[j].e)); assert(uid(q[j].e) == uid(p[j].e)); }
        }
        lemma_cat_none(t, uid(e));
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).n == cat_count(o, uid(q[i].e)) by {
            if i < p.len() { assert(p[i].n == cat_count(t, uid(p[i].e))); if i != k { if k >= 0 { assert(uid(p[i].e) != uid(p[k].e)); } } }
            else { if cat_count(t, uid(e)) > 0 { let j = choose|j: int| 0 <= j < t.len() && uid((#[trigger] t[j]).0) == uid(e); assert(cat_at(p, uid(t[j].0)) >= 0); } }
        }
        assert forall|i: int| 0 <= i < q.len() implies cat_from(c, o, #[trigger] q[i]) by {
            if i < p.len() {
                assert(cat_from(c, t, p[i]));
                let z = choose|z: int| cat_origin(c, t, p[i], z);
                assert(o[z] == t[z]);
                assert(uid(q[i].e) == uid(p[i].e));
                assert forall|j: int| 0 <= j < z implies uid((#[trigger] o[j]).0) != uid(q[i].e) by { assert(o[j] == t[j]); }
                assert(cat_origin(c, o, q[i], z));
            } else {
                let z = o.len() - 1;
                assert(o[z] == o.last());
                assert forall|j: int| 0 <= j < z implies uid((#[trigger] o[j]).0) != uid(e) by { assert(o[j] == t[j]); assert(cat_at(p, uid(t[j].0)) >= 0); }
                assert(cat_origin(c, o, q[i], z));
            }
        }
        assert forall|j: int| 0 <= j < o.len() implies cat_at(q, uid((#[trigger] o[j]).0)) >= 0 && (!c.UseFirst ==> cat_has(q[cat_at(q, uid(o[j].0))].e, o[j].0)) by {
            let u = uid(o[j].0);
            lemma_cat_at(q, u);
            lemma_cat_at(p, u);
            let at = cat_at(p, u);
            if j < t.len() {
                assert(t[j] == o[j]);
                assert(at >= 0);
                assert(uid(q[at].e) == uid(p[at].e));
                lemma_cat_unique(q, u, at);
                if !c.UseFirst && at == k { lemma_cat_has(q[at].e, p[at].e, o[j].0); }
            } else {
                assert(o[j] == o.last());
                if k >= 0 { lemma_cat_unique(q, u, k); } else { assert(q[p.len() as int].e == e); lemma_cat_unique(q, u, p.len() as int); lemma_cat_self(e); }
            }
        }
    }
}
pub proof fn lemma_cat_unique(s: Seq<CatItem>, k: Seq<u8>, i: int)
    requires 0 <= i < s.len(), uid(s[i].e) == k, forall|i: int, j: int| 0 <= i < j < s.len() ==> uid((#[trigger] s[i]).e) != uid((#[trigger] s[j]).e)
    ensures cat_at(s, k) == i
{
    lemma_cat_at(s, k);
    let j = cat_at(s, k);
    assert(j >= 0);
    assert(uid(s[j].e) == k);
    if i < j { assert(uid(s[i].e) != uid(s[j].e)); }
    if j < i { assert(uid(s[j].e) != uid(s[i].e)); }
}
pub proof fn lemma_cat_self(e: Entry)
    ensures cat_has(e, e)
{
    lemma_part_refl(e.Comments); lemma_part_refl(e.ExtractedComments); lemma_part_refl(e.Previous); lemma_part_refl(e.Locations); lemma_part_refl(e.Str);
    assert forall|i: int| 0 <= i < e.Plurals.len() implies part_of((#[trigger] e.Plurals[i]).Str, e.Plurals[i].Str) by { lemma_part_refl(e.Plurals[i].Str); }
}
pub proof fn lemma_cat_none(o: Seq<(Entry, Seq<u8>)>, k: Seq<u8>)
    ensures cat_count(o, k) >= 0, cat_count(o, k) > 0 ==> exists|j: int| 0 <= j < o.len() && uid((#[trigger] o[j]).0) == k
    decreases o.len()
{
    if o.len() > 0 {
        let t = o.drop_last();
        lemma_cat_none(t, k);
        assert(o[o.len() - 1] == o.last());
        if cat_count(t, k) > 0 { let j = choose|j: int| 0 <= j < t.len() && uid((#[trigger] t[j]).0) == k; assert(o[j] == t[j]); }
    }
}
// The result: exactly the messages that occur as often as asked for, in order.
pub proof fn lemma_cat_select(c: MsgcatMergeConfig, s: Seq<CatItem>)
    ensures
        cat_select(c, s).len() <= s.len(),
        forall|i: int| 0 <= i < s.len() && cat_wanted(c, s[i].n) ==> cat_select(c, s).contains((#[trigger] s[i]).e),
        forall|e: Entry| #[trigger] cat_select(c, s).contains(e) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).e == e && cat_wanted(c, s[i].n),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_cat_select(c, t);
        let p = cat_select(c, t);
        lemma_push_contains(p, s.last().e);
        assert(s[s.len() - 1] == s.last());
        assert forall|i: int| 0 <= i < s.len() && cat_wanted(c, s[i].n) implies cat_select(c, s).contains((#[trigger] s[i]).e) by { if i < t.len() { assert(t[i] == s[i]); } }
        assert forall|e: Entry| #[trigger] cat_select(c, s).contains(e) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).e == e && cat_wanted(c, s[i].n) by {
            if p.contains(e) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).e == e && cat_wanted(c, t[i].n); assert(s[i] == t[i]); }
        }
    }
}

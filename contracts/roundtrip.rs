// include moread.rs
// What is read back from what the compiler wrote.
pub open spec fn no_byte(s: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub open spec fn strip(e: Entry) -> Entry { Entry { Context: e.Context, ID: e.ID, Plural: e.Plural, Str: e.Str, Plurals: e.Plurals, ..zero_Entry() } }
pub open spec fn wf_msg(e: Entry) -> bool {
    &&& no_byte(e.Context, 0) && no_byte(e.ID, 0) && no_byte(e.Plural, 0) && no_byte(e.Str, 0)
    &&& no_byte(e.Context, 4) && (e.Context.len() == 0 ==> no_byte(e.ID, 4) && no_byte(e.Plural, 4))
    &&& (e.Plural.len() > 0) == (e.Plurals.len() > 0)
    &&& e.Plurals.len() > 0 ==> e.Str.len() == 0
    &&& e.Plurals.len() == 1 ==> e.Plurals[0].Str.len() > 0
    &&& forall|i: int| 0 <= i < e.Plurals.len() ==> #[trigger] e.Plurals[i].ID == i && no_byte(e.Plurals[i].Str, 0)
}
pub proof fn lemma_split_none(s: Seq<u8>, c: u8)
    requires no_byte(s, c)
    ensures split_byte(s, c) == seq![s]
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != c by { assert(s[i] != c); }
        lemma_split_none(t, c);
        assert(s.last() != c);
        assert(t.push(s.last()) =~= s);
        assert(split_byte(s, c) =~= seq![s]);
    } else { assert(s =~= Seq::empty()); assert(split_byte(s, c) =~= seq![s]); }
}
pub proof fn lemma_split_cat(a: Seq<u8>, c: u8, b: Seq<u8>)
    requires no_byte(b, c)
    ensures split_byte(a.push(c).add(b), c) == split_byte(a, c).push(b)
    decreases b.len()
{
    let s = a.push(c).add(b);
    lemma_split_len(a, c);
    if b.len() == 0 {
        assert(s.drop_last() =~= a);
        assert(b =~= Seq::empty());
        assert(s.last() == c);
    } else {
        let t = b.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != c by { assert(b[i] != c); }
        lemma_split_cat(a, c, t);
        assert(s.drop_last() =~= a.push(c).add(t));
        assert(s.last() == b.last() && b.last() != c);
        let p = split_byte(a, c).push(t);
        assert(p.update(p.len() - 1, p.last().push(s.last())) =~= split_byte(a, c).push(b)) by { assert(t.push(b.last()) =~= b); }
    }
}
pub open spec fn strs_of(p: Seq<PluralEntry>, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |i: int| p[i].Str) }
pub proof fn lemma_split_join(p: Seq<PluralEntry>, n: int)
    requires 1 <= n <= p.len(), forall|i: int| 0 <= i < p.len() ==> no_byte(#[trigger] p[i].Str, 0)
    ensures split_byte(join_nul(p, n - 1).add(p[n - 1].Str), 0) == strs_of(p, n)
    decreases n
{
    let s = p[n - 1].Str;
    if n == 1 {
        assert(join_nul(p, 0).add(s) =~= s);
        lemma_split_none(s, 0);
        assert(seq![s] =~= strs_of(p, 1));
    } else {
        let y = join_nul(p, n - 2).add(p[n - 2].Str);
        lemma_split_join(p, n - 1);
        assert(join_nul(p, n - 1) == y.push(0u8));
        lemma_split_cat(y, 0, s);
        assert(strs_of(p, n - 1).push(s) =~= strs_of(p, n));
    }
}
pub proof fn lemma_first_at(s: Seq<u8>, c: u8, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|j: int| 0 <= j < k ==> s[j] != c
    ensures first_byte(s, c, 0) == k
{ lemma_first_byte(s, c, 0); }
pub proof fn lemma_mo_key(e: Entry)
    requires wf_msg(e)
    ensures mo_ctx(full_uid(e)) == e.Context, mo_rest(full_uid(e)) == (if e.Plural.len() > 0 { e.ID.push(0u8).add(e.Plural) } else { e.ID })
{
    let rest = if e.Plural.len() > 0 { e.ID.push(0u8).add(e.Plural) } else { e.ID };
    let f = full_uid(e);
    if e.Context.len() > 0 {
        assert(f =~= e.Context.push(4u8).add(rest));
        assert forall|j: int| 0 <= j < e.Context.len() implies f[j] != 4 by { assert(f[j] == e.Context[j]); }
        lemma_first_at(f, 4, e.Context.len() as int);
        assert(f.subrange(0, e.Context.len() as int) =~= e.Context);
        assert(f.subrange((e.Context.len() + 1) as int, f.len() as int) =~= rest);
    } else {
        assert(f =~= rest);
        lemma_first_byte(f, 4, 0);
        assert forall|j: int| 0 <= j < f.len() implies f[j] != 4 by {
            if j < e.ID.len() { assert(f[j] == e.ID[j]); } else if j > e.ID.len() { assert(f[j] == e.Plural[j - e.ID.len() - 1]); }
        }
        assert(e.Context =~= Seq::empty());
    }
}
// a well formed message is read back as it was
pub proof fn lemma_entry_back(e: Entry)
    requires wf_msg(e)
    ensures mo_entry(full_uid(e), unified_str(e)) == strip(e)
{
    lemma_mo_key(e);
    lemma_split_none(e.ID, 0);
    if e.Plural.len() > 0 { lemma_split_cat(e.ID, 0, e.Plural); }
    let parts = split_byte(mo_rest(full_uid(e)), 0);
    assert(parts[0] == e.ID);
    let plural = if parts.len() > 1 { parts[1] } else { Seq::empty() };
    assert(plural =~= e.Plural);
    let p = e.Plurals;
    let n = p.len() as int;
    let x = mo_entry(full_uid(e), unified_str(e));
    assert(sorted_adj(fv_po_ComparePluralEntry_s(), p));
    assert(plurals_in_order(e) == p);
    if n > 0 {
        assert(e.Str =~= Seq::empty());
        assert(join_nul(p, n) == join_nul(p, n - 1).add(p[n - 1].Str));
        assert(unified_str(e) =~= join_nul(p, n - 1).add(p[n - 1].Str));
        assert forall|i: int| 0 <= i < p.len() implies no_byte(#[trigger] p[i].Str, 0) by { assert(p[i].ID == i); }
        lemma_split_join(p, n);
        if n == 1 { assert(join_nul(p, 0).add(p[0].Str) =~= p[0].Str); }
        assert(x.Plurals =~= numbered(strs_of(p, n)));
        assert(numbered(strs_of(p, n)) =~= p) by { assert forall|i: int| 0 <= i < n implies numbered(strs_of(p, n))[i] == p[i] by { assert(p[i].ID == i); } }
    } else {
        assert(unified_str(e) =~= e.Str);
        lemma_split_none(e.Str, 0);
        assert(x.Plurals =~= p);
    }
}
// the reader finds the strings of a well formed file
pub open spec fn read_all(origs: Seq<Seq<u8>>, trans: Seq<Seq<u8>>, n: int) -> Seq<Entry> { Seq::new(n as nat, |i: int| mo_entry(origs[i], trans[i])) }
pub proof fn lemma_read_back(img: Seq<u8>, o: ByteOrd, origs: Seq<Seq<u8>>, trans: Seq<Seq<u8>>, tab: Seq<u32>, n: int)
    requires mo_valid(img, o, origs, trans, tab), origs.len() == trans.len(), 0 <= n <= origs.len()
    ensures mo_read(img, o, n) == read_all(origs, trans, n), forall|i: int| 0 <= i < n ==> #[trigger] mo_in(img, o, i) && !mo_at_end(img, o, i)
    decreases n
{
    hide(word); hide(mo_entry);
    if n > 0 {
        lemma_read_back(img, o, origs, trans, tab, n - 1);
        let i = n - 1;
        assert(str_at(img, o, 28 + 8 * i, origs[i]));
        assert(str_at(img, o, 28 + 8 * origs.len() + 8 * i, trans[i]));
        assert(tab_ok(img, o, 28 + 8 * i) && tab_str(img, o, 28 + 8 * i) == origs[i]);
        assert(word(img, o, 16) + 8 * i == 28 + 8 * origs.len() + 8 * i);
        assert(mo_in(img, o, i) && !mo_at_end(img, o, i));
        assert(mo_read(img, o, n) =~= read_all(origs, trans, n));
    } else { assert(mo_read(img, o, n) =~= read_all(origs, trans, n)); }
}
pub proof fn lemma_magic_order(img: Seq<u8>, o: ByteOrd)
    requires img.len() >= 28, !(o is Nil), word(img, o, 0) == 0x950412de, word(img, o, 4) == 0
    ensures mo_order(0, img) == o, mo_version_ok(img, o)
{
    let (a, b, c, d) = (img[0] as int, img[1] as int, img[2] as int, img[3] as int);
    let (p, q, r, s) = (img[4] as int, img[5] as int, img[6] as int, img[7] as int);
    if o is Big {
        assert(d == 0xde && c == 0x12 && b == 0x04 && a == 0x95);
        assert(p == 0 && q == 0 && r == 0 && s == 0);
    } else {
        assert(a == 0xde && b == 0x12 && c == 0x04 && d == 0x95);
        assert(p == 0 && q == 0 && r == 0 && s == 0);
    }
}
pub open spec fn reads_message(d: Seq<Entry>, x: Entry, k: int) -> bool { first_active(d, k) && x == strip(d[k]) }
pub open spec fn reads_some(d: Seq<Entry>, x: Entry) -> bool { exists|k: int| reads_message(d, x, k) }
// C03: the file compiled with the default choices, read without naming its byte order
pub proof fn lemma_round_trip(c: Compile_MoConfig, d: Seq<Entry>)
    requires c.DepureEntries, c.SortEntries, mo_file(c, d).len() <= 0xffff_ffff, d.len() < 0xfff_fff0,
        forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) ==> wf_msg(d[k])
    ensures ({
        let img = mo_file(c, d);
        let o = mo_order(0, img);
        let n = word(img, o, 8);
        let xs = mo_read(img, o, n);
        &&& !(o is Nil) && mo_tables_in(img, o) && mo_version_ok(img, o) && mo_all_in(img, o, n)
        &&& forall|i: int, j: int| 0 <= i < j < xs.len() ==> str_cmp(uid(#[trigger] xs[i]), uid(#[trigger] xs[j])) < 0
        &&& forall|i: int| 0 <= i < xs.len() ==> reads_some(d, #[trigger] xs[i])
        &&& forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) ==> has_key(xs, uid(d[k]))
    })
{
    hide(mo_file); hide(mo_entries); hide(word); hide(mo_valid); hide(mo_tab); hide(mo_entry); hide(full_uid); hide(unified_str); hide(uid); hide(mo_read); hide(mo_order);
    let img = mo_file(c, d);
    let es = mo_entries(true, true, d);
    let o = util_Endianness_Order_s(c.Endianness);
    lemma_mo_file(c, d);
    lemma_mo_messages(d);
    let (origs, trans, tab) = (origs_of(es), trans_of(es), mo_tab(c, es));
    let n = es.len() as int;
    assert(mo_valid(img, o, origs, trans, tab));
    lemma_valid_head(img, o, origs, trans, tab);
    lemma_magic_order(img, o);
    lemma_read_back(img, o, origs, trans, tab, n);
    let xs = read_all(origs, trans, n);
    assert forall|i: int| 0 <= i < n implies reads_some(d, #[trigger] xs[i]) by {
        assert(has_message(d, es[i]));
        let k = choose|k: int| is_message(d, es[i], k);
        lemma_entry_back(d[k]);
        assert(xs[i] == mo_entry(full_uid(es[i]), unified_str(es[i])));
        assert(reads_message(d, xs[i], k));
    }
    assert forall|i: int| 0 <= i < n implies uid(#[trigger] xs[i]) == uid(es[i]) by {
        assert(has_message(d, es[i]));
        let k = choose|k: int| is_message(d, es[i], k);
        lemma_entry_back(d[k]);
        assert(xs[i] == mo_entry(full_uid(es[i]), unified_str(es[i])));
        lemma_strip_uid(d[k]);
    }
    assert forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) implies has_key(xs, uid(d[k])) by {
        assert(has_key(es, uid(d[k])));
        let i = choose|i: int| 0 <= i < es.len() && uid(#[trigger] es[i]) == uid(d[k]);
        assert(uid(xs[i]) == uid(d[k]));
    }
    assert forall|i: int, j: int| 0 <= i < j < xs.len() implies str_cmp(uid(#[trigger] xs[i]), uid(#[trigger] xs[j])) < 0 by { assert(uid(xs[i]) == uid(es[i]) && uid(xs[j]) == uid(es[j])); }
    assert(mo_order(0, img) == o);
    assert(word(img, o, 8) == n);
    assert(mo_read(img, o, n) == xs);
    assert(mo_all_in(img, o, n));
    assert(mo_tables_in(img, o) && mo_version_ok(img, o));
}
pub proof fn lemma_strip_uid(e: Entry)
    ensures uid(strip(e)) == uid(e)
{}
pub proof fn lemma_valid_head(img: Seq<u8>, o: ByteOrd, origs: Seq<Seq<u8>>, trans: Seq<Seq<u8>>, tab: Seq<u32>)
    requires mo_valid(img, o, origs, trans, tab)
    ensures img.len() >= 28, word(img, o, 0) == 0x950412de, word(img, o, 4) == 0, word(img, o, 8) == origs.len(), mo_tables_in(img, o)
{ hide(word); }

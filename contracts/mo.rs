// include order.rs
// include num.rs
// Binary catalogues.
pub open spec fn keys_of(s: Seq<Entry>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| uid(s[i])) }
pub open spec fn origs_of(s: Seq<Entry>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| full_uid(s[i])) }
pub open spec fn trans_of(s: Seq<Entry>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| unified_str(s[i])) }

// --- the hash table as a function of the keys ---
pub open spec fn free_at(tab: Seq<u32>, h: int, size: int, k: int) -> bool {
    0 <= k < size && tab[probe(h, size, k)] == 0 && forall|i: int| 0 <= i < k ==> tab[#[trigger] probe(h, size, i)] != 0
}
pub open spec fn free_slot(tab: Seq<u32>, h: int, size: int) -> int { probe(h, size, choose|k: int| free_at(tab, h, size, k)) }
pub proof fn lemma_free_slot(tab: Seq<u32>, h: int, size: int, k: int)
    requires free_at(tab, h, size, k)
    ensures free_slot(tab, h, size) == probe(h, size, k)
{
    let c = choose|c: int| free_at(tab, h, size, c);
    if c < k { assert(tab[probe(h, size, c)] != 0); }
    if k < c { assert(tab[probe(h, size, k)] != 0); }
}
pub open spec fn mo_table(keys: Seq<Seq<u8>>, size: int, n: int) -> Seq<u32>
    decreases n
{
    if n <= 0 { Seq::new(size as nat, |i: int| 0u32) }
    else { let t = mo_table(keys, size, n - 1); t.update(free_slot(t, hash_of(keys[n - 1]), size), n as u32) }
}
// --- the image ---
pub open spec fn blob(ss: Seq<Seq<u8>>) -> Seq<u8>
    decreases ss.len()
{ if ss.len() == 0 { Seq::empty() } else { blob(ss.drop_last()).add(ss.last()).push(0u8) } }
pub open spec fn off_of(ss: Seq<Seq<u8>>, i: int) -> int { blob(ss.take(i)).len() as int }
pub open spec fn str_table(ss: Seq<Seq<u8>>, start: int, n: int) -> Seq<u32>
    decreases n
{ if n <= 0 { Seq::empty() } else { str_table(ss, start, n - 1).add(seq![w_u32(ss[n - 1].len() as int), w_u32(start + off_of(ss, n - 1))]) } }
pub open spec fn mo_header(o: ByteOrd, n: int, size: int) -> Seq<u8> {
    enc_u32(o, 0x950412de).add(enc_u16(o, 0)).add(enc_u16(o, 0)).add(enc_u32(o, w_u32(n))).add(enc_u32(o, 28)).add(enc_u32(o, w_u32(28 + 8 * n))).add(enc_u32(o, w_u32(size))).add(enc_u32(o, w_u32(28 + 16 * n)))
}
pub open spec fn mo_image(o: ByteOrd, origs: Seq<Seq<u8>>, trans: Seq<Seq<u8>>, tab: Seq<u32>) -> Seq<u8> {
    let n = origs.len() as int;
    let start = 28 + 16 * n + 4 * tab.len();
    mo_header(o, n, tab.len() as int)
        .add(enc_u32s(o, str_table(origs, start, n)))
        .add(enc_u32s(o, str_table(trans, start + blob(origs).len(), n)))
        .add(enc_u32s(o, tab))
        .add(blob(origs))
        .add(blob(trans))
}
// --- which messages, in which order ---
pub open spec fn mo_kept(depure: bool, d: Seq<Entry>) -> Seq<Entry> {
    if depure { dedup(keep(keep(d, |x: Entry| fuzzy(x)), |x: Entry| x.Obsolete)) } else { d }
}
pub open spec fn mo_entries(depure: bool, sort: bool, d: Seq<Entry>) -> Seq<Entry> {
    if sort { sort_by(fv_po_CompareEntryByID_s(), mo_kept(depure, d)) } else { mo_kept(depure, d) }
}
pub open spec fn mo_hash_size(n: int) -> int { let p = next_prime((4 * n) / 3); if p < 3 { 3 } else { p } }
pub open spec fn mo_file(c: Compile_MoConfig, d: Seq<Entry>) -> Seq<u8> {
    let es = mo_entries(c.DepureEntries, c.SortEntries, d);
    let n = es.len() as int;
    mo_image(util_Endianness_Order_s(c.Endianness), origs_of(es), trans_of(es), if c.HashTable { mo_table(keys_of(es), mo_hash_size(n), n) } else { Seq::empty() })
}
pub proof fn lemma_wrap_add(a: int, b: int)
    requires 0 <= a, 0 <= b
    ensures w_u32(w_u32(a) + w_u32(b)) == w_u32(a + b)
{
    assert(w_u32(a) as int == a % 0x1_0000_0000);
    assert(w_u32(b) as int == b % 0x1_0000_0000);
    assert((a % 0x1_0000_0000 + b % 0x1_0000_0000) % 0x1_0000_0000 == (a + b) % 0x1_0000_0000) by (nonlinear_arith);
}
pub proof fn lemma_blob_step(ss: Seq<Seq<u8>>, n: int)
    requires 0 <= n < ss.len()
    ensures blob(ss.take(n + 1)) == blob(ss.take(n)).add(ss[n]).push(0u8)
{ assert(ss.take(n + 1).drop_last() =~= ss.take(n)); assert(ss.take(n + 1).last() == ss[n]); }
pub proof fn lemma_bases(ss: Seq<Seq<u8>>, start: int, o: ByteOrd, data: Seq<GoAny>)
    ensures blob(Seq::<Seq<u8>>::empty()) == Seq::<u8>::empty(), str_table(ss, start, 0) == Seq::<u32>::empty(), enc_all(o, data, 0) == Seq::<u8>::empty()
{}
pub proof fn lemma_str_table_step(ss: Seq<Seq<u8>>, start: int, n: int)
    requires 0 <= n
    ensures str_table(ss, start, n + 1) == str_table(ss, start, n).add(seq![w_u32(ss[n].len() as int), w_u32(start + off_of(ss, n))])
{}
pub proof fn lemma_enc_all_step(o: ByteOrd, data: Seq<GoAny>, out: Seq<u8>, n: int)
    requires 0 < n
    ensures out.add(enc_all(o, data, n - 1)).add(bin_enc(o, data[n - 1])) == out.add(enc_all(o, data, n))
{ assert(out.add(enc_all(o, data, n - 1)).add(bin_enc(o, data[n - 1])) =~= out.add(enc_all(o, data, n))); }
pub proof fn lemma_add_empty(out: Seq<u8>)
    ensures out.add(Seq::<u8>::empty()) == out
{ assert(out.add(Seq::<u8>::empty()) =~= out); }
pub proof fn lemma_take_all<E>(s: Seq<E>)
    ensures s.take(s.len() as int) == s, s.take(0) == Seq::<E>::empty()
{ assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<E>::empty()); }
pub proof fn lemma_mo_kept_len(depure: bool, d: Seq<Entry>)
    ensures mo_kept(depure, d).len() <= d.len()
{
    let a = keep(d, |x: Entry| fuzzy(x));
    let b = keep(a, |x: Entry| x.Obsolete);
    lemma_keep(d, |x: Entry| fuzzy(x));
    lemma_keep(a, |x: Entry| x.Obsolete);
    lemma_dedup(b);
    lemma_sk(b);
}
pub open spec fn enc_all(o: ByteOrd, data: Seq<GoAny>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { enc_all(o, data, n - 1).add(bin_enc(o, data[n - 1])) } }
pub proof fn lemma_enc_six(o: ByteOrd, data: Seq<GoAny>)
    requires data.len() == 6
    ensures enc_all(o, data, 6) == bin_enc(o, data[0]).add(bin_enc(o, data[1])).add(bin_enc(o, data[2])).add(bin_enc(o, data[3])).add(bin_enc(o, data[4])).add(bin_enc(o, data[5]))
{ reveal_with_fuel(enc_all, 8); assert(Seq::<u8>::empty().add(bin_enc(o, data[0])) =~= bin_enc(o, data[0])); }
pub proof fn lemma_str_table_wrap(ss: Seq<Seq<u8>>, a: int, n: int)
    requires 0 <= a, n <= ss.len()
    ensures str_table(ss, w_u32(a) as int, n) == str_table(ss, a, n)
    decreases n
{
    if n > 0 {
        lemma_str_table_wrap(ss, a, n - 1);
        let f = off_of(ss, n - 1);
        lemma_wrap_add(a, f);
        lemma_wrap_add(w_u32(a) as int, f);
        assert(w_u32(w_u32(a) as int) == w_u32(a));
    }
}

// the options applied in order to a configuration
pub open spec fn opts_compile_moconfig(c: Compile_MoConfig, o: Seq<spec_fn(Compile_MoConfig) -> Compile_MoConfig>, n: int) -> Compile_MoConfig
    decreases n
{ if n <= 0 { c } else { o[n - 1](opts_compile_moconfig(c, o, n - 1)) } }
// the configuration as it is while the options are in force
pub open spec fn with_compile_moconfig(c: Compile_MoConfig, o: Seq<spec_fn(Compile_MoConfig) -> Compile_MoConfig>) -> Compile_MoConfig
{ Compile_MoConfig { lastCfg: any_of_Compile_MoConfig(c), ..opts_compile_moconfig(c, o, o.len() as int) } }
// only a configuration is ever saved (the field is private; see ApplyOptions)
pub open spec fn cfg_ok_compile_moconfig(c: Compile_MoConfig) -> bool { go_any_is_nil(c.lastCfg) || any_is_Compile_MoConfig(c.lastCfg) }

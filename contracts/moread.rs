// include movalid.rs
// What the reader of binary catalogues returns.
pub open spec fn mo_order(e: i64, data: Seq<u8>) -> ByteOrd {
    if data.len() < 4 { ByteOrd::Nil }
    else if e == 0 {
        if word(data, ByteOrd::Little, 0) == 0x950412de { ByteOrd::Little } else if word(data, ByteOrd::Little, 0) == 0xde120495 { ByteOrd::Big } else { ByteOrd::Nil }
    } else if word(data, util_Endianness_Order_s(e), 0) == 0x950412de { util_Endianness_Order_s(e) } else { ByteOrd::Nil }
}
pub open spec fn first_byte(s: Seq<u8>, c: u8, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if s[i] == c { i } else { first_byte(s, c, i + 1) } }
pub open spec fn numbered(ps: Seq<Seq<u8>>) -> Seq<PluralEntry> { Seq::new(ps.len(), |i: int| PluralEntry { ID: i as i64, Str: ps[i] }) }
pub open spec fn mo_ctx(orig: Seq<u8>) -> Seq<u8> { let i = first_byte(orig, 4, 0); if i >= 0 { orig.subrange(0, i) } else { Seq::empty() } }
pub open spec fn mo_rest(orig: Seq<u8>) -> Seq<u8> { let i = first_byte(orig, 4, 0); if i >= 0 { orig.subrange(i + 1, orig.len() as int) } else { orig } }
pub open spec fn mo_entry(orig: Seq<u8>, trans: Seq<u8>) -> Entry {
    let parts = split_byte(mo_rest(orig), 0);
    let plural = if parts.len() > 1 { parts[1] } else { Seq::empty() };
    let forms = split_byte(trans, 0);
    let single = forms.len() == 1 && (plural.len() == 0 || trans.len() == 0);
    Entry { Context: mo_ctx(orig), ID: parts[0], Plural: plural, Str: if single { forms[0] } else { Seq::empty() }, Plurals: if single { Seq::empty() } else { numbered(forms) }, ..zero_Entry() }
}
// the string a table entry names
pub open spec fn tab_ok(data: Seq<u8>, o: ByteOrd, at: int) -> bool { word(data, o, at + 4) + word(data, o, at) <= data.len() }
pub open spec fn tab_end(data: Seq<u8>, o: ByteOrd, at: int) -> bool { word(data, o, at + 4) >= data.len() }
pub open spec fn tab_str(data: Seq<u8>, o: ByteOrd, at: int) -> Seq<u8> { data.subrange(word(data, o, at + 4), word(data, o, at + 4) + word(data, o, at)) }
pub open spec fn mo_in(data: Seq<u8>, o: ByteOrd, i: int) -> bool { tab_ok(data, o, word(data, o, 12) + 8 * i) && tab_ok(data, o, word(data, o, 16) + 8 * i) }
pub open spec fn mo_at_end(data: Seq<u8>, o: ByteOrd, i: int) -> bool { tab_end(data, o, word(data, o, 12) + 8 * i) || tab_end(data, o, word(data, o, 16) + 8 * i) }
// the first n messages
pub open spec fn mo_read(data: Seq<u8>, o: ByteOrd, n: int) -> Seq<Entry>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if mo_in(data, o, n - 1) { mo_read(data, o, n - 1).push(mo_entry(tab_str(data, o, word(data, o, 12) + 8 * (n - 1)), tab_str(data, o, word(data, o, 16) + 8 * (n - 1)))) }
    else { mo_read(data, o, n - 1) }
}
pub open spec fn mo_all_in(data: Seq<u8>, o: ByteOrd, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] mo_in(data, o, i) && !mo_at_end(data, o, i) }
pub open spec fn mo_tables_in(data: Seq<u8>, o: ByteOrd) -> bool {
    data.len() >= 28 && word(data, o, 12) + 8 * word(data, o, 8) <= data.len() && word(data, o, 16) + 8 * word(data, o, 8) <= data.len()
}
pub open spec fn mo_version_ok(data: Seq<u8>, o: ByteOrd) -> bool { bin_dec_u16(o, data, 4) <= 1 && bin_dec_u16(o, data, 6) <= 1 }
pub open spec fn rd_word(data: Seq<u8>, o: ByteOrd, at: int) -> u32 { bin_dec_u32(o, data, at) }

// the options applied in order to a configuration
pub open spec fn opts_parse_moconfig(c: Parse_MoConfig, o: Seq<spec_fn(Parse_MoConfig) -> Parse_MoConfig>, n: int) -> Parse_MoConfig
    decreases n
{ if n <= 0 { c } else { o[n - 1](opts_parse_moconfig(c, o, n - 1)) } }
// the configuration as it is while the options are in force
pub open spec fn with_parse_moconfig(c: Parse_MoConfig, o: Seq<spec_fn(Parse_MoConfig) -> Parse_MoConfig>) -> Parse_MoConfig
{ Parse_MoConfig { lastCfg: any_of_Parse_MoConfig(c), ..opts_parse_moconfig(c, o, o.len() as int) } }
// only a configuration is ever saved (the field is private; see ApplyOptions)
pub open spec fn cfg_ok_parse_moconfig(c: Parse_MoConfig) -> bool { go_any_is_nil(c.lastCfg) || any_is_Parse_MoConfig(c.lastCfg) }

pub broadcast proof fn lemma_rest_u32(r: BytesReader, o: ByteOrd)
    requires 0 <= r.pos, br_has(r, 4)
    ensures #[trigger] bin_dec_u32(o, br_rest(r), 0) == bin_dec_u32(o, r.data, r.pos as int)
{}
pub broadcast proof fn lemma_rest_all(r: BytesReader)
    requires r.pos == 0
    ensures #[trigger] br_rest(r) == r.data
{ if r.data.len() > 0 { assert(r.data.subrange(0, r.data.len() as int) =~= r.data); } else { assert(r.data =~= Seq::empty()); } }
pub broadcast group group_rest { lemma_rest_u32, lemma_rest_all }
pub proof fn lemma_split_len(s: Seq<u8>, c: u8)
    ensures split_byte(s, c).len() >= 1
    decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
pub proof fn lemma_first_byte(s: Seq<u8>, c: u8, i: int)
    requires 0 <= i <= s.len()
    ensures first_byte(s, c, i) == -1 || i <= first_byte(s, c, i) < s.len() && s[first_byte(s, c, i)] == c,
        forall|j: int| i <= j < s.len() && (first_byte(s, c, i) == -1 || j < first_byte(s, c, i)) ==> s[j] != c
    decreases s.len() - i
{ if i < s.len() && s[i] != c { lemma_first_byte(s, c, i + 1); } }
pub proof fn lemma_cut_byte(s: Seq<u8>, c: u8)
    ensures str_index(s, seq![c]) == first_byte(s, c, 0)
{
    broadcast use prelude_axioms;
    lemma_first_byte(s, c, 0);
    let k = str_index(s, seq![c]) as int;
    let f = first_byte(s, c, 0);
    if k >= 0 { assert(s.subrange(k, k + 1)[0] == s[k]); assert(seq![c][0] == c); }
    if f >= 0 { assert(s.subrange(f, f + 1) =~= seq![c]); assert(occurs_at(s, seq![c], f)); }
}
// the same from the tables read into memory
pub open spec fn mk_in(data: Seq<u8>, s: Seq<u32>, l: Seq<u32>, i: int) -> bool { s[i] + l[i] <= data.len() }
pub open spec fn mk_good(data: Seq<u8>, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, i: int) -> bool {
    mk_in(data, is, il, i) && mk_in(data, ss, sl, i) && is[i] < data.len() && ss[i] < data.len()
}
pub open spec fn mk_read(data: Seq<u8>, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, n: int) -> Seq<Entry>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if mk_in(data, is, il, n - 1) && mk_in(data, ss, sl, n - 1) {
        mk_read(data, is, il, ss, sl, n - 1).push(mo_entry(data.subrange(is[n - 1] as int, is[n - 1] + il[n - 1]), data.subrange(ss[n - 1] as int, ss[n - 1] + sl[n - 1])))
    } else { mk_read(data, is, il, ss, sl, n - 1) }
}
pub open spec fn tab_row(data: Seq<u8>, o: ByteOrd, at: int, s: Seq<u32>, l: Seq<u32>, i: int) -> bool { l[i] == rd_word(data, o, at + 8 * i) && s[i] == rd_word(data, o, at + 8 * i + 4) }
pub open spec fn is_table(data: Seq<u8>, o: ByteOrd, at: int, s: Seq<u32>, l: Seq<u32>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] tab_row(data, o, at, s, l, i)
}
pub proof fn lemma_table_step(data: Seq<u8>, o: ByteOrd, at: int, s: Seq<u32>, l: Seq<u32>, s2: Seq<u32>, l2: Seq<u32>, n: int)
    requires 0 <= n < s.len(), n < l.len(), is_table(data, o, at, s, l, n), s2 == s.update(n, rd_word(data, o, at + 8 * n + 4)), l2 == l.update(n, rd_word(data, o, at + 8 * n))
    ensures is_table(data, o, at, s2, l2, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] tab_row(data, o, at, s2, l2, i) by { if i < n { assert(tab_row(data, o, at, s, l, i)); } }
}
pub proof fn lemma_mk_row(data: Seq<u8>, o: ByteOrd, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, i: int)
    requires tab_row(data, o, word(data, o, 12), is, il, i), tab_row(data, o, word(data, o, 16), ss, sl, i)
    ensures mk_good(data, is, il, ss, sl, i) == (mo_in(data, o, i) && !mo_at_end(data, o, i)),
        (mk_in(data, is, il, i) && mk_in(data, ss, sl, i)) == mo_in(data, o, i),
        word(data, o, word(data, o, 12) + 8 * i) == il[i], word(data, o, word(data, o, 12) + 8 * i + 4) == is[i],
        word(data, o, word(data, o, 16) + 8 * i) == sl[i], word(data, o, word(data, o, 16) + 8 * i + 4) == ss[i]
{ hide(bin_dec_u32); }
pub proof fn lemma_mk_read(data: Seq<u8>, o: ByteOrd, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, n: int)
    requires is_table(data, o, word(data, o, 12), is, il, n), is_table(data, o, word(data, o, 16), ss, sl, n)
    ensures mk_read(data, is, il, ss, sl, n) == mo_read(data, o, n)
    decreases n
{
    hide(word); hide(mo_entry); hide(mo_in); hide(mk_in);
    if n > 0 {
        assert(tab_row(data, o, word(data, o, 12), is, il, n - 1));
        assert(tab_row(data, o, word(data, o, 16), ss, sl, n - 1));
        assert(is_table(data, o, word(data, o, 12), is, il, n - 1)) by { assert forall|i: int| 0 <= i < n - 1 implies #[trigger] tab_row(data, o, word(data, o, 12), is, il, i) by {} }
        assert(is_table(data, o, word(data, o, 16), ss, sl, n - 1)) by { assert forall|i: int| 0 <= i < n - 1 implies #[trigger] tab_row(data, o, word(data, o, 16), ss, sl, i) by {} }
        lemma_mk_read(data, o, is, il, ss, sl, n - 1);
        lemma_mk_row(data, o, is, il, ss, sl, n - 1);
    }
}
proof fn lemma_mk_one(data: Seq<u8>, o: ByteOrd, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, n: int, i: int)
    requires is_table(data, o, word(data, o, 12), is, il, n), is_table(data, o, word(data, o, 16), ss, sl, n), 0 <= i < n
    ensures mk_good(data, is, il, ss, sl, i) == (mo_in(data, o, i) && !mo_at_end(data, o, i))
{
    hide(word); hide(mo_in); hide(mo_at_end); hide(mk_good);
    assert(tab_row(data, o, word(data, o, 12), is, il, i));
    assert(tab_row(data, o, word(data, o, 16), ss, sl, i));
    lemma_mk_row(data, o, is, il, ss, sl, i);
}
proof fn lemma_mk_all_1(data: Seq<u8>, o: ByteOrd, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, n: int)
    requires is_table(data, o, word(data, o, 12), is, il, n), is_table(data, o, word(data, o, 16), ss, sl, n), forall|i: int| 0 <= i < n ==> #[trigger] mk_good(data, is, il, ss, sl, i)
    ensures mo_all_in(data, o, n)
{
    hide(word); hide(mo_in); hide(mo_at_end); hide(mk_good); hide(is_table);
    assert forall|i: int| 0 <= i < n implies #[trigger] mo_in(data, o, i) && !mo_at_end(data, o, i) by { lemma_mk_one(data, o, is, il, ss, sl, n, i); assert(mk_good(data, is, il, ss, sl, i)); }
}
proof fn lemma_mk_all_2(data: Seq<u8>, o: ByteOrd, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, n: int)
    requires is_table(data, o, word(data, o, 12), is, il, n), is_table(data, o, word(data, o, 16), ss, sl, n), mo_all_in(data, o, n)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] mk_good(data, is, il, ss, sl, i)
{
    hide(word); hide(mo_in); hide(mo_at_end); hide(mk_good); hide(is_table);
    assert forall|i: int| 0 <= i < n implies #[trigger] mk_good(data, is, il, ss, sl, i) by { lemma_mk_one(data, o, is, il, ss, sl, n, i); assert(mo_in(data, o, i)); }
}
pub proof fn lemma_mk_all(data: Seq<u8>, o: ByteOrd, is: Seq<u32>, il: Seq<u32>, ss: Seq<u32>, sl: Seq<u32>, n: int)
    requires is_table(data, o, word(data, o, 12), is, il, n), is_table(data, o, word(data, o, 16), ss, sl, n)
    ensures (forall|i: int| 0 <= i < n ==> #[trigger] mk_good(data, is, il, ss, sl, i)) == mo_all_in(data, o, n)
{
    hide(word); hide(mo_all_in); hide(mk_good); hide(is_table);
    if forall|i: int| 0 <= i < n ==> #[trigger] mk_good(data, is, il, ss, sl, i) { lemma_mk_all_1(data, o, is, il, ss, sl, n); }
    if mo_all_in(data, o, n) { lemma_mk_all_2(data, o, is, il, ss, sl, n); }
}

// the settings a reader has when it is made with options
pub open spec fn mo_rd_settings(o: Seq<spec_fn(Parse_MoConfig) -> Parse_MoConfig>) -> Parse_MoConfig { with_parse_moconfig(zero_Parse_MoConfig(), o) }
// a reader made for a text: nothing left over from an earlier one
pub open spec fn mo_rd_new(p: Option<Parse_MoParser>, name: Seq<u8>, data: Seq<u8>, o: Seq<spec_fn(Parse_MoConfig) -> Parse_MoConfig>) -> bool {
    p == Some(Parse_MoParser { Config: mo_rd_settings(o), data: data, filename: name, ..zero_Parse_MoParser() })
}
// what reading a text gives: the catalogue, and whether there was nothing to complain about
pub open spec fn mo_rd_file(c: Parse_MoConfig, name: Seq<u8>, data: Seq<u8>, file: Option<File>) -> bool {
    let o = mo_order(c.Endianness, data);
    &&& (file is Some) == (!(o is Nil) && mo_tables_in(data, o))
    &&& file is Some ==> file->0.Name == name && file->0.Entries.d == mo_read(data, o, word(data, o, 8))
}
pub open spec fn mo_rd_fine(c: Parse_MoConfig, data: Seq<u8>) -> bool {
    let o = mo_order(c.Endianness, data);
    let n = word(data, o, 8);
    &&& !(o is Nil) && mo_tables_in(data, o) && mo_version_ok(data, o) && mo_all_in(data, o, n)
    &&& c.MustBeSorted ==> sorted_adj(fv_po_CompareEntryByID_s(), mo_read(data, o, n))
}

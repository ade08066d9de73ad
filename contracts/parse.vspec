# Contracts of pkg/po/parse.

func parse.makeEntry(msgid, msgstr) -> (r)
  ensures r == mo_entry(msgid, msgstr)
  entry let orig = msgid; lemma_cut_byte(orig, 4); lemma_first_byte(orig, 4, 0); lemma_split_len(mo_rest(orig), 0); lemma_split_len(msgstr, 0); assert(seq![4u8].len() == 1 && seq![0u8].len() == 1 && seq![0u8][0] == 0);
  local msgctxt: []byte
  ghost e0: Entry = zero_Entry()
  loop 1
  pre e0 = entry;
  invariant entry.Plurals =~= numbered(msgstrParts.take(IDX)) && entry == (Entry { Plurals: entry.Plurals, ..e0 })
  after lemma_take_all(msgstrParts);
  exit assert(pv_parse_eot() == seq![4u8]); assert(str_splitn(old_msgid, pv_parse_eot(), 2) == (if first_byte(old_msgid, 4, 0) < 0 { seq![old_msgid] } else { seq![mo_ctx(old_msgid), mo_rest(old_msgid)] })); assert(msgctxt == mo_ctx(old_msgid)); assert(msgidParts == split_byte(mo_rest(old_msgid), 0)); let x = mo_entry(old_msgid, old_msgstr); assert(r.Context =~= x.Context); assert(r.ID =~= x.ID); assert(r.Plural =~= x.Plural); assert(r.Str =~= x.Str); assert(r.Plurals =~= x.Plurals);

func parse.MoParser.error(m, format, a)
  ensures errs_ok(m.errors) ==> errs_ok(m_out.errors)
  ensures m_out.errors.drop_last() == m.errors && m_out.errors.len() == m.errors.len() + 1 && !(m_out.errors.last() is Nil)
  ensures m_out.data == m.data && m_out.Config == m.Config && m_out.filename == m.filename

func parse.MoParser.contains(m, offset, n) -> (r)
  requires n <= 0xffff_ffff_0000
  returns offset + n <= m.data.len()
  entry lemma_go_len(m.data);

func parse.MoParser.defineOrder(m, reader) -> (order)
  requires reader.pos == 0 && m.errors.len() == 0
  ensures reader_out.data == reader.data
  ensures errs_ok(m_out.errors)
  ensures mo_order(m.Config.Endianness, reader.data) is Nil ==> m_out.errors.len() > 0 && !(m_out.errors[0] is Nil) && m_out.data == m.data && m_out.Config == m.Config && m_out.filename == m.filename
  ensures !(mo_order(m.Config.Endianness, reader.data) is Nil) ==> order == mo_order(m.Config.Endianness, reader.data) && m_out == m && reader_out.pos == 0

func parse.MoParser.makeEntries(m, r, header, msgIDStart, msgIDLen, msgStrStart, msgStrLen) -> (entries)
  requires r.data == m.data
  requires msgIDStart.len() == header.Nstrings && msgIDLen.len() == header.Nstrings && msgStrStart.len() == header.Nstrings && msgStrLen.len() == header.Nstrings
  ensures entries.d == mk_read(m.data, msgIDStart, msgIDLen, msgStrStart, msgStrLen, header.Nstrings as int)
  ensures m_out.data == m.data && m_out.Config == m.Config && m_out.filename == m.filename && m_out.errors.len() >= m.errors.len()
  ensures errs_ok(m.errors) ==> errs_ok(m_out.errors)
  ensures (m_out.errors.len() == m.errors.len()) == (forall|k: int| 0 <= k < header.Nstrings ==> #[trigger] mk_good(m.data, msgIDStart, msgIDLen, msgStrStart, msgStrLen, k))
  ghost g: bool = false
  loop 1
  invariant 0 <= i <= header.Nstrings && r.data == m.data && header == old_header && m.data == old_m.data && m.Config == old_m.Config && m.filename == old_m.filename && m.errors.len() >= old_m.errors.len()
  invariant entries.d == mk_read(m.data, msgIDStart, msgIDLen, msgStrStart, msgStrLen, i as int)
  invariant (m.errors.len() == old_m.errors.len()) == (forall|k: int| 0 <= k < i ==> #[trigger] mk_good(m.data, msgIDStart, msgIDLen, msgStrStart, msgStrLen, k))
  invariant entries.own || entries.cf
  invariant errs_ok(old_m.errors) ==> errs_ok(m.errors)
  begin lemma_go_len(m.data); g = mk_good(m.data, msgIDStart, msgIDLen, msgStrStart, msgStrLen, i as int);

func parse.MoParser.Parse(m) -> (file)
  entry lemma_go_len(m.data);
  rlimit 120
  spinoff
  ghost s0: Seq<u32> = Seq::empty()
  ghost l0: Seq<u32> = Seq::empty()
  ghost m0: Parse_MoParser = arbitrary()
  loop 1
  pre m0 = m; assert(mo_tables_in(m.data, bo)); assert(header.Nstrings == word(m.data, bo, 8) && header.OrigTabOffset == word(m.data, bo, 12) && header.TransTabOffset == word(m.data, bo, 16)); assert((m.errors.len() == 0) == mo_version_ok(m.data, bo)); assert(errs_ok(m.errors));
  invariant m == m0 && r is Some && r->0.data == m.data && 0 <= i <= header.Nstrings && r->0.pos == header.OrigTabOffset + 8 * i
  invariant msgIDStart.len() == header.Nstrings && msgIDLen.len() == header.Nstrings
  invariant is_table(m.data, bo, header.OrigTabOffset as int, msgIDStart, msgIDLen, i as int)
  begin s0 = msgIDStart; l0 = msgIDLen;
  end lemma_table_step(m.data, bo, header.OrigTabOffset as int, s0, l0, msgIDStart, msgIDLen, i - 1);
  loop 2
  invariant m == m0 && r is Some && r->0.data == m.data && 0 <= i <= header.Nstrings && r->0.pos == header.TransTabOffset + 8 * i
  invariant msgStrStart.len() == header.Nstrings && msgStrLen.len() == header.Nstrings
  invariant is_table(m.data, bo, header.TransTabOffset as int, msgStrStart, msgStrLen, i as int)
  begin s0 = msgStrStart; l0 = msgStrLen;
  end lemma_table_step(m.data, bo, header.TransTabOffset as int, s0, l0, msgStrStart, msgStrLen, i - 1);
  after lemma_mk_read(m.data, bo, msgIDStart, msgIDLen, msgStrStart, msgStrLen, header.Nstrings as int); lemma_mk_all(m.data, bo, msgIDStart, msgIDLen, msgStrStart, msgStrLen, header.Nstrings as int);
  ensures m_out.data == m.data && m_out.Config == m.Config && m_out.filename == m.filename
  ensures ({ let o = mo_order(m.Config.Endianness, m.data); let n = word(m.data, o, 8); (file is Some) == (!(o is Nil) && mo_tables_in(m.data, o)) })
  ensures ({ let o = mo_order(m.Config.Endianness, m.data); let n = word(m.data, o, 8); file is Some ==> file->0.Name == m.filename && file->0.Entries.d == mo_read(m.data, o, n) })
  ensures ({ let o = mo_order(m.Config.Endianness, m.data); let n = word(m.data, o, 8); (m_out.errors.len() == 0) == (file is Some && mo_version_ok(m.data, o) && mo_all_in(m.data, o, n) && (m.Config.MustBeSorted ==> sorted_adj(fv_po_CompareEntryByID_s(), file->0.Entries.d))) })
  ensures errs_ok(m_out.errors)

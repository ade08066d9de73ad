# Contracts of pkg/po/compile.

func compile.buildHashTable(entries, size) -> (r)
  requires is_prime(size as int) && size >= 3
  requires entries.d.len() < size
  ensures hash_table_for(r, keys_of(entries.d), size as int)
  ensures r == mo_table(keys_of(entries.d), size as int, entries.d.len() as int)
  local hashMap: []uint32
  ghost k: int = 0
  ghost tab0: Seq<u32> = Seq::empty()
  loop 1
  pre lemma_used_none(hashMap); assert(hashMap =~= mo_table(keys_of(entries.d), size as int, 0));
  invariant 0 <= j <= entries.d.len() && hashMap.len() == size && size == old_size && entries == old_entries
  invariant used_count(hashMap) == j && hashMap == mo_table(keys_of(entries.d), size as int, j as int)
  invariant forall|i: int| 0 <= i < size ==> #[trigger] hashMap[i] <= j
  invariant forall|i: int| 0 <= i < j ==> reaches(hashMap, hash_of(#[trigger] keys_of(entries.d)[i]), size as int, (i + 1) as u32)
  begin k = 0; tab0 = hashMap; let h = hash_of(uid(entries.d[j as int])); lemma_probe_range(h, size as int, 0); lemma_probe_zero(h, size as int);
  end let h = hash_of(uid(entries.d[j - 1])); lemma_used_update(tab0, idx as int, j); lemma_probe_range(h, size as int, k);
    assert(found_at(hashMap, h, size as int, j, k)) by { assert forall|i: int| 0 <= i < k implies hashMap[#[trigger] probe(h, size as int, i)] != 0 by { lemma_probe_range(h, size as int, i); } }
    assert(keys_of(entries.d)[j - 1] == uid(entries.d[j - 1])); assert(free_at(tab0, h, size as int, k)); lemma_free_slot(tab0, h, size as int, k);
    assert forall|i: int| 0 <= i < j implies reaches(hashMap, hash_of(#[trigger] keys_of(entries.d)[i]), size as int, (i + 1) as u32) by {
      if i < j - 1 { lemma_reaches_update(tab0, hash_of(keys_of(entries.d)[i]), size as int, (i + 1) as u32, idx as int, j); } }
  loop 2
  invariant 0 <= k < size && idx == probe(hashVal as int, size as int, k) && incr == probe_incr(hashVal as int, size as int)
  invariant forall|i: int| 0 <= i < k ==> hashMap[#[trigger] probe(hashVal as int, size as int, i)] != 0
  invariant_except_break hashMap[idx as int] != 0
  loop_ensures hashMap[idx as int] == 0
  decreases size - k
  begin lemma_probe_bound(hashMap, hashVal as int, size as int, k); lemma_probe_step(hashVal as int, size as int, k); lemma_probe_range(hashVal as int, size as int, k + 1); k = k + 1;

func compile.MoCompiler.writeTo(mc, writer) -> (r)
  rlimit 250
  spinoff
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  ensures (r is Nil && !mc.Config.IgnoreErrors) || gw_is_buf(writer.sink) ==> writer_out.out == writer.out.add(mo_file(mc.Config, mc.File->0.Entries.d))
  ensures gw_is_buf(writer.sink) ==> r is Nil
  local entries: github.com/Tom5521/gotext-tools/v2/pkg/po.Entries
  entry lemma_mo_kept_len(mc.Config.DepureEntries, mc.File->0.Entries.d);
  loop 1
  pre lemma_bases(origs_of(entries.d), 0, ByteOrd::Big, Seq::empty()); lemma_take_all(origs_of(entries.d)); lemma_take_all(trans_of(entries.d)); assert(entries.d == mo_entries(mc.Config.DepureEntries, mc.Config.SortEntries, mc.File->0.Entries.d));
  invariant mc == old_mc && writer == old_writer
  invariant idsOffsets.len() == entries.d.len() && idsLens.len() == entries.d.len() && strsOffsets.len() == entries.d.len() && strsLens.len() == entries.d.len()
  invariant idsBuf == blob(origs_of(entries.d).take(IDX)) && strsBuf == blob(trans_of(entries.d).take(IDX))
  invariant forall|i: int| 0 <= i < IDX ==> #[trigger] idsOffsets[i] == w_u32(off_of(origs_of(entries.d), i))
  invariant forall|i: int| 0 <= i < IDX ==> #[trigger] strsOffsets[i] == w_u32(off_of(trans_of(entries.d), i))
  invariant forall|i: int| 0 <= i < IDX ==> #[trigger] idsLens[i] == w_u32(origs_of(entries.d)[i].len() as int)
  invariant forall|i: int| 0 <= i < IDX ==> #[trigger] strsLens[i] == w_u32(trans_of(entries.d)[i].len() as int)
  begin lemma_blob_step(origs_of(entries.d), IDX - 1); lemma_blob_step(trans_of(entries.d), IDX - 1);
  after lemma_take_all(origs_of(entries.d)); lemma_take_all(trans_of(entries.d)); 
  loop 2
  pre lemma_bases(origs_of(entries.d), origStart as int, ByteOrd::Big, Seq::empty()); lemma_bases(trans_of(entries.d), transStart as int, ByteOrd::Big, Seq::empty());
  invariant 0 <= i <= entries.d.len()
  invariant origOffsets == str_table(origs_of(entries.d), origStart as int, i as int)
  invariant transOffsets == str_table(trans_of(entries.d), transStart as int, i as int)
  begin let o = origs_of(entries.d); let t = trans_of(entries.d); lemma_str_table_step(o, origStart as int, i as int); lemma_str_table_step(t, transStart as int, i as int); lemma_wrap_add(off_of(o, i as int), origStart as int); lemma_wrap_add(off_of(t, i as int), transStart as int);
  after let es = mo_entries(mc.Config.DepureEntries, mc.Config.SortEntries, mc.File->0.Entries.d); let o = util_Endianness_Order_s(mc.Config.Endianness); let n = es.len() as int;
    assert(entries.d == es); if mc.Config.HashTable { lemma_prime_3(); assert(is_prime(hashTabSize as int)); assert(n < hashTabSize); assert(hashTabSize == mo_hash_size(n)); } let tab = (if mc.Config.HashTable { mo_table(keys_of(es), mo_hash_size(n), n) } else { Seq::empty() }); 
  loop 3
  pre let es = mo_entries(mc.Config.DepureEntries, mc.Config.SortEntries, mc.File->0.Entries.d); let n = es.len() as int; let tab = (if mc.Config.HashTable { mo_table(keys_of(es), mo_hash_size(n), n) } else { Seq::empty() }); assert(hashTable == tab); assert(hashTabSize == tab.len()); lemma_add_empty(writer.out); lemma_bases(Seq::empty(), 0, util_Endianness_Order_s(mc.Config.Endianness), data); lemma_enc_six(util_Endianness_Order_s(mc.Config.Endianness), data);
  invariant writer.out == old_writer.out.add(enc_all(util_Endianness_Order_s(mc.Config.Endianness), data, IDX)) && gw_is_buf(writer.sink) == gw_is_buf(old_writer.sink)
  end lemma_enc_all_step(util_Endianness_Order_s(mc.Config.Endianness), data, old_writer.out, IDX);
  after let es = mo_entries(mc.Config.DepureEntries, mc.Config.SortEntries, mc.File->0.Entries.d); let o = util_Endianness_Order_s(mc.Config.Endianness); let n = es.len() as int; let start = 28 + 16 * n + 4 * hashTable.len(); lemma_str_table_wrap(origs_of(es), start, n); lemma_str_table_wrap(trans_of(es), start + blob(origs_of(es)).len(), n); lemma_wrap_add(28 + 16 * n, 4 * hashTable.len() as int); lemma_wrap_add(start, blob(origs_of(es)).len() as int);
    assert(origStart == w_u32(start)); assert(transStart == w_u32(start + blob(origs_of(es)).len()));
    reveal(mo_header); assert(bin_enc(o, data[0]) == mo_header(o, n, hashTabSize as int));
    assert(bin_enc(o, data[1]) == enc_u32s(o, str_table(origs_of(es), start, n)));
    assert(bin_enc(o, data[2]) == enc_u32s(o, str_table(trans_of(es), start + blob(origs_of(es)).len(), n)));
    assert(bin_enc(o, data[3]) == enc_u32s(o, hashTable));
    assert(bin_enc(o, data[4]) == blob(origs_of(es)));
    assert(bin_enc(o, data[5]) == blob(trans_of(es)));

func compile.MoCompiler.ToWriter(mc, w) -> (r)
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  ensures (r is Nil && !mc.Config.IgnoreErrors) || gw_is_buf(w.sink) ==> w_out.out == w.out.add(mo_file(mc.Config, mc.File->0.Entries.d))
  ensures gw_is_buf(w.sink) ==> r is Nil

func compile.MoCompiler.ToBytes(mc) -> (r)
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  ensures r == mo_file(mc.Config, mc.File->0.Entries.d)

# Contracts of the PO writer (C05, C14).

func compile.applyColor(c, str) -> (r)
  trusted calls a colour of the terminal library (highlighting only)
  ensures r == po_coloured(c, str)

func color.Color.Sprint(c, a) -> (r)
  trusted asks the terminal library for the terminal's colours (highlighting only)
  ensures r == po_styled(c, a)

func compile.entryBuilder.applyStyle(eb, str, names) -> (r)
  rec_decreases names.len()
  ensures map_is_nil(eb.Config.Highlight) ==> r == str

func compile.escapePOString(s) -> (r)
  ensures r == esc(s)
  loop 1
  pre assert(s.take(0) =~= Seq::empty());
  invariant s == old_s && 0 <= i <= s.len() && buf == esc(s.take(i as int))
  end assert(s.take(i as int).drop_last() =~= s.take(i - 1)); assert(s.take(i as int).last() == s[i - 1]); assert(buf =~= esc(s.take(i - 1)).add(esc1(s[i - 1])));
  after assert(s.take(s.len() as int) =~= s);

func compile.entryBuilder.string(eb, str, styles) -> (r)
  requires styles.len() > 0
  ensures map_is_nil(eb.Config.Highlight) ==> r == po_text(eb.Config, str)
  local lines: []string
  exit if map_is_nil(eb.Config.Highlight) { assert(r =~= po_text(eb.Config, str)); }
  loop 1
  invariant eb == old_eb && (map_is_nil(eb.Config.Highlight) ==> builder == po_lines(lines, IDX))
  end if map_is_nil(eb.Config.Highlight) { assert(builder =~= po_lines(lines, IDX)); }

func compile.entryBuilder.translatorComment(eb) -> (r)
  ensures r == cat_of(po_comment(b"# "), eb.Entry.Comments)
  exit assert(eb.Entry.Comments.take(eb.Entry.Comments.len() as int) =~= eb.Entry.Comments);
  loop 1
  invariant eb == old_eb && b == cat_of(po_comment(b"# "), eb.Entry.Comments.take(IDX))
  begin assert(b"\n".add(b"# ") =~= b"\n# "); lemma_cat_step(po_comment(b"# "), eb.Entry.Comments, IDX);
  end assert(b =~= cat_of(po_comment(b"# "), eb.Entry.Comments.take(IDX)));

func compile.entryBuilder.extractedComment(eb) -> (r)
  ensures r == cat_of(po_comment(b"#. "), eb.Entry.ExtractedComments)
  exit assert(eb.Entry.ExtractedComments.take(eb.Entry.ExtractedComments.len() as int) =~= eb.Entry.ExtractedComments);
  loop 1
  invariant eb == old_eb && b == cat_of(po_comment(b"#. "), eb.Entry.ExtractedComments.take(IDX))
  begin assert(b"\n".add(b"#. ") =~= b"\n#. "); lemma_cat_step(po_comment(b"#. "), eb.Entry.ExtractedComments, IDX);
  end assert(b =~= cat_of(po_comment(b"#. "), eb.Entry.ExtractedComments.take(IDX)));

func compile.entryBuilder.previousComment(eb) -> (r)
  ensures r == cat_of(po_comment(b"#| "), eb.Entry.Previous)
  exit assert(eb.Entry.Previous.take(eb.Entry.Previous.len() as int) =~= eb.Entry.Previous);
  loop 1
  invariant eb == old_eb && b == cat_of(po_comment(b"#| "), eb.Entry.Previous.take(IDX))
  begin assert(b"\n".add(b"#| ") =~= b"\n#| "); lemma_cat_step(po_comment(b"#| "), eb.Entry.Previous, IDX);
  end assert(b =~= cat_of(po_comment(b"#| "), eb.Entry.Previous.take(IDX)));

func compile.entryBuilder.referenceComment(eb) -> (r)
  ensures r == po_refs(eb.Config, eb.Entry.Locations)
  exit assert(eb.Entry.Locations.take(eb.Entry.Locations.len() as int) =~= eb.Entry.Locations);
  loop 1
  invariant eb == old_eb && b == cat_of(po_ref(eb.Config.AddLocation == b"file"), eb.Entry.Locations.take(IDX))
  begin lemma_cat_step(po_ref(eb.Config.AddLocation == b"file"), eb.Entry.Locations, IDX);
  end assert(b =~= cat_of(po_ref(eb.Config.AddLocation == b"file"), eb.Entry.Locations.take(IDX)));

func compile.entryBuilder.flagComment(eb) -> (r)
  ensures r == cat_of(po_flag(), eb.Entry.Flags)
  exit assert(eb.Entry.Flags.take(eb.Entry.Flags.len() as int) =~= eb.Entry.Flags);
  loop 1
  invariant eb == old_eb && comments == cat_of(po_flag(), eb.Entry.Flags.take(IDX))
  begin lemma_cat_step(po_flag(), eb.Entry.Flags, IDX);
  end assert(comments =~= cat_of(po_flag(), eb.Entry.Flags.take(IDX)));

func compile.entryBuilder.comment(eb) -> (r)
  ensures map_is_nil(eb.Config.Highlight) ==> r == po_comments(eb.Config, eb.Entry)
  exit if map_is_nil(eb.Config.Highlight) { assert(r =~= po_comments(eb.Config, eb.Entry)); }

func compile.entryBuilder.msgid(eb) -> (r)
  ensures map_is_nil(eb.Config.Highlight) ==> r == po_msgid(eb.Config, eb.Entry)
  exit if map_is_nil(eb.Config.Highlight) { assert(r =~= po_msgid(eb.Config, eb.Entry)); }

func compile.entryBuilder.msgstr(eb) -> (r)
  ensures map_is_nil(eb.Config.Highlight) ==> r == po_msgstr(eb.Config, eb.Entry)
  exit assert(eb.Entry.Plurals.take(eb.Entry.Plurals.len() as int) =~= eb.Entry.Plurals); assert(po_affixed(eb.Config, eb.Entry.Str) =~= eb.Config.MsgstrPrefix.add(eb.Entry.Str).add(eb.Config.MsgstrSuffix)); if map_is_nil(eb.Config.Highlight) { assert(r =~= po_msgstr(eb.Config, eb.Entry)); }
  loop 1
  pre assert(b"msgstr[0] " =~= b"msgstr[".add(b"0").add(b"]").add(b" ")); assert(b"msgstr[1] " =~= b"msgstr[".add(b"1").add(b"]").add(b" ")); assert(itoa(0) =~= b"0"); assert(itoa(1) =~= b"1");
  invariant eb == old_eb && 0 <= i <= 2 && (map_is_nil(eb.Config.Highlight) ==> msgstr == (if i == 0 { Seq::empty() } else if i == 1 { b"msgstr[0] ".add(po_text(eb.Config, eb.Entry.ID)) } else { b"msgstr[0] ".add(po_text(eb.Config, eb.Entry.ID)).add(b"msgstr[1] ").add(po_text(eb.Config, eb.Entry.ID)) }))
  end if map_is_nil(eb.Config.Highlight) { if i == 1 { assert(msgstr =~= b"msgstr[0] ".add(po_text(eb.Config, eb.Entry.ID))); } else { assert(msgstr =~= b"msgstr[0] ".add(po_text(eb.Config, eb.Entry.ID)).add(b"msgstr[1] ").add(po_text(eb.Config, eb.Entry.ID))); } }
  loop 2
  invariant eb == old_eb && (map_is_nil(eb.Config.Highlight) ==> msgstr == cat_of(po_form(eb.Config), eb.Entry.Plurals.take(IDX)))
  begin lemma_cat_step(po_form(eb.Config), eb.Entry.Plurals, IDX);
  end if map_is_nil(eb.Config.Highlight) { assert(msgstr =~= cat_of(po_form(eb.Config), eb.Entry.Plurals.take(IDX))); }

func compile.entryBuilder.BuildEntry(eb) -> (r)
  ensures map_is_nil(eb.Config.Highlight) ==> r == po_entry(eb.Config)(eb.Entry)
  local entry: string
  local prefix: string
  exit if map_is_nil(eb.Config.Highlight) { assert(r =~= po_entry(eb.Config)(eb.Entry)); }
  loop 1
  pre if map_is_nil(eb.Config.Highlight) { assert(entry =~= po_plain(eb.Config, eb.Entry)); } assert(prefix =~= po_prefix(eb.Config, eb.Entry));
  invariant eb == old_eb && buf == cat_of(po_prefixed(prefix), split_byte(entry, 10).take(IDX))
  begin lemma_cat_step(po_prefixed(prefix), split_byte(entry, 10), IDX);
  end assert(buf =~= cat_of(po_prefixed(prefix), split_byte(entry, 10).take(IDX)));
  after assert(split_byte(entry, 10).take(split_byte(entry, 10).len() as int) =~= split_byte(entry, 10));

func compile.entryBuilder.BuildHeader(eb, header) -> (r)
  ensures r == po_header(eb.Config, header)
  ghost b0: Seq<u8> = Seq::empty()
  exit assert(header.Fields.take(header.Fields.len() as int) =~= header.Fields); assert(r =~= po_header(eb.Config, header));
  loop 1
  pre b0 = buf;
  invariant eb == old_eb && header == old_header && buf == b0.add(cat_of(po_header_field(), header.Fields.take(IDX)))
  begin lemma_cat_step(po_header_field(), header.Fields, IDX);
  end assert(buf =~= b0.add(cat_of(po_header_field(), header.Fields.take(IDX))));

func compile.PoCompiler.compileEntries(c, writer, eb, entries) -> (r)
  requires eb.Config == c.Config
  ensures map_is_nil(c.Config.Highlight) && ((r is Nil && !c.Config.IgnoreErrors) || gw_is_buf(writer.sink)) ==> writer_out.out == writer.out.add(cat_of(po_entry(c.Config), entries.d))
  ensures gw_is_buf(writer.sink) ==> r is Nil
  ensures gw_is_buf(writer_out.sink) == gw_is_buf(writer.sink)
  exit assert(entries.d.take(entries.d.len() as int) =~= entries.d);
  loop 1
  pre assert(writer.out =~= writer.out.add(Seq::empty())); assert(entries.d.take(0) =~= Seq::empty());
  invariant c == old_c && entries == old_entries && eb.Config == c.Config
  invariant gw_is_buf(writer.sink) == gw_is_buf(old_writer.sink)
  invariant map_is_nil(c.Config.Highlight) ==> writer.out == old_writer.out.add(cat_of(po_entry(c.Config), entries.d.take(IDX)))
  begin lemma_cat_step(po_entry(c.Config), entries.d, IDX);
  end if map_is_nil(c.Config.Highlight) { assert(writer.out =~= old_writer.out.add(cat_of(po_entry(c.Config), entries.d.take(IDX)))); }

func compile.PoCompiler.writeHeader(c, writer, entries, eb) -> (r)
  requires c.File is Some && eb.Config == c.Config && entries.d == c.File->0.Entries.d
  ensures entries_out.d == po_without_header(entries.d)
  entry lemma_go_len(entries.d);
  exit let es = entries.d; assert(old_entries.d.take(0) =~= Seq::empty()); assert(es =~= po_without_header(old_entries.d)); assert(writer.out =~= writer.out.add(Seq::empty()));
  ensures ((r is Nil && !c.Config.IgnoreErrors) || gw_is_buf(writer.sink)) ==> writer_out.out == writer.out.add(if po_header_at(entries.d) < 0 { Seq::empty() } else { po_header(c.Config, po_header_of(c.Config, entries.d)) })
  ensures gw_is_buf(writer.sink) ==> r is Nil
  ensures gw_is_buf(writer_out.sink) == gw_is_buf(writer.sink)

func compile.PoCompiler.ToWriter(c, w) -> (r)
  requires c.File is Some
  entry lemma_go_len(c.File->0.Entries.d);
  ensures map_is_nil(c.Config.Highlight) && ((r is Nil && !c.Config.IgnoreErrors) || gw_is_buf(w.sink)) ==> w_out.out == w.out.add(po_document(c.Config, c.File->0.Entries.d))
  ensures gw_is_buf(w.sink) ==> r is Nil
  ensures gw_is_buf(w_out.sink) == gw_is_buf(w.sink)

func compile.PoCompiler.ToString(c) -> (r)
  requires c.File is Some
  ensures map_is_nil(c.Config.Highlight) ==> r == po_document(c.Config, c.File->0.Entries.d)
  exit assert(r =~= Seq::empty().add(r));

func compile.PoCompiler.ToBytes(c) -> (r)
  requires c.File is Some
  ensures map_is_nil(c.Config.Highlight) ==> r == po_document(c.Config, c.File->0.Entries.d)

func compile.PoCompiler.ToWriterWithOptions(c, w, opts) -> (r)
  requires c.File is Some
  ensures c_out == c
  ensures ({ let x = with_compile_poconfig(c.Config, opts); map_is_nil(x.Highlight) && ((r is Nil && !x.IgnoreErrors) || gw_is_buf(w.sink)) ==> w_out.out == w.out.add(po_document(x, c.File->0.Entries.d)) })
  ensures gw_is_buf(w.sink) ==> r is Nil

func compile.PoCompiler.ToStringWithOptions(c, opts) -> (r)
  requires c.File is Some
  ensures c_out == c
  ensures ({ let x = with_compile_poconfig(c.Config, opts); map_is_nil(x.Highlight) ==> r == po_document(x, c.File->0.Entries.d) })

func compile.PoCompiler.ToBytesWithOptions(c, opts) -> (r)
  requires c.File is Some
  ensures c_out == c
  ensures ({ let x = with_compile_poconfig(c.Config, opts); map_is_nil(x.Highlight) ==> r == po_document(x, c.File->0.Entries.d) })

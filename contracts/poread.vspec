# Contracts of the PO reader (C05, C06).

func parse.PoParser.obsoleteLine(p, comment) -> (line, obsolete)
  ensures (line, obsolete) == (match rd_line(rd_prefix(p.Config), comment) { None => (Seq::empty(), false), Some(l) => (l, true) })

func parse.parseLocation(rf) -> (r)
  ensures r == rd_loc(rf)

func parse.parseLocations(s) -> (r)
  ensures r == rd_locs(s)
  exit assert(str_fields(s).take(str_fields(s).len() as int) =~= str_fields(s));
  loop 1
  invariant s == old_s && locations == rd_locs_of(str_fields(s).take(IDX))
  invariant forall|i: int| 0 <= i < IDX ==> rd_loc(#[trigger] str_fields(s)[i]).Line != -1
  end assert(str_fields(s).take(IDX).drop_last() =~= str_fields(s).take(IDX - 1));

func parse.PoParser.parseComments(p, entry, tokens) -> (r)
  requires rd_tokens_ok(tokens)
  ghost e0: Entry = arbitrary()
  ensures r is Nil
  ensures p_out == p
  ensures entry_out == rd_adds(rd_prefix(p.Config), entry, tokens)
  exit assert(tokens.take(tokens.len() as int) =~= tokens);
  loop 1
  pre assert(tokens.take(0) =~= Seq::empty());
  invariant p == old_p && tokens == old_tokens && entry == rd_adds(rd_prefix(p.Config), old_entry, tokens.take(IDX))
  begin lemma_adds_step(rd_prefix(p.Config), old_entry, tokens, IDX);
  loop 2
  pre e0 = entry; assert(RNG.take(0) =~= Seq::empty()); assert(e0.Flags.add(Seq::empty()) =~= e0.Flags);
  invariant entry == (Entry { Flags: e0.Flags.add(rd_flags(RNG.take(IDX))), ..e0 })
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  end assert(entry.Flags =~= e0.Flags.add(rd_flags(RNG.take(IDX))));
  after assert(RNG.take(RNG.len() as int) =~= RNG);

func parse.PoParser.parseObsoleteEntries(p, tokens) -> (r)
  rec_decreases 1int
  entry reveal_with_fuel(opts_parse_poconfig, 5);
  ensures ({ let l = rd_obs(rd_prefix(p.Config), tokens).0; r.d == (if l.len() == 0 { Seq::empty() } else { match rd_parse(rd_sub(rd_cfg(p.Config)), p.filename, str_join(l, b"\n")) { None => Seq::empty(), Some(y) => y } }) })
  ensures ({ let l = rd_obs(rd_prefix(p.Config), tokens).0; (p_out.errors.len() == 0) == (p.errors.len() == 0 && (l.len() > 0 ==> rd_ok(rd_sub(rd_cfg(p.Config)), p.filename, str_join(l, b"\n")))) })
  ensures p_out.Config == p.Config && p_out.filename == p.filename && p_out.originalData == p.originalData
  ensures errs_ok(p.errors) ==> errs_ok(p_out.errors)
  exit assert(tokens.take(tokens.len() as int) =~= tokens);
  loop 1
  pre assert(tokens.take(0) =~= Seq::empty());
  invariant p == old_p && tokens == old_tokens && (lines, comments) == rd_obs(rd_prefix(p.Config), tokens.take(IDX))
  begin lemma_adds_step(rd_prefix(p.Config), zero_Entry(), tokens, IDX);

func parse.PoParser.Parse(p) -> (r)
  rlimit 60
  spinoff
  rec_decreases (if p.Config.ParseObsoletes { 2int } else { 0int })
  entry ax_po_syntax(p.filename, p.originalData);
  ensures p_out.Config == p.Config && p_out.filename == p.filename && p_out.originalData == p.originalData
  ensures (r is None) == (rd_parse(rd_cfg(p.Config), p.filename, p.originalData) is None)
  ensures r is Some ==> r->0.Entries.d == rd_parse(rd_cfg(p.Config), p.filename, p.originalData)->0 && r->0.Name == p.filename && r->0.Entries.own
  ensures (p_out.errors.len() == 0) == rd_ok(rd_cfg(p.Config), p.filename, p.originalData)
  ensures errs_ok(p_out.errors)
  local entries: po.Entries
  local pFile: *util.poFile
  ghost fl: Util_poFile = arbitrary()
  ghost en: Util_entry = arbitrary()
  ghost c: Parse_PoConfig = rd_cfg(p.Config)
  loop 1
  pre fl = pp_util_PoParser(p.filename, p.originalData.add(rd_marker()))->0; assert(RNG =~= fl.Entries.drop_last()); assert(RNG.take(0) =~= Seq::empty()); lemma_no_comments(rd_prefix(p.Config), zero_Entry(), fl.Tokens);
  invariant entries.own && entries.d == rd_entries(c, RNG.take(IDX))
  invariant p.Config == old_p.Config && p.filename == old_p.filename && p.originalData == old_p.originalData && p.errors.len() == 0
  begin en = RNG[IDX - 1]; assert(en == fl.Entries[IDX - 1]); lemma_no_comments(rd_prefix(p.Config), rd_message(c, en), en.Tokens); assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  after assert(RNG.take(RNG.len() as int) =~= RNG);
  loop 2
  pre assert(RNG.take(0) =~= Seq::empty()); 
  invariant newEntry == (Entry { Plurals: rd_forms(RNG.take(IDX)), ..rd_message(c, en) })
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  after assert(RNG.take(RNG.len() as int) =~= RNG); 

func parse.PoParser.ParseWithOptions(p, opts) -> (r)
  ensures p_out.Config == p.Config && p_out.filename == p.filename && p_out.originalData == p.originalData
  ensures ({ let c = rd_cfg(with_parse_poconfig(p.Config, opts)); (r is None) == (rd_parse(c, p.filename, p.originalData) is None) })
  ensures ({ let c = rd_cfg(with_parse_poconfig(p.Config, opts)); r is Some ==> r->0.Entries.d == rd_parse(c, p.filename, p.originalData)->0 && r->0.Name == p.filename })
  ensures ({ let c = rd_cfg(with_parse_poconfig(p.Config, opts)); (p_out.errors.len() == 0) == rd_ok(c, p.filename, p.originalData) })

func parse.PoParser.Errors(p) -> (r)
  ensures r == p.errors

func parse.PoParser.Warnings(p) -> (r)
  ensures r == p.warns

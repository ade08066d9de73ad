# Contracts of concatenation (C09).

func po.MsgcatMergeFiles(files, opts) -> (r)
  requires forall|i: int| 0 <= i < files.len() ==> (#[trigger] files[i]) is Some
  requires cat_total(files, files.len() as int) <= i64::MAX
  ensures r.d == cat_result(cat_opts(cat_defaults(), opts, opts.len() as int), files)
  ensures r.own
  local process: *github.com/Tom5521/gotext-tools/v2/pkg/po.msgcatMergeProcess
  loop 1
  pre lemma_cat_total(files, files.len() as int);
  begin lemma_cat_total(files, files.len() as int);
  invariant process is Some && cat_ok(process->0) && (process->0).config == cat_opts(cat_defaults(), opts, opts.len() as int)
  invariant cat_items(process->0) == cat_files((process->0).config, files, IDX)
  invariant cat_small(cat_items(process->0), cat_total(files, IDX))
  invariant 0 <= cat_total(files, IDX) <= cat_total(files, files.len() as int) <= i64::MAX
  after lemma_cat_drops((process->0).config, cat_items(process->0), (process->0).entriesSlice.d);
  loop 2
  invariant process is Some && cat_ok(process->0) && (process->0).config == cat_opts(cat_defaults(), opts, opts.len() as int)
  invariant cat_items(process->0) == cat_file((process->0).config, cat_files((process->0).config, files, IDX1 - 1), files[IDX1 - 1]->0.Entries.d, files[IDX1 - 1]->0.Name, IDX)
  invariant cat_small(cat_items(process->0), cat_total(files, IDX1 - 1) + IDX)
  begin lemma_msgcat_step((process->0).config, cat_items(process->0), files[IDX1 - 1]->0.Entries.d[IDX - 1], files[IDX1 - 1]->0.Name, cat_total(files, IDX1 - 1) + IDX - 1); assert(cat_total(files, IDX1) == cat_total(files, IDX1 - 1) + files[IDX1 - 1]->0.Entries.d.len());

func po.msgcatMergeProcess.handleEntry(m, entry, filename)
  requires cat_ok(m)
  requires m.entriesSlice.d.len() < i64::MAX
  requires forall|i: int| 0 <= i < cat_items(m).len() ==> (#[trigger] cat_items(m)[i]).n < i64::MAX
  ensures cat_ok(m_out) && m_out.config == m.config
  ensures cat_items(m_out) == cat_step(m.config, cat_items(m), entry, filename)
  entry lemma_cat_found(m, uid(entry)); lemma_cat_at(cat_items(m), uid(entry)); let s = cat_items(m); let i = cat_at(s, uid(entry)); if i >= 0 { assert(s[i].n < i64::MAX); }
  exit assert(cat_items(m_out) =~= cat_step(old_m.config, cat_items(old_m), entry, filename));

func po.msgcatMergeEntry(a, b, fa, fb) -> (r)
  returns cat_join(a, b, fa, fb)

func po.msgcatConflict(a, b) -> (r)
  returns cat_conflict(a, b)

func po.msgcatTranslated(e) -> (r)
  returns cat_translated(e)
  loop 1
  invariant forall|i: int| 0 <= i < IDX ==> (#[trigger] e.Plurals[i]).Str.len() == 0

func po.msgcatMergeFlags(a, b) -> (r)
  returns cat_flags(a, b, b.len() as int)
  local flags: []string
  loop 1
  invariant flags == cat_flags(a, b, IDX)

func po.msgcatMergePlurals(a, b, fa, fb) -> (r)
  returns cat_plurals(a, b, fa, fb)
  local mergedEntries: github.com/Tom5521/gotext-tools/v2/pkg/po.PluralEntries
  entry lemma_go_len(a.Plurals); lemma_go_len(b.Plurals);
  exit assert(r =~= cat_plurals(a, b, fa, fb));
  loop 1
  invariant mergedEntries == Seq::new(IDX as nat, |i: int| cat_form(a.Plurals, b.Plurals, fa, fb, i))
  pre assert(mergedEntries =~= Seq::new(0nat, |i: int| cat_form(a.Plurals, b.Plurals, fa, fb, i)));
  end assert(mergedEntries =~= Seq::new(IDX as nat, |i: int| cat_form(a.Plurals, b.Plurals, fa, fb, i)));

func po.msgcatMergeStrings(a, b, fa, fb) -> (r)
  returns cat_text(a, b, fa, fb)
  exit assert(r =~= cat_text(a, b, fa, fb));

func po.msgcatMergeComments(a, b, fa, fb) -> (r)
  returns cat_comments(a, b, fa, fb)
  exit assert(a.len() == 0 && b.len() == 0 ==> a =~= b); assert(r =~= cat_comments(a, b, fa, fb));

func po.MsgcatMergeConfig.ApplyOption(c, opts)
  ensures c_out == cat_opts(c, opts, opts.len() as int)
  loop 1
  invariant c == cat_opts(old_c, opts, IDX)

func po.DefaultMsgcatMergeConfig(opts) -> (r)
  ensures r == cat_opts(cat_defaults(), opts, opts.len() as int)

func po.MsgcatMergeWithConfig(v) -> (r)
  ensures forall|x: MsgcatMergeConfig| #[trigger] r(x) == v

func po.MsgcatMergeWithLessThan(v) -> (r)
  ensures forall|x: MsgcatMergeConfig| #[trigger] r(x) == (MsgcatMergeConfig { LessThan: v, ..x })

func po.MsgcatMergeWithMoreThan(v) -> (r)
  ensures forall|x: MsgcatMergeConfig| #[trigger] r(x) == (MsgcatMergeConfig { MoreThan: v, ..x })

func po.MsgcatMergeWithUseFirst(v) -> (r)
  ensures forall|x: MsgcatMergeConfig| #[trigger] r(x) == (MsgcatMergeConfig { UseFirst: v, ..x })

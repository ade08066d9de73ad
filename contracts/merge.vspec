# Contracts of merging with a template (C08).

func po.MergeWithConfig(config, def, tpl) -> (r)
  ensures is_merge(config, def.d, tpl.d, r.d)
  exit assert(r.d == merge_result(config, old_def.d, old_tpl.d, nplurals as int));
  local nplurals: int
  local old: github.com/Tom5521/gotext-tools/v2/pkg/po.Entries
  loop 1
  invariant def.own && def.d == merge_olds(config, sv(fv_po_SolveMerge_s(), old_def.d), tpl.d, IDX)
  invariant def.d.len() == RNG.len() && forall|i: int| IDX <= i < RNG.len() ==> #[trigger] def.d[i] == RNG[i]
  loop 2
  pre let s = sv(fv_po_SolveMerge_s(), old_def.d);
  invariant def.own && def.d == merge_news(config, merge_olds(config, sv(fv_po_SolveMerge_s(), old_def.d), tpl.d, sv(fv_po_SolveMerge_s(), old_def.d).len() as int), tpl.d, nplurals as int, IDX)

func po.mergeDef(config, e, def, tpl) -> (r)
  ensures e_out == merge_old(config, e, def.d, tpl.d)
  ensures r ==> e_out == e
  entry lemma_best_ratio(tpl.d, |y: Entry| id_similarity(e, y), tpl.d.len() as int);
  exit assert(e_out == merge_old(config, old_e, def.d, tpl.d));

func po.mergeRef(config, entry, old, def, nplurals) -> (r)
  ensures r == (is_header(entry) || at_key(def.d, uid(entry)) >= 0)
  ensures !r ==> entry_out == merge_new(config, entry, old.d, nplurals as int)
  entry lemma_best_ratio(old.d, |y: Entry| id_similarity(entry, y), old.d.len() as int);
  loop 1
  pre assert(entry.Plurals =~= untranslated(old_entry.ID, 0));
  end assert(entry.Plurals =~= untranslated(old_entry.ID, IDX));
  invariant 0 <= IDX && (IDX <= nplurals || IDX == 0)
  invariant entry == (Entry { Plurals: untranslated(old_entry.ID, IDX), ..old_entry })

func po.mergeEntryStrings(target, source)
  ensures target_out == with_text(target, source)
  exit assert(target_out.Plurals =~= with_text(old_target, source).Plurals);

func po.Merge(def, tpl, options) -> (r)
  ensures is_merge(merge_opts(merge_defaults(), options, options.len() as int), def.d, tpl.d, r.d)

func po.SortMode.SortMethod(mode, entries) -> (r)
  requires entries.own
  ensures r().d == sort_by(mode_order(mode), entries.d) && r().own

func po.Entry.IsHeader(e) -> (r)
  returns is_header(e)

func po.Entry.IsPlural(e) -> (r)
  returns is_plural(e)

func po.Entry.markAsFuzzy(e)
  ensures e_out == as_fuzzy(e)

func po.Entry.markAsObsolete(e)
  ensures e_out == (Entry { Obsolete: true, ..e })

func po.MergeConfig.ApplyOption(c, opts)
  ensures c_out == merge_opts(c, opts, opts.len() as int)
  loop 1
  invariant c == merge_opts(old_c, opts, IDX)

func po.DefaultMergeConfig(opts) -> (r)
  ensures r == merge_opts(merge_defaults(), opts, opts.len() as int)

func po.MergeWithSortMode(v) -> (r)
  ensures forall|x: MergeConfig| #[trigger] r(x) == (MergeConfig { SortMode: v, ..x })

func po.MergeWithSort(v) -> (r)
  ensures forall|x: MergeConfig| #[trigger] r(x) == (MergeConfig { Sort: v, ..x })

func po.MergeWithMergeConfig(v) -> (r)
  ensures forall|x: MergeConfig| #[trigger] r(x) == v

func po.MergeWithFuzzyMatch(v) -> (r)
  ensures forall|x: MergeConfig| #[trigger] r(x) == (MergeConfig { FuzzyMatch: v, ..x })

func po.MergeWithKeepPreviousIDs(v) -> (r)
  ensures forall|x: MergeConfig| #[trigger] r(x) == (MergeConfig { KeepPreviousIDs: v, ..x })

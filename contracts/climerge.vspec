# msgomerge (C18), extracted by go2v/cli.go.

func msgomerge.RunE(args, compendium, compilerCfg, directory, mergeCfg, outputPath, update, fs) -> (err)
  world
  rlimit 60
  spinoff
  hide po_document, rd_ok, rd_parse, rd_cfg, po_rd_settings, po_wr_settings, is_merge, sv
  requires args.len() == 2
  requires update ==> out_at(outputPath) != mg_path(directory, args[0])
  entry broadcast use ax_os_stdout; lemma_po_cli_all(compilerCfg); lemma_po_in(); lemma_open_flags();
  ensures !mg_ok(directory, args, compendium) ==> !(err is Nil) && fs_out == fs
  ensures forall|q: Seq<u8>| q != out_at(outputPath) && !(update && q == mg_path(directory, args[0])) ==> (#[trigger] fs.files.contains_key(q)) == fs_out.files.contains_key(q) && fs.files[q] == fs_out.files[q]
  ensures ({ let x = po_cli(compilerCfg); err is Nil && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> exists|l: Seq<Entry>| #[trigger] is_merge(mergeCfg, mg_in(mg_path(directory, args[0])), mg_ref(directory, args[1], compendium), l) && out_has(fs, fs_out, outputPath, po_document(x, l)) && (update ==> fs_out.files.contains_key(mg_path(directory, args[0])) && fs_out.files[mg_path(directory, args[0])] == po_document(x, l)) })
  exit if err is Nil { assert(is_merge(mergeCfg, mg_in(mg_path(directory, args[0])), mg_ref(directory, args[1], old_compendium), out->0.Entries.d)); }
  loop 1
  invariant fs == old_fs && args == old_args && compendium.len() == old_compendium.len() && RNG == old_compendium
  invariant forall|i: int| 0 <= i < IDX ==> compendium[i] == mg_path(directory, #[trigger] old_compendium[i])
  invariant forall|i: int| IDX <= i < compendium.len() ==> compendium[i] == #[trigger] old_compendium[i]
  loop 2
  pre assert(forall|i: int| 0 <= i < compendium.len() ==> compendium[i] == mg_path(directory, #[trigger] old_compendium[i])); assert(mg_in_ok(mg_path(directory, args[0]))); assert(mg_in_ok(mg_path(directory, args[1])));
  invariant fs == old_fs && ref_ is Some && ref_->0.Entries.own && ref_->0.Entries.d == mg_plus(directory, mg_in(mg_path(directory, args[1])), old_compendium, IDX)
  invariant forall|i: int| 0 <= i < IDX ==> mg_comp_ok(mg_path(directory, #[trigger] old_compendium[i]))
  begin assert(compendium[IDX - 1] == mg_path(directory, old_compendium[IDX - 1]));

func msgomerge.initConfig(args, addLocation, color, compilerCfg, forcePo, mergeCfg, noFuzzyMatching, noLocation, noWrap, outputPath, verbose, stdoutIsTerminal)
  hide pv_compile_DefaultHighlight
  ensures mergeCfg_out == (MergeConfig { FuzzyMatch: !noFuzzyMatching, Sort: true, ..zero_MergeConfig() })
  ensures compilerCfg_out == (Compile_PoConfig { NoLocation: noLocation, AddLocation: addLocation, WordWrap: !noWrap, ForcePo: forcePo, Verbose: verbose, Logger: compilerCfg_out.Logger, Highlight: compilerCfg_out.Highlight, ..zero_Compile_PoConfig() })
  ensures !cli_colour(color, outputPath, stdoutIsTerminal) ==> compilerCfg_out.Highlight == zero_Compile_PoConfig().Highlight

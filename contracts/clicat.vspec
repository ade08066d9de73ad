# msgocat (C18), extracted by go2v/cli.go.

func msgocat.expandArgsWithFiles(args, directory, filesFrom) -> (r, err)
  ensures (err is Nil) == cat_inputs_ok(filesFrom, directory)
  ensures err is Nil ==> r == cat_inputs(args, filesFrom, directory)
  entry lemma_no_lines();
  exit if err is Nil { assert(filesFromContent == cat_list(filesFrom)); assert(directoryContent == (if directory.len() > 0 { cat_dir(directory, os_dir(directory).len() as int) } else { Seq::empty() })); assert(r =~= cat_inputs(old_args, filesFrom, directory)); }
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty());
  invariant filesFromContent == lines_named(RNG.take(IDX))
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  after assert(RNG.take(RNG.len() as int) =~= RNG);
  loop 2
  pre assert(cat_dir(directory, 0) =~= Seq::empty());
  invariant directoryContent == cat_dir(directory, IDX)
  end assert(directoryContent =~= cat_dir(directory, IDX));

func msgocat.run(args, compilerCfg, directory, filesFrom, lang, mergeCfg, output, sortByFile, sortOutput, fs) -> (err)
  world
  rlimit 60
  spinoff
  hide po_document, rd_ok, rd_parse, rd_cfg, po_rd_settings, po_wr_settings
  requires ({ let l = cat_inputs(args, filesFrom, directory); cat_total(cat_ins(l), l.len() as int) <= i64::MAX })
  entry broadcast use ax_os_stdout; lemma_po_cli_all(compilerCfg); lemma_po_in(); lemma_cat_settings(mergeCfg); lemma_open_flags();
  ensures ({ let l = cat_inputs(args, filesFrom, directory); !(cat_inputs_ok(filesFrom, directory) && l.len() > 0 && cat_ins_ok(l)) ==> !(err is Nil) && fs_out == fs })
  ensures fs_else(fs, fs_out, out_at(output))
  ensures ({ let l = cat_inputs(args, filesFrom, directory); let x = po_cli(compilerCfg); err is Nil && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> out_has(fs, fs_out, output, po_document(x, cat_cli(mergeCfg, l, lang, sortOutput, sortByFile))) })
  loop 1
  invariant fs == old_fs && args == cat_inputs(old_args, filesFrom, directory) && files.len() == args.len()
  invariant forall|i: int| 0 <= i < IDX ==> cat_in_ok(#[trigger] args[i])
  invariant forall|i: int| 0 <= i < IDX ==> (#[trigger] files[i]) is Some && files[i]->0.Name == args[i] && files[i]->0.Entries.d == po_arg_entries(true, b"-", args[i])
  end assert(entries_valid(po_arg_entries(true, b"-", args[IDX - 1]))); assert(po_arg_ok(true, b"-", args[IDX - 1])); assert(cat_in_ok(args[IDX - 1]));
  after assert(cat_read(files, args)); lemma_cat_read(mergeCfg, files, args); assert(cat_ins_ok(args));

func msgocat.initCfg(args, addLocation, color, compilerCfg, lessThan, mergeCfg, moreThan, noLocation, noWrap, output, unique, useFirst, stdoutIsTerminal) -> (r)
  hide pv_compile_TestHighlight
  ensures (r is Nil) == (lessThan > 1)
  ensures r is Nil ==> mergeCfg_out == (MsgcatMergeConfig { LessThan: if unique { 2 } else { lessThan }, MoreThan: moreThan, UseFirst: useFirst })

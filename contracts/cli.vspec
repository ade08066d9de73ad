# The command line programs (C18), extracted by go2v/cli.go.

func msgounfmt.RunE(args, compilerCfg, ignoreErrors, output, sortOutput, fs) -> (r)
  world
  rlimit 60
  spinoff
  hide po_document, mo_read, mo_order, po_wr_settings
  entry broadcast use ax_os_stdout; lemma_po_cli_all(compilerCfg);
  ensures !mo_args_ok(args, ignoreErrors) ==> !(r is Nil) && fs_out == fs
  ensures fs_else(fs, fs_out, out_at(output))
  ensures ({ let x = po_cli(compilerCfg); let l = mo_args_entries(args); r is Nil && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> out_has(fs, fs_out, output, po_document(x, if sortOutput { sort_by(fv_po_CompareEntryByID_s(), l) } else { l })) })
  exit assert(args.take(args.len() as int) =~= args);
  loop 1
  pre assert(args.take(0) =~= Seq::empty());
  invariant fs == old_fs && args == old_args
  invariant file is Some && file->0.Entries.own && file->0.Entries.d == mo_args_entries(args.take(IDX))
  invariant forall|i: int| 0 <= i < IDX ==> mo_arg_ok(#[trigger] args[i], ignoreErrors)
  begin assert(args.take(IDX).drop_last() =~= args.take(IDX - 1));

func msgofmt.RunE(args, compilerCfg, directory, output, fs) -> (err)
  world
  rlimit 60
  spinoff
  hide po_args_entries, mo_file, rd_ok, rd_parse, rd_cfg, po_rd_settings, mo_wr_settings
  requires directory.len() == 0
  requires po_args_entries(false, b"stdin", args).len() < 0xfff_fff0
  entry broadcast use {ax_os_stdout, lemma_report_nn}; lemma_mo_cli_all(compilerCfg); lemma_po_in();
  ensures !(po_args_ok(false, b"stdin", args) && entries_valid(po_args_entries(false, b"stdin", args))) ==> !(err is Nil) && fs_out == fs
  ensures fs_else(fs, fs_out, out_at(output))
  ensures ({ let x = mo_cli(compilerCfg); err is Nil && !x.IgnoreErrors ==> out_has(fs, fs_out, output, mo_file(x, po_args_entries(false, b"stdin", args))) })
  ensures !(output == b"-") && !compilerCfg.Force && fs.files.contains_key(output) ==> fs_out == fs
  loop 1
  pre assert(false);
  loop 4
  pre assert(args.take(0) =~= Seq::empty()); lemma_po_step(false, b"stdin", args, 0);
  invariant fs == old_fs && args == old_args
  invariant allEntries.own && allEntries.d == po_args_entries(false, b"stdin", args.take(IDX))
  invariant forall|i: int| 0 <= i < IDX ==> po_arg_ok(false, b"stdin", #[trigger] args[i])
  begin lemma_po_step(false, b"stdin", args, IDX);
  end assert(po_arg_ok(false, b"stdin", args[IDX - 1])); assert(poFile->0.Entries.d == po_arg_entries(false, b"stdin", args[IDX - 1]));
  after assert(args.take(args.len() as int) =~= args); assert(po_args_ok(false, b"stdin", args));

func msgounfmt.initCfg(args, color, compilerCfg, forcePo, noWrap, output, stdoutIsTerminal) -> (r)
  hide pv_compile_DefaultHighlight
  ensures r is Nil
  ensures compilerCfg_out.WordWrap == !noWrap && compilerCfg_out.ForcePo == forcePo
  ensures !cli_colour(color, output, stdoutIsTerminal) ==> compilerCfg_out.Highlight == compilerCfg.Highlight

func msgofmt.initCfg(compilerCfg, endianness, force, noHashTable, verbose)
  ensures compilerCfg_out == (Compile_MoConfig { Endianness: if endianness == b"big" { 2 } else if endianness == b"little" { 1 } else { 0 }, Force: force, HashTable: !noHashTable, Verbose: verbose, Logger: compilerCfg_out.Logger, ..compilerCfg })

# xgotext (C18), extracted by go2v/cli.go.

func xgotext.readFilesFrom(path) -> (r, err)
  ensures (err is Nil) == (os_read_err(path) is Nil)
  ensures err is Nil ==> r == lines_named(split_byte(os_data(path), 10))
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty());
  invariant files == lines_named(RNG.take(IDX))
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  after assert(RNG.take(RNG.len() as int) =~= RNG);

func xgotext.processOutput(defaultDomain, forcePo, joinExisting, output, outputDir, fs) -> (f, err)
  world
  entry broadcast use ax_os_stdout; lemma_open_flags(); ax_fs_handles();
  ensures output == b"-" ==> err is Nil && f == os_stdout() && fs_out == fs
  ensures ({ let p = xg_out(outputDir, output, defaultDomain); fs_else(fs, fs_out, p) })
  ensures ({ let p = xg_out(outputDir, output, defaultDomain); !(output == b"-") && err is Nil ==> f is Some && os_path(f) == p && fs_out.files.contains_key(p) })
  ensures ({ let p = xg_out(outputDir, output, defaultDomain); !(output == b"-") && err is Nil && joinExisting ==> os_name(f) == p && (gr_err(gr_file(f)) is Nil ==> gr_data(gr_file(f)) == xg_held(fs, p)) })
  ensures ({ let p = xg_out(outputDir, output, defaultDomain); !(output == b"-") && err is Nil && !joinExisting ==> os_at_end(f) && fs_out.files[p].len() == 0 })
  ensures ({ let p = xg_out(outputDir, output, defaultDomain); joinExisting && fs.files.contains_key(p) ==> fs_out.files =~= fs.files })

func xgotext.initConfig(CompilerCfg, GoParserCfg, HeadersCfg, PoParserCfg, addLocation, color, copyrightHolder, exclude, extractAll, forcePo, foreignUser, lang, logger, msgidBugsAddress, msgstrPrefix, msgstrSuffix, noLocation, nplurals, omitHeader, output, packageName, packageVersion, title, verbose, wordWrap, stdoutIsTerminal)
  hide pv_compile_DefaultHighlight
  ensures HeadersCfg_out == (HeaderConfig { Nplurals: nplurals, ProjectIDVersion: packageVersion, ReportMsgidBugsTo: msgidBugsAddress, Language: lang, ..HeadersCfg })
  ensures CompilerCfg_out == (Compile_PoConfig { ForcePo: forcePo, OmitHeader: omitHeader, PackageName: packageName, CopyrightHolder: copyrightHolder, ForeignUser: foreignUser, Title: title, NoLocation: noLocation, AddLocation: addLocation, MsgstrPrefix: msgstrPrefix, MsgstrSuffix: msgstrSuffix, Verbose: verbose, HeaderComments: true, HeaderFields: true, WordWrap: wordWrap, Logger: logger, Highlight: CompilerCfg_out.Highlight, ..zero_Compile_PoConfig() })
  ensures !cli_colour(color, output, stdoutIsTerminal) ==> CompilerCfg_out.Highlight == zero_Compile_PoConfig().Highlight
  ensures GoParserCfg_out.CleanDuplicates && GoParserCfg_out.ExtractAll == extractAll && GoParserCfg_out.Exclude == exclude && !GoParserCfg_out.NoHeader && GoParserCfg_out.CustomHeader is None
  ensures GoParserCfg_out.HeaderConfig == Some(HeadersCfg_out)
  ensures PoParserCfg_out == (Parse_PoConfig { Logger: logger, ..zero_Parse_PoConfig() })

func xgotext.readFiles(paths, exclude, logger) -> (r, err)
  ensures err is Nil ==> walks_ok(paths) && opened(r, paths_files(exclude, Map::empty(), paths).0)
  exit assert(paths.take(paths.len() as int) =~= paths);
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty());
  invariant RNG == paths
  invariant seenFiles == paths_files(exclude, Map::empty(), RNG.take(IDX)).1
  invariant opened(files, paths_files(exclude, Map::empty(), RNG.take(IDX)).0)
  invariant forall|i: int| 0 <= i < IDX ==> walk_ok(#[trigger] kr_walk(paths[i]))
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  loop 2
  pre assert(kr_walk(path).take(0) =~= Seq::empty()); assert(kr_walk(path).skip(0) =~= kr_walk(path)); lemma_met0(exclude, Map::empty(), RNG1.take(IDX1 - 1));
  invariant walker is Some && walker->0.todo.len() <= kr_walk(path).len() && path == RNG1[IDX1 - 1]
  invariant walker->0.todo == kr_walk(path).skip(kr_walk(path).len() - walker->0.todo.len())
  invariant seenFiles == met(exclude, Map::empty(), RNG1.take(IDX1 - 1), kr_walk(path).take(kr_walk(path).len() - walker->0.todo.len())).1
  invariant opened(files, met(exclude, Map::empty(), RNG1.take(IDX1 - 1), kr_walk(path).take(kr_walk(path).len() - walker->0.todo.len())).0)
  invariant forall|j: int| 0 <= j < kr_walk(path).len() - walker->0.todo.len() ==> (#[trigger] kr_walk(path)[j]).err is Nil
  loop_ensures walker->0.todo.len() == 0
  decreases walker->0.todo.len()
  begin if walker->0.todo.len() > 0 { let k = kr_walk(path).len() - walker->0.todo.len(); assert(kr_walk(path).take(k + 1).drop_last() =~= kr_walk(path).take(k)); assert(kr_walk(path).skip(k).skip(1) =~= kr_walk(path).skip(k + 1)); lemma_met(exclude, Map::empty(), RNG1.take(IDX1 - 1), kr_walk(path).take(k + 1)); }
  after assert(kr_walk(path).take(kr_walk(path).len() as int) =~= kr_walk(path));

func xgotext.processInput(inputFiles, GoParserCfg, directory, exclude, excludeFile, filesFrom, logger) -> (r, err)
  entry lemma_go_cli(GoParserCfg); lemma_go_len(inputFiles); lemma_go_len(os_data(filesFrom)); lemma_few_inputs(filesFrom);
  ensures err is Nil ==> (filesFrom.len() > 0 ==> os_read_err(filesFrom) is Nil) && (excludeFile.len() > 0 ==> os_read_err(excludeFile) is Nil)
  ensures err is Nil ==> exclude_out == xg_omitted(exclude, excludeFile, directory)
  ensures err is Nil ==> r is Some && r->0.Config == GoParserCfg && os_loaded(GoParserCfg, r->0.files, xg_files(xg_inputs(inputFiles, filesFrom, directory), exclude_out))
  ensures err is Nil ==> walks_ok(xg_paths(xg_inputs(inputFiles, filesFrom, directory)))
  loop 1
  invariant RNG.len() == inputFiles.len()
  invariant forall|i: int| 0 <= i < IDX ==> inputFiles[i] == fp_join(seq![directory, #[trigger] RNG[i]])
  invariant forall|i: int| IDX <= i < inputFiles.len() ==> inputFiles[i] == #[trigger] RNG[i]
  after assert(inputFiles =~= xg_inputs(old_inputFiles, filesFrom, directory));
  loop 2
  invariant RNG.len() == exclude.len()
  invariant forall|i: int| 0 <= i < IDX ==> exclude[i] == fp_join(seq![directory, #[trigger] RNG[i]])
  invariant forall|i: int| IDX <= i < exclude.len() ==> exclude[i] == #[trigger] RNG[i]
  after assert(exclude =~= xg_omitted(old_exclude, excludeFile, directory));

func xgotext.join(newParse, rawfile, CompilerCfg, PoParserCfg, fs) -> (r)
  world
  spinoff
  hide po_document, rd_ok, rd_parse, rd_cfg, po_rd_settings, po_wr_settings, is_merge, sv
  requires rawfile is Some
  requires forall|i: int| 0 <= i < newParse.files.len() ==> file_loaded(#[trigger] newParse.files[i])
  entry lemma_po_cli_all(CompilerCfg); lemma_po_in_all(PoParserCfg); lemma_open_flags(); lemma_po_in();
  ensures fs_else(fs, fs_out, os_name(rawfile))
  ensures ({ let d = gr_data(gr_file(rawfile)); let n = os_name(rawfile); !(gr_err(gr_file(rawfile)) is Nil && rd_ok(rd_cfg(PoParserCfg), n, d)) ==> !(r is Nil) && fs_out == fs })
  ensures ({ let x = po_cli(CompilerCfg); let d = gr_data(gr_file(rawfile)); let n = os_name(rawfile); r is Nil && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> exists|l: Seq<Entry>| #[trigger] is_merge(merge_defaults(), rd_parse(rd_cfg(PoParserCfg), n, d)->0, go_messages(newParse.Config, newParse.files), l) && fs_out.files.contains_key(n) && fs_out.files[n] == po_document(x, l) })

func xgotext.RunE(inputfiles, CompilerCfg, GoParserCfg, PoParserCfg, defaultDomain, directory, exclude, excludeFile, filesFrom, forcePo, joinExisting, logger, output, outputDir, fs) -> (err)
  world
  spinoff
  hide po_document, rd_ok, rd_parse, rd_cfg, is_merge, os_catalogue, go_messages, xg_out, os_loaded
  requires xg_calls_ok(xg_files(xg_inputs(inputfiles, filesFrom, directory), xg_omitted(exclude, excludeFile, directory)))
  requires joinExisting ==> output != b"-"
  entry broadcast use ax_os_stdout; lemma_open_flags(); lemma_po_cli_all(CompilerCfg); lemma_xg_reads(); lemma_files_same(); ax_fs_handles();
  ensures fs_else(fs, fs_out, xg_place(outputDir, output, defaultDomain))
  ensures err is Nil ==> (filesFrom.len() > 0 ==> os_read_err(filesFrom) is Nil) && (excludeFile.len() > 0 ==> os_read_err(excludeFile) is Nil) && walks_ok(xg_paths(xg_inputs(inputfiles, filesFrom, directory)))
  ensures ({ let x = po_cli(CompilerCfg); let l = os_catalogue(GoParserCfg, xg_files(xg_inputs(inputfiles, filesFrom, directory), xg_omitted(exclude, excludeFile, directory))); err is Nil && !joinExisting && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> xg_has(fs, fs_out, output, xg_out(outputDir, output, defaultDomain), po_document(x, l)) })
  ensures ({ let p = xg_out(outputDir, output, defaultDomain); joinExisting && fs.files.contains_key(p) && !(rd_ok(rd_cfg(PoParserCfg), p, fs.files[p])) ==> !(err is Nil) && fs_out.files =~= fs.files })
  ensures ({ let x = po_cli(CompilerCfg); let p = xg_out(outputDir, output, defaultDomain); let l = os_catalogue(GoParserCfg, xg_files(xg_inputs(inputfiles, filesFrom, directory), xg_omitted(exclude, excludeFile, directory))); err is Nil && joinExisting && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> exists|m: Seq<Entry>| #[trigger] is_merge(merge_defaults(), rd_parse(rd_cfg(PoParserCfg), p, xg_held(fs, p))->0, l, m) && fs_out.files.contains_key(p) && fs_out.files[p] == po_document(x, m) })

# Contracts of the extraction of messages from Go sources (C11).

func goparse.File.isGotextCall(f, n) -> (r)
  requires ast_ok(n)
  ensures r == tr_call(f.pkgNames, n)

func util.FindLineFromReader(r, index) -> (line)
  rlimit 40
  spinoff
  ensures r_out.data == r.data
  ensures line == line_at(r.data, index as int)
  loop 1
  pre lemma_go_len(r.data); lemma_newlines(r.data); assert(r.data.take(r.data.len() as int) =~= r.data); assert(r.data.take(0) =~= Seq::empty());
  invariant r.data == old_r.data && r.data.len() < 0x1_0000_0000_0000
  invariant 0 <= pos <= r.data.len()
  invariant err == (if pos < r.data.len() { GoErr::Nil } else { io_EOF() })
  invariant_except_break r.pos == (if pos < r.data.len() { pos + 1 } else { r.data.len() as int }) && (pos < r.data.len() ==> b == r.data[pos as int])
  invariant_except_break count == newlines(r.data.take(pos as int)) && !(0 <= index < pos)
  loop_ensures r.data == old_r.data && r.data.len() < 0x1_0000_0000_0000 && 0 <= count <= r.data.len() && count as int + 1 == line_at(r.data, index as int)
  decreases r.data.len() - pos
  begin lemma_newlines(r.data.take(pos as int)); lemma_newlines(r.data.take(pos as int + 1)); lemma_newlines(r.data); assert(r.data.take(pos as int + 1).drop_last() =~= r.data.take(pos as int));

func goparse.File.extractArg(f, index, call) -> (a)
  requires f.config is Some
  requires call is Some && arg_ok(call->0, index as int)
  ensures f_out == f
  ensures a.err is Nil
  ensures a.valid == (arg_lit(call->0, index as int) is Some)
  ensures a.str_ == lit_text(arg_lit(call->0, index as int))
  ensures a.lit == arg_lit(call->0, index as int)
  ensures a.valid ==> a.pos == a.lit->0.ValuePos

func goparse.File.basicLitToEntry(f, n) -> (e, err)
  requires f.config is Some && f.reader is Some && n is Some
  requires lit_ok(n->0) && n->0.Kind == 9 && n->0.ValuePos > 0
  ensures err is Nil
  ensures e == text_entry(f.name, f.reader->0.data, n->0)
  ensures f_out == file_moved(f, f_out)

func goparse.File.processPoCall(f, call) -> (entry, valid, err)
  requires f.config is Some && f.reader is Some && call is Some
  requires call->0.Fun is Sel && (call->0.Fun->Sel_0).Sel is Some && tr_method(call_name(call->0)) is Some
  requires call_ok(call->0)
  ensures err is Nil
  ensures valid == (arg_lit(call->0, tr_method(call_name(call->0))->0.id) is Some)
  ensures valid ==> entry == call_entry(f.name, f.reader->0.data, call->0)
  ensures f_out == Goparse_File { seenNodes: if valid { add_lits(f.seenNodes, call->0) } else { f.seenNodes }, ..file_moved(f, f_out) }
  ghost m: TrMethod = tr_method(call_name(old_call->0))->0
  loop 1
  invariant RNG.len() == 3 && call == old_call && f == file_moved(old_f, f) && f.reader is Some && f.config is Some
  invariant forall|i: int| 0 <= i < 3 ==> (#[trigger] RNG[i]).err is Nil && RNG[i].valid == (RNG[i].lit is Some) && RNG[i].str_ == lit_text(RNG[i].lit) && (RNG[i].valid ==> RNG[i].pos == RNG[i].lit->0.ValuePos)
  invariant RNG[0].lit == arg_lit(call->0, m.id) && RNG[1].lit == arg_lit(call->0, m.context) && RNG[2].lit == arg_lit(call->0, m.plural)
  invariant err is Nil
  invariant IDX == 0 ==> entry == zero_Entry()
  invariant IDX > 0 ==> valid == RNG[0].valid && (valid ==> entry == Entry { Context: entry.Context, Plural: entry.Plural, ..text_entry(f.name, f.reader->0.data, RNG[0].lit->0) })
  invariant IDX > 1 ==> entry.Context == RNG[1].str_
  invariant IDX > 2 ==> entry.Plural == RNG[2].str_
  end if IDX == 1 && valid { assert(entry.Locations =~= text_entry(f.name, f.reader->0.data, RNG[0].lit->0).Locations); }
  loop 2
  invariant RNG.len() == 3 && f == (Goparse_File { seenNodes: f.seenNodes, ..file_moved(old_f, f) })
  invariant f.seenNodes == (if IDX == 0 { old_f.seenNodes } else if IDX == 1 { add_lit(old_f.seenNodes, RNG[0].lit) } else if IDX == 2 { add_lit(add_lit(old_f.seenNodes, RNG[0].lit), RNG[1].lit) } else { add_lit(add_lit(add_lit(old_f.seenNodes, RNG[0].lit), RNG[1].lit), RNG[2].lit) })

func goparse.File.processNode(f, n) -> (entries, errs)
  requires f.config is Some && f.reader is Some && node_ok(f.pkgNames, n)
  ensures errs.len() == 0
  ensures entries.d == ex_node(ex_ctx(f), f.seenNodes, n).0
  ensures f_out == Goparse_File { seenNodes: ex_node(ex_ctx(f), f.seenNodes, n).1, ..file_moved(f, f_out) }

func goparse.File.determinePackageInfo(f)
  requires f.file is Some && forall|i: int| 0 <= i < f.file->0.Imports.len() ==> import_ok(#[trigger] f.file->0.Imports[i])
  ensures f_out == Goparse_File { pkgNames: import_names(f.file->0.Imports), hasGotext: import_names(f.file->0.Imports).len() > 0, ..f }
  exit assert(f.file->0.Imports.take(f.file->0.Imports.len() as int) =~= f.file->0.Imports);
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty());
  invariant RNG == old_f.file->0.Imports
  invariant f == (Goparse_File { pkgNames: import_names(RNG.take(IDX)), hasGotext: import_names(RNG.take(IDX)).len() > 0, ..old_f })
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1)); assert(import_ok(RNG[IDX - 1]));

func goparse.File.Entries(f) -> (entries)
  requires f.config is Some && f.reader is Some && f.file is Some && (f.pkgNames.len() > 0 ==> f.hasGotext)
  requires forall|i: int| 0 <= i < ast_walk(ast_file_node(f.file->0)).len() ==> node_ok(f.pkgNames, #[trigger] ast_walk(ast_file_node(f.file->0))[i])
  ensures entries.d == ex_walk(ex_ctx(f), ast_walk(ast_file_node(f.file->0))).0
  ensures f_out.errors.len() == 0
  ensures f_out == Goparse_File { seenNodes: f_out.seenNodes, errors: f_out.errors, ..file_moved(f, f_out) }
  entry lemma_no_names(ex_ctx(f), ast_walk(ast_file_node(f.file->0)));
  exit assert(ast_walk(ast_file_node(f.file->0)).take(ast_walk(ast_file_node(f.file->0)).len() as int) =~= ast_walk(ast_file_node(f.file->0)));
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty());
  invariant RNG == ast_walk(ast_file_node(old_f.file->0)) && f.errors.len() == 0
  invariant f == (Goparse_File { seenNodes: f.seenNodes, errors: f.errors, ..file_moved(old_f, f) })
  invariant (entries.d, f.seenNodes) == ex_walk(ex_ctx(f), RNG.take(IDX))
  invariant entries.cf || entries.own
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1)); assert(node_ok(f.pkgNames, RNG[IDX - 1]));

func goparse.NewFileFromBytes(b, name, config) -> (r, err)
  entry if go_parse_file_err(name, b) is Nil { ax_tree_shape(name, b); } assert(b.subrange(0, b.len() as int) =~= b); if b.len() == 0 { assert(b =~= Seq::empty()); }
  ensures (err is Nil) == (go_parse_file_err(name, b) is Nil)
  ensures err is Nil ==> r is Some && file_is(r->0, Some(config), name, b)

func goparse.NewFile(b, name, config) -> (r, err)
  ensures (err is Nil) == (gr_err(b) is Nil && go_parse_file_err(name, gr_data(b)) is Nil)
  ensures err is Nil ==> r is Some && file_is(r->0, Some(config), name, gr_data(b))

func goparse.NewFileFromPath(path, config) -> (r, err)
  ensures (err is Nil) == (os_open_err(path) is Nil && gr_err(gr_file(os_open(path))) is Nil && go_parse_file_err(path, gr_data(gr_file(os_open(path)))) is Nil)
  ensures err is Nil ==> r is Some && file_is(r->0, Some(config), path, gr_data(gr_file(os_open(path))))

func goparse.NewParserFromBytes(b, name, options) -> (r, err)
  ensures (err is Nil) == (go_parse_file_err(name, b) is Nil)
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && r->0.files.len() == 1 && r->0.files[0] is Some && file_is(r->0.files[0]->0, Some(r->0.Config), name, b)

func goparse.NewParserFromString(s, name, options) -> (r, err)
  ensures (err is Nil) == (go_parse_file_err(name, s) is Nil)
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && r->0.files.len() == 1 && r->0.files[0] is Some && file_is(r->0.files[0]->0, Some(r->0.Config), name, s)

func goparse.NewParserFromReader(rd, name, options) -> (r, err)
  ensures (err is Nil) == (gr_err(rd) is Nil && go_parse_file_err(name, gr_data(rd)) is Nil)
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && r->0.files.len() == 1 && r->0.files[0] is Some && file_is(r->0.files[0]->0, Some(r->0.Config), name, gr_data(rd))

func goparse.Parser.Parse(p) -> (file)
  requires forall|i: int| 0 <= i < p.files.len() ==> file_loaded(#[trigger] p.files[i])
  assumes forall|i: int| 0 <= i < p.files.len() && p.files[i] is Some ==> (#[trigger] p.files[i])->0.config == Some(p.Config)
  ensures p_out.Config == p.Config
  ensures p_out.errors.len() == 0
  ensures file is Some && file->0.Name.len() == 0 && file->0.Entries.d == go_messages(p.Config, p.files)
  ensures files_as(p.files, p_out.files)
  exit assert(old_p.files.take(old_p.files.len() as int) =~= old_p.files);
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty()); assert(file->0.Entries.d =~= go_header(p.Config).add(files_messages(p.Config, RNG.take(0))));
  invariant RNG == old_p.files && p == (Goparse_Parser { files: p.files, errors: p.errors, ..old_p }) && p.errors.len() == 0
  invariant p.files.len() == RNG.len() && forall|j: int| IDX <= j < RNG.len() ==> p.files[j] == RNG[j]
  invariant files_as(RNG, p.files)
  invariant file is Some && file->0.Name.len() == 0 && (file->0.Entries.cf || file->0.Entries.own)
  invariant file->0.Entries.d == go_header(p.Config).add(files_messages(p.Config, RNG.take(IDX)))
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1)); assert(file_loaded(RNG[IDX - 1])); ax_tree_shape(RNG[IDX - 1]->0.name, RNG[IDX - 1]->0.reader->0.data);
  end assert(file->0.Entries.d =~= go_header(p.Config).add(files_messages(p.Config, RNG.take(IDX))));

func goparse.DefaultConfig(opts) -> (r)
  ensures r == go_settings(opts)
  local c: Goparse_Config
  loop 1
  invariant c == opts_goparse_config(Goparse_Config { Logger: Some(zero_GoLogger()), CleanDuplicates: true, ..zero_Goparse_Config() }, opts, IDX)

func goparse.FromBytes(b, name, opts) -> (file, err)
  requires go_parse_file_err(name, b) is Nil ==> calls_ok(name, b)
  ensures (err is Nil) == (go_parse_file_err(name, b) is Nil)
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == source_messages(go_settings(opts), name, b)
  entry assert forall|l: Seq<Option<Goparse_File>>| l.len() == 1 implies #[trigger] go_messages(go_settings(opts), l) == source_messages(go_settings(opts), l[0]->0.name, l[0]->0.reader->0.data) by { lemma_one_file(go_settings(opts), l); };

func goparse.FromString(s, name, opts) -> (file, err)
  requires go_parse_file_err(name, s) is Nil ==> calls_ok(name, s)
  ensures (err is Nil) == (go_parse_file_err(name, s) is Nil)
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == source_messages(go_settings(opts), name, s)
  entry assert forall|l: Seq<Option<Goparse_File>>| l.len() == 1 implies #[trigger] go_messages(go_settings(opts), l) == source_messages(go_settings(opts), l[0]->0.name, l[0]->0.reader->0.data) by { lemma_one_file(go_settings(opts), l); };

func goparse.FromReader(rd, name, opts) -> (file, err)
  requires gr_err(rd) is Nil && go_parse_file_err(name, gr_data(rd)) is Nil ==> calls_ok(name, gr_data(rd))
  ensures (err is Nil) == (gr_err(rd) is Nil && go_parse_file_err(name, gr_data(rd)) is Nil)
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == source_messages(go_settings(opts), name, gr_data(rd))
  entry assert forall|l: Seq<Option<Goparse_File>>| l.len() == 1 implies #[trigger] go_messages(go_settings(opts), l) == source_messages(go_settings(opts), l[0]->0.name, l[0]->0.reader->0.data) by { lemma_one_file(go_settings(opts), l); };

func goparse.NewParserFromFiles(files, options) -> (r, err)
  ensures (err is Nil) == (forall|i: int| 0 <= i < files.len() ==> os_file_ok(#[trigger] files[i]))
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && os_loaded(r->0.Config, r->0.files, files)
  loop 1
  invariant RNG == files && p is Some && p->0.Config == go_settings(options) && p->0.files.len() == IDX
  invariant forall|i: int| 0 <= i < IDX ==> os_file_ok(#[trigger] files[i])
  invariant forall|i: int| 0 <= i < IDX ==> (#[trigger] p->0.files[i]) is Some && file_is(p->0.files[i]->0, Some(p->0.Config), os_name(files[i]), gr_data(gr_file(files[i])))

func goparse.NewParserFromFile(file, options) -> (r, err)
  ensures (err is Nil) == os_file_ok(file)
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && os_loaded(r->0.Config, r->0.files, seq![file])
  entry assert(seq![file][0] == file);

func goparse.FromFiles(files, opts) -> (file, err)
  requires forall|i: int| 0 <= i < files.len() && os_file_ok(#[trigger] files[i]) ==> calls_ok(os_name(files[i]), gr_data(gr_file(files[i])))
  ensures (err is Nil) == (forall|i: int| 0 <= i < files.len() ==> os_file_ok(#[trigger] files[i]))
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == os_catalogue(go_settings(opts), files)
  entry assert forall|l: Seq<Option<Goparse_File>>| #[trigger] os_loaded(go_settings(opts), l, files) implies go_messages(go_settings(opts), l) == os_catalogue(go_settings(opts), files) by { lemma_os_messages(go_settings(opts), l, files); };

func goparse.FromFile(f, opts) -> (file, err)
  requires os_file_ok(f) ==> calls_ok(os_name(f), gr_data(gr_file(f)))
  ensures (err is Nil) == os_file_ok(f)
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == os_catalogue(go_settings(opts), seq![f])
  entry assert forall|l: Seq<Option<Goparse_File>>| #[trigger] os_loaded(go_settings(opts), l, seq![f]) implies go_messages(go_settings(opts), l) == os_catalogue(go_settings(opts), seq![f]) by { lemma_os_messages(go_settings(opts), l, seq![f]); }; assert(seq![f][0] == f);

func util.isExcludedPath(path, exclude) -> (r)
  ensures r == excluded_path(path, exclude)
  entry broadcast use lemma_first_index_ext; let g = |s: Seq<u8>| path_abs(s) == path_abs(path) && path_abs_err(s) is Nil && path_abs_err(path) is Nil; lemma_first_index(exclude, g, 0); assert((first_index(exclude, g, 0) >= 0) == excluded_path(path, exclude)) by { if excluded_path(path, exclude) { let i = choose|i: int| 0 <= i < exclude.len() && path_abs(#[trigger] exclude[i]) == path_abs(path) && path_abs_err(exclude[i]) is Nil && path_abs_err(path) is Nil; assert(g(exclude[i])); } if first_index(exclude, g, 0) >= 0 { let j = first_index(exclude, g, 0); assert(g(exclude[j as int])); } };

func util.ShouldSkipFile(w, excluded, seen, logger) -> (r)
  ensures r == skip_item(w.cur, excluded, seen)
  ensures seen_out == seen_after(w.cur, seen)

func goparse.Parser.appendFiles(p, files) -> (err)
  ensures err is Nil ==> p_out.Config == p.Config && p_out.errors == p.errors
  ensures err is Nil ==> p_out.seen == paths_files(p.Config.Exclude, p.seen, files).1
  ensures err is Nil ==> appended(p.Config, p.files, p_out.files, paths_files(p.Config.Exclude, p.seen, files).0)
  ensures err is Nil ==> forall|i: int| 0 <= i < files.len() ==> walk_ok(#[trigger] kr_walk(files[i]))
  exit assert(files.take(files.len() as int) =~= files);
  loop 1
  pre assert(RNG.take(0) =~= Seq::empty()); assert(p.files =~= old_p.files);
  invariant RNG == old_files && p == (Goparse_Parser { files: p.files, seen: p.seen, ..old_p })
  invariant p.seen == paths_files(p.Config.Exclude, old_p.seen, RNG.take(IDX)).1
  invariant appended(p.Config, old_p.files, p.files, paths_files(p.Config.Exclude, old_p.seen, RNG.take(IDX)).0)
  invariant forall|i: int| 0 <= i < IDX ==> walk_ok(#[trigger] kr_walk(files[i]))
  begin assert(RNG.take(IDX).drop_last() =~= RNG.take(IDX - 1));
  loop 2
  pre assert(kr_walk(file).take(0) =~= Seq::empty()); assert(kr_walk(file).skip(0) =~= kr_walk(file)); lemma_met0(p.Config.Exclude, old_p.seen, RNG1.take(IDX1 - 1));
  invariant walker is Some && walker->0.todo.len() <= kr_walk(file).len() && file == RNG1[IDX1 - 1]
  invariant walker->0.todo == kr_walk(file).skip(kr_walk(file).len() - walker->0.todo.len())
  invariant p == (Goparse_Parser { files: p.files, seen: p.seen, ..old_p })
  invariant p.seen == met(p.Config.Exclude, old_p.seen, RNG1.take(IDX1 - 1), kr_walk(file).take(kr_walk(file).len() - walker->0.todo.len())).1
  invariant appended(p.Config, old_p.files, p.files, met(p.Config.Exclude, old_p.seen, RNG1.take(IDX1 - 1), kr_walk(file).take(kr_walk(file).len() - walker->0.todo.len())).0)
  invariant forall|j: int| 0 <= j < kr_walk(file).len() - walker->0.todo.len() ==> (#[trigger] kr_walk(file)[j]).err is Nil
  loop_ensures walker->0.todo.len() == 0
  decreases walker->0.todo.len()
  begin if walker->0.todo.len() > 0 { let k = kr_walk(file).len() - walker->0.todo.len(); assert(kr_walk(file).take(k + 1).drop_last() =~= kr_walk(file).take(k)); assert(kr_walk(file).skip(k).skip(1) =~= kr_walk(file).skip(k + 1)); lemma_met(p.Config.Exclude, old_p.seen, RNG1.take(IDX1 - 1), kr_walk(file).take(k + 1)); }
  after assert(kr_walk(file).take(kr_walk(file).len() as int) =~= kr_walk(file));

func goparse.NewParser(path, options) -> (r, err)
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && walks_ok(seq![path])
  ensures err is Nil ==> appended(r->0.Config, Seq::empty(), r->0.files, paths_files(r->0.Config.Exclude, Map::empty(), seq![path]).0)
  entry assert forall|i: int| 0 <= i < 1 implies #[trigger] seq![path][i] == path by {};

func goparse.NewParserFromPaths(files, options) -> (r, err)
  ensures err is Nil ==> r is Some && r->0.Config == go_settings(options) && walks_ok(files)
  ensures err is Nil ==> appended(r->0.Config, Seq::empty(), r->0.files, paths_files(r->0.Config.Exclude, Map::empty(), files).0)

func goparse.FromPath(path, opts) -> (file, err)
  requires forall|q: Seq<u8>| path_ok(q) ==> #[trigger] calls_ok(q, path_data(q))
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == paths_catalogue(go_settings(opts), seq![path]) && walks_ok(seq![path])
  ensures err is Nil ==> forall|i: int| 0 <= i < paths_read(go_settings(opts), seq![path]).len() ==> path_ok(#[trigger] paths_read(go_settings(opts), seq![path])[i])
  entry let c = go_settings(opts); let ps = paths_read(c, seq![path]); assert forall|l: Seq<Option<Goparse_File>>| #[trigger] appended(c, Seq::empty(), l, ps) implies go_messages(c, l) == paths_catalogue(c, seq![path]) && (forall|i: int| 0 <= i < l.len() ==> file_loaded(#[trigger] l[i])) && (forall|i: int| 0 <= i < ps.len() ==> path_ok(#[trigger] ps[i])) by { lemma_path_messages(c, l, ps); };

func goparse.FromPaths(paths, opts) -> (file, err)
  requires forall|q: Seq<u8>| path_ok(q) ==> #[trigger] calls_ok(q, path_data(q))
  ensures err is Nil ==> file is Some && file->0.Name.len() == 0 && file->0.Entries.d == paths_catalogue(go_settings(opts), paths) && walks_ok(paths)
  ensures err is Nil ==> forall|i: int| 0 <= i < paths_read(go_settings(opts), paths).len() ==> path_ok(#[trigger] paths_read(go_settings(opts), paths)[i])
  entry let c = go_settings(opts); let ps = paths_read(c, paths); assert forall|l: Seq<Option<Goparse_File>>| #[trigger] appended(c, Seq::empty(), l, ps) implies go_messages(c, l) == paths_catalogue(c, paths) && (forall|i: int| 0 <= i < l.len() ==> file_loaded(#[trigger] l[i])) && (forall|i: int| 0 <= i < ps.len() ==> path_ok(#[trigger] ps[i])) by { lemma_path_messages(c, l, ps); };

func goparse.File.Reset(f, d, name, config) -> (err)
  entry if go_parse_file_err(name, gr_data(d)) is Nil { ax_tree_shape(name, gr_data(d)); } assert(gr_data(d).subrange(0, gr_data(d).len() as int) =~= gr_data(d)); if gr_data(d).len() == 0 { assert(gr_data(d) =~= Seq::empty()); }
  ensures (err is Nil) == (gr_err(d) is Nil && go_parse_file_err(name, gr_data(d)) is Nil)
  ensures err is Nil ==> file_is(f_out, Some(config), name, gr_data(d)) && f_out.errors.len() == 0

func goparse.Parser.Errors(p) -> (r)
  ensures r == p.errors

func goparse.Parser.Files(p) -> (r)
  ensures r == p.files

func goparse.File.Errors(f) -> (r)
  ensures r == f.errors

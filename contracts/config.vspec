# Contracts of the configurations: temporary options (C12).

func parse.MoConfig.ApplyOptions(c, opts)
  ensures c_out == with_parse_moconfig(c, opts)
  loop 1
  invariant c == opts_parse_moconfig(old_c, opts, IDX)

func parse.MoConfig.RestoreLastCfg(c)
  requires cfg_ok_parse_moconfig(c)
  ensures go_any_is_nil(c.lastCfg) ==> c_out == c
  ensures !go_any_is_nil(c.lastCfg) ==> c_out == any_as_Parse_MoConfig(c.lastCfg)

func parse.MoWithMustBeSorted(v) -> (r)
  ensures forall|x: Parse_MoConfig| #[trigger] r(x) == Parse_MoConfig { MustBeSorted: v, ..x }

func parse.MoWithLogger(v) -> (r)
  ensures forall|x: Parse_MoConfig| #[trigger] r(x) == Parse_MoConfig { Logger: v, ..x }

func parse.MoWithConfig(v) -> (r)
  ensures forall|x: Parse_MoConfig| #[trigger] r(x) == v

func parse.MoWithEndianness(v) -> (r)
  ensures forall|x: Parse_MoConfig| #[trigger] r(x) == Parse_MoConfig { Endianness: v, ..x }

func parse.PoConfig.ApplyOptions(c, opts)
  ensures c_out == with_parse_poconfig(c, opts)
  loop 1
  invariant c == opts_parse_poconfig(old_c, opts, IDX)

func parse.PoConfig.RestoreLastCfg(c)
  requires cfg_ok_parse_poconfig(c)
  ensures go_any_is_nil(c.lastCfg) ==> c_out == c
  ensures !go_any_is_nil(c.lastCfg) ==> c_out == any_as_Parse_PoConfig(c.lastCfg)

func parse.poWithMarkAllAsObsolete(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { markAllAsObsolete: v, ..x }

func parse.PoWithVerbose(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { Verbose: v, ..x }

func parse.PoWithParseObsolete(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { ParseObsoletes: v, ..x }

func parse.PoWithCustomObsoletePrefix(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { CustomObsoletePrefix: v, ..x }

func parse.PoWithUseCustomObsoletePrefix(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { UseCustomObsoletePrefix: v, ..x }

func parse.PoWithIgnoreAllComments(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { IgnoreAllComments: v, ..x }

func parse.PoWithIgnoreComments(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { IgnoreComments: v, ..x }

func parse.PoWithConfig(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == v

func parse.PoWithSkipHeader(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { SkipHeader: v, ..x }

func parse.PoWithCleanDuplicates(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { CleanDuplicates: v, ..x }

func parse.PoWithLogger(v) -> (r)
  ensures forall|x: Parse_PoConfig| #[trigger] r(x) == Parse_PoConfig { Logger: v, ..x }

func compile.MoConfig.ApplyOptions(c, opts)
  ensures c_out == with_compile_moconfig(c, opts)
  loop 1
  invariant c == opts_compile_moconfig(old_c, opts, IDX)

func compile.MoConfig.RestoreLastCfg(c)
  requires cfg_ok_compile_moconfig(c)
  ensures go_any_is_nil(c.lastCfg) ==> c_out == c
  ensures !go_any_is_nil(c.lastCfg) ==> c_out == any_as_Compile_MoConfig(c.lastCfg)

func compile.MoWithEndianness(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { Endianness: v, ..x }

func compile.MoWithDepureEntries(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { DepureEntries: v, ..x }

func compile.MoWithSortEntries(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { SortEntries: v, ..x }

func compile.MoWithConfig(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == v

func compile.MoWithHashTable(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { HashTable: v, ..x }

func compile.MoWithForce(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { Force: v, ..x }

func compile.MoWithIgnoreErrors(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { IgnoreErrors: v, ..x }

func compile.MoWithLogger(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { Logger: v, ..x }

func compile.MoWithVerbose(v) -> (r)
  ensures forall|x: Compile_MoConfig| #[trigger] r(x) == Compile_MoConfig { Verbose: v, ..x }

func compile.PoConfig.ApplyOptions(c, opts)
  ensures c_out == with_compile_poconfig(c, opts)
  loop 1
  invariant c == opts_compile_poconfig(old_c, opts, IDX)

func compile.PoConfig.RestoreLastCfg(c)
  requires cfg_ok_compile_poconfig(c)
  ensures go_any_is_nil(c.lastCfg) ==> c_out == c
  ensures !go_any_is_nil(c.lastCfg) ==> c_out == any_as_Compile_PoConfig(c.lastCfg)

func compile.PoWithNoColor(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { NoColor: v, ..x }

func compile.PoWithHighlight(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { Highlight: v, ..x }

func compile.PoWithUseCustomObsoletePrefix(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { UseCustomObsoletePrefix: v, ..x }

func compile.PoWithCustomObsoletePrefixRune(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { CustomObsoletePrefixRune: v, ..x }

func compile.PoWithManageHeader(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { ManageHeader: v, ..x }

func compile.PoWithWordWrap(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { WordWrap: v, ..x }

func compile.PoWithHeaderFields(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { HeaderFields: v, ..x }

func compile.PoWithHeaderComments(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { HeaderComments: v, ..x }

func compile.PoWithCommentFuzzy(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { CommentFuzzy: v, ..x }

func compile.PoWithVerbose(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { Verbose: v, ..x }

func compile.PoWithLogger(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { Logger: v, ..x }

func compile.PoWithIgnoreErrors(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { IgnoreErrors: v, ..x }

func compile.PoWithConfig(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == v

func compile.PoWithForcePo(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { ForcePo: v, ..x }

func compile.PoWithOmitHeader(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { OmitHeader: v, ..x }

func compile.PoWithPackageName(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { PackageName: v, ..x }

func compile.PoWithCopyrightHolder(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { CopyrightHolder: v, ..x }

func compile.PoWithForeignUser(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { ForeignUser: v, ..x }

func compile.PoWithTitle(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { Title: v, ..x }

func compile.PoWithNoLocation(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { NoLocation: v, ..x }

func compile.PoWithAddLocation(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { AddLocation: v, ..x }

func compile.PoWithMsgstrPrefix(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { MsgstrPrefix: v, ..x }

func compile.PoWithMsgstrSuffix(v) -> (r)
  ensures forall|x: Compile_PoConfig| #[trigger] r(x) == Compile_PoConfig { MsgstrSuffix: v, ..x }

func goparse.Config.ApplyOptions(c, opts)
  ensures c_out == with_goparse_config(c, opts)
  loop 1
  invariant c == opts_goparse_config(old_c, opts, IDX)

func goparse.Config.RestoreLastCfg(c)
  requires cfg_ok_goparse_config(c)
  ensures go_any_is_nil(c.lastCfg) ==> c_out == c
  ensures !go_any_is_nil(c.lastCfg) ==> c_out == any_as_Goparse_Config(c.lastCfg)

func goparse.WithNoHeader(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { NoHeader: v, ..x }

func goparse.WithVerbose(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { Verbose: v, ..x }

func goparse.WithLogger(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { Logger: v, ..x }

func goparse.WithConfig(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == v

func goparse.WithCleanDuplicates(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { CleanDuplicates: v, ..x }

func goparse.WithExclude(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { Exclude: v, ..x }

func goparse.WithExtractAll(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { ExtractAll: v, ..x }

func goparse.WithCustomHeader(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { CustomHeader: Some(v), ..x }

func goparse.WithHeaderConfig(v) -> (r)
  ensures forall|x: Goparse_Config| #[trigger] r(x) == Goparse_Config { HeaderConfig: Some(v), ..x }

# Operations with temporary options: they run under the options applied in order
# to the current configuration and leave the configuration as it was.

func parse.MoParser.ParseWithOptions(m, opts) -> (file)
  ensures m_out.Config == m.Config && m_out.data == m.data && m_out.filename == m.filename
  ensures ({ let c = with_parse_moconfig(m.Config, opts); let o = mo_order(c.Endianness, m.data); let n = word(m.data, o, 8); (file is Some) == (!(o is Nil) && mo_tables_in(m.data, o)) && (file is Some ==> file->0.Name == m.filename && file->0.Entries.d == mo_read(m.data, o, n)) && (m_out.errors.len() == 0) == (file is Some && mo_version_ok(m.data, o) && mo_all_in(m.data, o, n) && (c.MustBeSorted ==> sorted_adj(fv_po_CompareEntryByID_s(), file->0.Entries.d))) })

func compile.MoCompiler.ToBytesWithOptions(mc, options) -> (r)
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  ensures mc_out == mc
  ensures r == mo_file(with_compile_moconfig(mc.Config, options), mc.File->0.Entries.d)

func compile.MoCompiler.ToWriterWithOptions(mc, w, opts) -> (r)
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  ensures mc_out == mc
  ensures (r is Nil && !with_compile_moconfig(mc.Config, opts).IgnoreErrors) || gw_is_buf(w.sink) ==> w_out.out == w.out.add(mo_file(with_compile_moconfig(mc.Config, opts), mc.File->0.Entries.d))

func compile.MoCompiler.ToFile(mc, f, fs) -> (r)
  world
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  entry lemma_open_flags();
  ensures fs_else(fs, fs_out, f)
  ensures !mc.Config.Force && fs.files.contains_key(f) ==> fs_out == fs && (r is Nil ==> mc.Config.IgnoreErrors)
  ensures r is Nil && !mc.Config.IgnoreErrors ==> fs_out.files.contains_key(f) && fs_out.files[f] == mo_file(mc.Config, mc.File->0.Entries.d)

func compile.MoCompiler.ToFileWithOptions(mc, f, options, fs) -> (r)
  world
  requires mc.File is Some
  requires mc.File->0.Entries.d.len() < 0xfff_fff0
  ensures mc_out == mc
  ensures fs_else(fs, fs_out, f)
  ensures ({ let c = with_compile_moconfig(mc.Config, options); !c.Force && fs.files.contains_key(f) ==> fs_out == fs && (r is Nil ==> c.IgnoreErrors) })
  ensures ({ let c = with_compile_moconfig(mc.Config, options); r is Nil && !c.IgnoreErrors ==> fs_out.files.contains_key(f) && fs_out.files[f] == mo_file(c, mc.File->0.Entries.d) })

func compile.PoCompiler.ToFile(c, f, fs) -> (r)
  world
  requires c.File is Some
  entry lemma_open_flags();
  ensures fs_else(fs, fs_out, f)
  ensures !c.Config.ForcePo && fs.files.contains_key(f) ==> fs_out == fs && (r is Nil ==> c.Config.IgnoreErrors)
  ensures r is Nil && !c.Config.IgnoreErrors && map_is_nil(c.Config.Highlight) ==> fs_out.files.contains_key(f) && fs_out.files[f] == po_document(c.Config, c.File->0.Entries.d)

func compile.PoCompiler.ToFileWithOptions(c, f, opts, fs) -> (r)
  world
  requires c.File is Some
  ensures c_out == c
  ensures fs_else(fs, fs_out, f)
  ensures ({ let x = with_compile_poconfig(c.Config, opts); !x.ForcePo && fs.files.contains_key(f) ==> fs_out == fs && (r is Nil ==> x.IgnoreErrors) })
  ensures ({ let x = with_compile_poconfig(c.Config, opts); r is Nil && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> fs_out.files.contains_key(f) && fs_out.files[f] == po_document(x, c.File->0.Entries.d) })

func goparse.Parser.ParseWithOptions(p, options) -> (r)
  requires forall|i: int| 0 <= i < p.files.len() ==> file_loaded(#[trigger] p.files[i])
  ensures p_out.Config == p.Config
  ensures r is Some && r->0.Name.len() == 0 && r->0.Entries.d == go_messages(with_goparse_config(p.Config, options), p.files)

func compile.NewPoConfigFromOptions(opts) -> (r)
  returns with_compile_poconfig(zero_Compile_PoConfig(), opts)

func compile.MoCompiler.SetFile(mc, f)
  ensures mc_out.File == Some(f) && mc_out.Config == mc.Config

func compile.PoCompiler.SetFile(c, f)
  ensures c_out.File == Some(f) && c_out.Config == c.Config

func parse.MoParser.Errors(m) -> (r)
  ensures r == m.errors

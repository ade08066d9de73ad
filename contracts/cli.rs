// include onecall.rs, moread.rs, poread.rs, validate.rs
// The command line programs (C18). A program reads standard input or files,
// which are functions of their paths, and writes into the file system of the
// model, in which standard output is a file no path names.
pub uninterp spec fn os_stdin() -> Option<GoOsFile>;
pub uninterp spec fn os_stdout() -> Option<GoOsFile>;
pub open spec fn stdout_path() -> Seq<u8> { seq![0u8] }
pub broadcast axiom fn ax_os_stdout()
    ensures (#[trigger] os_stdout()) is Some, os_path(os_stdout()) == stdout_path(), os_at_end(os_stdout());
// no path holds a NUL: such a file cannot be opened
pub broadcast axiom fn ax_no_nul(fs: GoFs, p: Seq<u8>, flags: i64)
    ensures p.contains(0u8) ==> !((#[trigger] fs_open_err(fs, p, flags)) is Nil);

pub open spec fn out_at(output: Seq<u8>) -> Seq<u8> { if output == b"-" { stdout_path() } else { output } }
// what stands in a file after a document was written there: standard output keeps what it had
pub open spec fn out_has(fs: GoFs, fs_out: GoFs, output: Seq<u8>, doc: Seq<u8>) -> bool {
    if output == b"-" { fs_out.files[stdout_path()] == fs.files[stdout_path()].add(doc) }
    else { fs_out.files.contains_key(output) && fs_out.files[output] == doc }
}

// --- msgounfmt ---
pub open spec fn mo_arg_read(a: Seq<u8>) -> bool { if a == b"-" { gr_err(gr_file(os_stdin())) is Nil } else { os_open_err(a) is Nil && gr_err(gr_file(os_open(a))) is Nil } }
pub open spec fn mo_arg_data(a: Seq<u8>) -> Seq<u8> { if a == b"-" { gr_data(gr_file(os_stdin())) } else { gr_data(gr_file(os_open(a))) } }
pub open spec fn mo_plain() -> Parse_MoConfig { mo_rd_settings(Seq::empty()) }
pub open spec fn mo_arg_entries(a: Seq<u8>) -> Seq<Entry> { let d = mo_arg_data(a); let o = mo_order(mo_plain().Endianness, d); mo_read(d, o, word(d, o, 8)) }
pub open spec fn entries_valid(l: Seq<Entry>) -> bool { all_distinct(l) && forall|i: int| 0 <= i < l.len() ==> !mixed(#[trigger] l[i]) }
pub open spec fn mo_arg_ok(a: Seq<u8>, ignore: bool) -> bool { mo_arg_read(a) && mo_rd_fine(mo_plain(), mo_arg_data(a)) && (ignore || entries_valid(mo_arg_entries(a))) }
pub open spec fn mo_args_entries(args: Seq<Seq<u8>>) -> Seq<Entry>
    decreases args.len()
{ if args.len() == 0 { Seq::empty() } else { mo_args_entries(args.drop_last()).add(mo_arg_entries(args.last())) } }
pub open spec fn mo_args_ok(args: Seq<Seq<u8>>, ignore: bool) -> bool { forall|i: int| 0 <= i < args.len() ==> mo_arg_ok(#[trigger] args[i], ignore) }
pub proof fn lemma_mo_args_bad(args: Seq<Seq<u8>>, ignore: bool, i: int)
    requires 0 <= i < args.len(), !mo_arg_ok(args[i], ignore)
    ensures !mo_args_ok(args, ignore)
{}
// the settings of a writer that is given a whole configuration
pub open spec fn po_cli(c: Compile_PoConfig) -> Compile_PoConfig { Compile_PoConfig { lastCfg: po_wr_settings(Seq::empty()).lastCfg, ..c } }
pub open spec fn all_to_po(f: spec_fn(Compile_PoConfig) -> Compile_PoConfig, c: Compile_PoConfig) -> bool { forall|y: Compile_PoConfig| #[trigger] f(y) == c }
pub proof fn lemma_po_cli(c: Compile_PoConfig, o: Seq<spec_fn(Compile_PoConfig) -> Compile_PoConfig>)
    requires o.len() == 1, all_to_po(o[0], c)
    ensures po_wr_settings(o) == po_cli(c)
{ reveal_with_fuel(opts_compile_poconfig, 3); }
pub proof fn lemma_po_cli_all(c: Compile_PoConfig)
    ensures forall|o: Seq<spec_fn(Compile_PoConfig) -> Compile_PoConfig>| o.len() == 1 && (forall|y: Compile_PoConfig| #[trigger] o[0](y) == c) ==> #[trigger] po_wr_settings(o) == po_cli(c)
{ assert forall|o: Seq<spec_fn(Compile_PoConfig) -> Compile_PoConfig>| o.len() == 1 && (forall|y: Compile_PoConfig| #[trigger] o[0](y) == c) implies #[trigger] po_wr_settings(o) == po_cli(c) by { assert(all_to_po(o[0], c)); lemma_po_cli(c, o); } }
pub open spec fn mo_cli(c: Compile_MoConfig) -> Compile_MoConfig { Compile_MoConfig { lastCfg: mo_wr_settings(Seq::empty()).lastCfg, ..c } }
pub open spec fn all_to_mo(f: spec_fn(Compile_MoConfig) -> Compile_MoConfig, c: Compile_MoConfig) -> bool { forall|y: Compile_MoConfig| #[trigger] f(y) == c }
pub proof fn lemma_mo_cli(c: Compile_MoConfig, o: Seq<spec_fn(Compile_MoConfig) -> Compile_MoConfig>)
    requires o.len() == 1, all_to_mo(o[0], c)
    ensures mo_wr_settings(o) == mo_cli(c)
{ reveal_with_fuel(opts_compile_moconfig, 3); }
pub proof fn lemma_mo_cli_all(c: Compile_MoConfig)
    ensures forall|o: Seq<spec_fn(Compile_MoConfig) -> Compile_MoConfig>| o.len() == 1 && (forall|y: Compile_MoConfig| #[trigger] o[0](y) == c) ==> #[trigger] mo_wr_settings(o) == mo_cli(c)
{ assert forall|o: Seq<spec_fn(Compile_MoConfig) -> Compile_MoConfig>| o.len() == 1 && (forall|y: Compile_MoConfig| #[trigger] o[0](y) == c) implies #[trigger] mo_wr_settings(o) == mo_cli(c) by { assert(all_to_mo(o[0], c)); lemma_mo_cli(c, o); } }

// --- PO files as inputs: the reader's settings with or without joining repetitions ---
pub open spec fn po_in(clean: bool) -> Parse_PoConfig { Parse_PoConfig { CleanDuplicates: clean, ParseObsoletes: true, ..zero_Parse_PoConfig() } }
pub open spec fn po_arg_read(a: Seq<u8>) -> bool { if a == b"-" { gr_err(gr_file(os_stdin())) is Nil } else { os_read_err(a) is Nil } }
pub open spec fn po_arg_data(a: Seq<u8>) -> Seq<u8> { if a == b"-" { gr_data(gr_file(os_stdin())) } else { os_data(a) } }
// sin: what standard input is called
pub open spec fn po_arg_name(a: Seq<u8>, sin: Seq<u8>) -> Seq<u8> { if a == b"-" { sin } else { a } }
pub open spec fn po_arg_ok(clean: bool, sin: Seq<u8>, a: Seq<u8>) -> bool { po_arg_read(a) && rd_ok(rd_cfg(po_in(clean)), po_arg_name(a, sin), po_arg_data(a)) }
pub open spec fn po_arg_entries(clean: bool, sin: Seq<u8>, a: Seq<u8>) -> Seq<Entry> { rd_parse(rd_cfg(po_in(clean)), po_arg_name(a, sin), po_arg_data(a))->0 }
pub open spec fn po_args_ok(clean: bool, sin: Seq<u8>, args: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < args.len() ==> po_arg_ok(clean, sin, #[trigger] args[i]) }
pub open spec fn po_args_entries(clean: bool, sin: Seq<u8>, args: Seq<Seq<u8>>) -> Seq<Entry>
    decreases args.len()
{ if args.len() == 0 { Seq::empty() } else { po_args_entries(clean, sin, args.drop_last()).add(po_arg_entries(clean, sin, args.last())) } }
pub open spec fn sets_clean(f: spec_fn(Parse_PoConfig) -> Parse_PoConfig, v: bool) -> bool { forall|x: Parse_PoConfig| #[trigger] f(x) == Parse_PoConfig { CleanDuplicates: v, ..x } }
pub proof fn lemma_po_in()
    ensures rd_cfg(po_rd_settings(Seq::empty())) == rd_cfg(po_in(true)),
        forall|c: Parse_PoConfig, n: Seq<u8>, d: Seq<u8>| #[trigger] rd_ok(c, n, d) ==> rd_parse(c, n, d) is Some,
        forall|o: Seq<spec_fn(Parse_PoConfig) -> Parse_PoConfig>| o.len() == 1 && (forall|x: Parse_PoConfig| #[trigger] o[0](x) == Parse_PoConfig { CleanDuplicates: false, ..x }) ==> rd_cfg(#[trigger] po_rd_settings(o)) == rd_cfg(po_in(false))
{ reveal_with_fuel(opts_parse_poconfig, 3); assert(rd_cfg(po_rd_settings(Seq::empty())) == rd_cfg(po_in(true))); }

pub proof fn lemma_po_step(clean: bool, sin: Seq<u8>, args: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= args.len()
    ensures k == 0 ==> po_args_entries(clean, sin, args.take(k)) == Seq::<Entry>::empty(),
        k > 0 ==> po_args_entries(clean, sin, args.take(k)) == po_args_entries(clean, sin, args.take(k - 1)).add(po_arg_entries(clean, sin, args[k - 1]))
{ if k > 0 { assert(args.take(k).drop_last() =~= args.take(k - 1)); } }
// a report is an error
pub proof fn lemma_dup_nn(s: Seq<Entry>)
    ensures forall|i: int| 0 <= i < dup_errors(s).len() ==> !(#[trigger] dup_errors(s)[i] is Nil)
    decreases s.len()
{ if s.len() > 0 { lemma_dup_nn(s.drop_last()); } }
pub proof fn lemma_mixed_nn(s: Seq<Entry>)
    ensures forall|i: int| 0 <= i < mixed_errors(s).len() ==> !(#[trigger] mixed_errors(s)[i] is Nil)
    decreases s.len()
{ if s.len() > 0 { lemma_mixed_nn(s.drop_last()); } }
pub broadcast proof fn lemma_report_nn(s: Seq<Entry>, i: int)
    requires 0 <= i < validation(s).len()
    ensures !(#[trigger] validation(s)[i] is Nil)
{ lemma_dup_nn(s); lemma_mixed_nn(s); }
// --- settings from the command line ---
pub open spec fn cli_colour(color: Seq<u8>, output: Seq<u8>, terminal: bool) -> bool { color == b"always" || color == b"auto" && terminal && output == b"-" }

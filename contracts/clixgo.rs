// include clicat.rs, extract.rs, merge.rs
// xgotext (C18): what is read, and where the result goes
pub open spec fn xg_out(dir: Seq<u8>, output: Seq<u8>, domain: Seq<u8>) -> Seq<u8> {
    fp_join(seq![dir, if output.len() > 0 { output } else { domain.add(b".pot") }])
}
// the files at some paths, open to be read
pub open spec fn opened(l: Seq<Option<GoOsFile>>, ps: Seq<Seq<u8>>) -> bool {
    l.len() == ps.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) == os_open(ps[i]) && os_open_err(ps[i]) is Nil
}
// the names of the inputs, the "-" among them, the files that are read
pub open spec fn xg_list(from: Seq<u8>) -> Seq<Seq<u8>> { lines_named(split_byte(os_data(from), 10)) }
pub open spec fn xg_under(dir: Seq<u8>, l: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if dir.len() > 0 { Seq::new(l.len(), |i: int| fp_join(seq![dir, l[i]])) } else { l } }
pub open spec fn xg_inputs(args: Seq<Seq<u8>>, from: Seq<u8>, dir: Seq<u8>) -> Seq<Seq<u8>> { xg_under(dir, if from.len() > 0 { xg_list(from) } else { args }) }
pub open spec fn xg_omitted(ex: Seq<Seq<u8>>, from: Seq<u8>, dir: Seq<u8>) -> Seq<Seq<u8>> { xg_under(dir, if from.len() > 0 { ex.add(xg_list(from)) } else { ex }) }
pub open spec fn xg_paths(l: Seq<Seq<u8>>) -> Seq<Seq<u8>> { let k = first_equal(l, b"-", 0); if k < 0 { l } else { l.take(k).add(l.skip(k + 1)) } }
pub open spec fn xg_files(l: Seq<Seq<u8>>, ex: Seq<Seq<u8>>) -> Seq<Option<GoOsFile>> {
    let ps = paths_files(ex, Map::empty(), xg_paths(l)).0;
    let fs = Seq::new(ps.len(), |i: int| os_open(ps[i]));
    if first_equal(l, b"-", 0) < 0 { fs } else { fs.push(os_stdin()) }
}
pub proof fn lemma_go_cli(v: Goparse_Config)
    ensures forall|o: Seq<spec_fn(Goparse_Config) -> Goparse_Config>| o.len() == 1 && (forall|x: Goparse_Config| #[trigger] o[0](x) == v) ==> #[trigger] go_settings(o) == v
{ reveal_with_fuel(opts_goparse_config, 3); }
pub proof fn lemma_po_in_all(v: Parse_PoConfig)
    ensures forall|o: Seq<spec_fn(Parse_PoConfig) -> Parse_PoConfig>| o.len() == 1 && (forall|x: Parse_PoConfig| #[trigger] o[0](x) == v) ==> rd_cfg(#[trigger] po_rd_settings(o)) == rd_cfg(v)
{ reveal_with_fuel(opts_parse_poconfig, 3); }
pub proof fn lemma_few_lines(s: Seq<u8>)
    ensures 1 <= split_byte(s, 10).len() <= s.len() + 1
    decreases s.len()
{ if s.len() > 0 { lemma_few_lines(s.drop_last()); } }
pub proof fn lemma_few_named(l: Seq<Seq<u8>>)
    ensures lines_named(l).len() <= l.len()
    decreases l.len()
{ if l.len() > 0 { lemma_few_named(l.drop_last()); } }
pub proof fn lemma_few_inputs(from: Seq<u8>)
    ensures xg_list(from).len() <= os_data(from).len() + 1
{ lemma_few_lines(os_data(from)); lemma_few_named(split_byte(os_data(from), 10)); }
// a file opened to be read and written bears its path and gives what it held
pub broadcast axiom fn ax_fs_handle(fs: GoFs, p: Seq<u8>, flags: i64)
    ensures
        fs_handle(fs, p, flags) is Some ==> os_name(#[trigger] fs_handle(fs, p, flags)) == p,
        fs_handle(fs, p, flags) is Some && flags & 0x200 == 0 && gr_err(gr_file(fs_handle(fs, p, flags))) is Nil ==> gr_data(gr_file(fs_handle(fs, p, flags))) == xg_held(fs, p);
pub open spec fn xg_held(fs: GoFs, p: Seq<u8>) -> Seq<u8> { if fs.files.contains_key(p) { fs.files[p] } else { Seq::empty() } }
pub open spec fn xg_calls_ok(files: Seq<Option<GoOsFile>>) -> bool { forall|i: int| 0 <= i < files.len() && go_parse_file_err(os_name(#[trigger] files[i]), gr_data(gr_file(files[i]))) is Nil ==> calls_ok(os_name(files[i]), gr_data(gr_file(files[i]))) }
pub proof fn lemma_xg_read(c: Goparse_Config, l: Seq<Option<Goparse_File>>, files: Seq<Option<GoOsFile>>)
    requires os_loaded(c, l, files), xg_calls_ok(files)
    ensures go_messages(c, l) == os_catalogue(c, files), forall|i: int| 0 <= i < l.len() ==> file_loaded(#[trigger] l[i])
{ lemma_os_messages(c, l, files); assert forall|i: int| 0 <= i < l.len() implies file_loaded(#[trigger] l[i]) by { assert(l[i] is Some && file_is(l[i]->0, Some(c), os_name(files[i]), gr_data(gr_file(files[i])))); assert(files[i] == files[i]); }; }
pub open spec fn xg_place(dir: Seq<u8>, output: Seq<u8>, domain: Seq<u8>) -> Seq<u8> { if output == b"-" { stdout_path() } else { xg_out(dir, output, domain) } }
pub proof fn ax_fs_handles()
    ensures forall|fs: GoFs, p: Seq<u8>, flags: i64| (#[trigger] fs_handle(fs, p, flags)) is Some ==> os_name(fs_handle(fs, p, flags)) == p && (flags & 0x200 == 0 && gr_err(gr_file(fs_handle(fs, p, flags))) is Nil ==> gr_data(gr_file(fs_handle(fs, p, flags))) == xg_held(fs, p))
{ broadcast use ax_fs_handle; }
pub proof fn lemma_xg_reads()
    ensures forall|c: Goparse_Config, l: Seq<Option<Goparse_File>>, files: Seq<Option<GoOsFile>>| #[trigger] os_loaded(c, l, files) && xg_calls_ok(files) ==> go_messages(c, l) == os_catalogue(c, files) && forall|i: int| 0 <= i < l.len() ==> file_loaded(#[trigger] l[i])
{ assert forall|c: Goparse_Config, l: Seq<Option<Goparse_File>>, files: Seq<Option<GoOsFile>>| #[trigger] os_loaded(c, l, files) && xg_calls_ok(files) implies go_messages(c, l) == os_catalogue(c, files) && forall|i: int| 0 <= i < l.len() ==> file_loaded(#[trigger] l[i]) by { lemma_xg_read(c, l, files); }; }
pub proof fn lemma_files_same()
    ensures forall|c: Goparse_Config, a: Seq<Option<Goparse_File>>, b: Seq<Option<Goparse_File>>| #[trigger] files_as(a, b) && (forall|i: int| 0 <= i < a.len() ==> file_loaded(#[trigger] a[i])) ==> #[trigger] go_messages(c, a) == go_messages(c, b) && forall|i: int| 0 <= i < b.len() ==> file_loaded(#[trigger] b[i])
{ assert forall|c: Goparse_Config, a: Seq<Option<Goparse_File>>, b: Seq<Option<Goparse_File>>| #[trigger] files_as(a, b) && (forall|i: int| 0 <= i < a.len() ==> file_loaded(#[trigger] a[i])) implies #[trigger] go_messages(c, a) == go_messages(c, b) && forall|i: int| 0 <= i < b.len() ==> file_loaded(#[trigger] b[i]) by { lemma_files_as(c, a, b); }; }
// what stands in the output after a document was written there
pub open spec fn xg_has(fs: GoFs, fs_out: GoFs, output: Seq<u8>, p: Seq<u8>, doc: Seq<u8>) -> bool {
    if output == b"-" { fs_out.files[stdout_path()] == fs.files[stdout_path()].add(doc) } else { fs_out.files.contains_key(p) && fs_out.files[p] =~= doc }
}

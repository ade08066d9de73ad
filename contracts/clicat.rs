// include cli.rs, cat.rs
// msgocat (C18): what is read, and the catalogue that is written
pub open spec fn lines_named(l: Seq<Seq<u8>>) -> Seq<Seq<u8>>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { let p = lines_named(l.drop_last()); if l.last().len() > 0 { p.push(l.last()) } else { p } } }
pub open spec fn cat_list_ok(from: Seq<u8>) -> bool { if from == b"-" { gr_err(gr_file(os_stdin())) is Nil } else { from.len() == 0 || os_read_err(from) is Nil } }
pub open spec fn cat_list(from: Seq<u8>) -> Seq<Seq<u8>> {
    if from.len() == 0 { Seq::empty() } else { lines_named(split_byte(if from == b"-" { gr_data(gr_file(os_stdin())) } else { os_data(from) }, 10)) }
}
pub open spec fn cat_dir(dir: Seq<u8>, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |i: int| fp_join(seq![dir, os_dir(dir)[i].name])) }
pub open spec fn cat_inputs_ok(from: Seq<u8>, dir: Seq<u8>) -> bool { cat_list_ok(from) && (dir.len() > 0 ==> os_dir_err(dir) is Nil) }
pub open spec fn cat_inputs(args: Seq<Seq<u8>>, from: Seq<u8>, dir: Seq<u8>) -> Seq<Seq<u8>> {
    args.add(cat_list(from)).add(if dir.len() > 0 { cat_dir(dir, os_dir(dir).len() as int) } else { Seq::empty() })
}
pub open spec fn cat_in_ok(a: Seq<u8>) -> bool { po_arg_ok(true, b"-", a) && entries_valid(po_arg_entries(true, b"-", a)) }
pub open spec fn cat_ins_ok(l: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < l.len() ==> cat_in_ok(#[trigger] l[i]) }
// the files read, for all the concatenation looks at
pub open spec fn cat_read(files: Seq<Option<File>>, l: Seq<Seq<u8>>) -> bool {
    &&& files.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] files[i]) is Some && files[i]->0.Name == l[i] && files[i]->0.Entries.d == po_arg_entries(true, b"-", l[i])
}
pub open spec fn cat_ins(l: Seq<Seq<u8>>) -> Seq<Option<File>> { Seq::new(l.len(), |i: int| Some(File { Name: l[i], Entries: sl_own(po_arg_entries(true, b"-", l[i])) })) }
pub proof fn lemma_cat_read_n(c: MsgcatMergeConfig, files: Seq<Option<File>>, l: Seq<Seq<u8>>, n: int)
    requires cat_read(files, l), n <= l.len()
    ensures cat_files(c, files, n) == cat_files(c, cat_ins(l), n), cat_total(files, n) == cat_total(cat_ins(l), n)
    decreases n
{ if n > 0 { lemma_cat_read_n(c, files, l, n - 1); assert(files[n - 1]->0.Name == l[n - 1]); assert(cat_ins(l)[n - 1]->0.Name == l[n - 1]); } }
pub proof fn lemma_cat_read(c: MsgcatMergeConfig, files: Seq<Option<File>>, l: Seq<Seq<u8>>)
    requires cat_read(files, l)
    ensures cat_result(c, files) == cat_result(c, cat_ins(l)), cat_total(files, files.len() as int) == cat_total(cat_ins(l), l.len() as int)
{ lemma_cat_read_n(c, files, l, l.len() as int); }
// the language of the header
pub open spec fn cat_header(e: Entry, lang: Seq<u8>) -> Entry {
    Entry { Flags: e.Flags, Comments: e.Comments, ExtractedComments: e.ExtractedComments, Previous: e.Previous, ..header_entry(fuzzy(e), h_set(header_fields(split_byte(e.Str, 10)), b"Language", lang)) }
}
pub open spec fn cat_lang(d: Seq<Entry>, lang: Seq<u8>) -> Seq<Entry> {
    if lang.len() == 0 || header_pos(d) < 0 { d } else { d.update(header_pos(d), cat_header(d[header_pos(d)], lang)) }
}
pub open spec fn cat_order(d: Seq<Entry>, by_id: bool, by_file: bool) -> Seq<Entry> {
    let x = if by_id { sort_by(fv_po_CompareEntry_s(), d) } else { d };
    if by_file { sort_by(fv_po_CompareEntryByFile_s(), x) } else { x }
}
pub open spec fn cat_cli(c: MsgcatMergeConfig, l: Seq<Seq<u8>>, lang: Seq<u8>, by_id: bool, by_file: bool) -> Seq<Entry> {
    cat_order(cat_lang(cat_result(c, cat_ins(l)), lang), by_id, by_file)
}
pub proof fn lemma_cat_settings(v: MsgcatMergeConfig)
    ensures forall|o: Seq<spec_fn(MsgcatMergeConfig) -> MsgcatMergeConfig>| o.len() == 1 && (forall|x: MsgcatMergeConfig| #[trigger] o[0](x) == v) ==> #[trigger] cat_opts(cat_defaults(), o, o.len() as int) == v
{ reveal_with_fuel(cat_opts, 3); }
pub proof fn lemma_no_lines()
    ensures lines_named(split_byte(Seq::empty(), 10)) == Seq::<Seq<u8>>::empty()
{ let e = split_byte(Seq::empty(), 10); assert(e.len() == 1 && e[0].len() == 0); assert(lines_named(e.drop_last()) =~= Seq::empty()); }

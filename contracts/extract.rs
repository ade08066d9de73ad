// include header.rs
// Extraction of messages from Go sources (C11).

// --- which calls are translations, and which argument is what ---
pub struct TrMethod { pub id: int, pub plural: int, pub context: int }
pub open spec fn tr_method(name: Seq<u8>) -> Option<TrMethod> {
    if name == b"Get" { Some(TrMethod { id: 0, plural: -1, context: -1 }) }
    else if name == b"GetN" { Some(TrMethod { id: 0, plural: 1, context: -1 }) }
    else if name == b"GetD" { Some(TrMethod { id: 1, plural: -1, context: -1 }) }
    else if name == b"GetND" { Some(TrMethod { id: 1, plural: 2, context: -1 }) }
    else if name == b"GetC" { Some(TrMethod { id: 0, plural: -1, context: 1 }) }
    else if name == b"GetNC" { Some(TrMethod { id: 0, plural: 1, context: 3 }) }
    else if name == b"GetDC" { Some(TrMethod { id: 1, plural: -1, context: 2 }) }
    else if name == b"GetNDC" { Some(TrMethod { id: 1, plural: 2, context: 4 }) }
    else { None }
}
// name.Function(...), where name is one of the imports and not something declared in the file
pub open spec fn tr_call(names: Seq<Seq<u8>>, n: AstNode) -> bool {
    match n {
        AstNode::Call(c) => match c.Fun {
            AstNode::Sel(s) => match s.X {
                AstNode::Ident(i) => i.Obj is None && names.contains(i.Name) && s.Sel is Some && tr_method(s.Sel->0.Name) is Some,
                _ => false,
            },
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn call_name(c: AstCall) -> Seq<u8> { (c.Fun->Sel_0).Sel->0.Name }

// --- shape of syntax trees (go/parser) ---
pub open spec fn ast_ok(n: AstNode) -> bool {
    match n {
        AstNode::Call(c) => match c.Fun { AstNode::Sel(s) => s.Sel is Some, _ => true },
        AstNode::Import(i) => i.Path is Some,
        _ => true,
    }
}
// a literal's value is one that can be unquoted
pub open spec fn lit_ok(l: AstLit) -> bool { l.ValuePos > 0 && (l.Kind == 9 ==> go_unquote_err(l.Value) is Nil) }
pub open spec fn lit_full(l: AstLit) -> bool { l.Kind == 9 && l.Value != b"\"\"" && l.Value != b"``" }

// --- arguments ---
// what compiles: the argument is there and, if a literal, a string; or all arguments come from one call
pub open spec fn arg_ok(c: AstCall, i: int) -> bool {
    i == -1 || (0 <= i < c.Args.len() && (c.Args[i] is Lit ==> (*c.Args[i]->Lit_0).Kind == 9 && lit_ok(*c.Args[i]->Lit_0)))
    || (0 <= i && c.Args.len() == 1 && !(c.Args[0] is Lit))
}
pub open spec fn arg_lit(c: AstCall, i: int) -> Option<AstLit> {
    if 0 <= i < c.Args.len() && c.Args[i] is Lit && lit_full(*c.Args[i]->Lit_0) { Some(*c.Args[i]->Lit_0) } else { None }
}
pub open spec fn lit_text(l: Option<AstLit>) -> Seq<u8> { match l { Some(x) => go_unquote(x.Value), None => Seq::empty() } }
pub open spec fn call_ok(c: AstCall) -> bool { let m = tr_method(call_name(c))->0; arg_ok(c, m.id) && arg_ok(c, m.plural) && arg_ok(c, m.context) }

// --- lines ---
pub open spec fn newlines(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { newlines(s.drop_last()) + (if s.last() == 10 { 1int } else { 0 }) } }
pub proof fn lemma_newlines(s: Seq<u8>)
    ensures 0 <= newlines(s) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_newlines(s.drop_last()); } }
// the number of the line that the byte is on
pub open spec fn line_at(s: Seq<u8>, i: int) -> int { 1 + newlines(if 0 <= i < s.len() { s.take(i + 1) } else { s }) }

// --- messages ---
pub open spec fn lit_loc(name: Seq<u8>, src: Seq<u8>, l: AstLit) -> Location { Location { Line: line_at(src, l.ValuePos - 1) as i64, File: name } }
// the message of a literal
pub open spec fn text_entry(name: Seq<u8>, src: Seq<u8>, l: AstLit) -> Entry {
    Entry { ID: go_unquote(l.Value), Locations: seq![lit_loc(name, src, l)], ..zero_Entry() }
}
// the message of a call
pub open spec fn call_entry(name: Seq<u8>, src: Seq<u8>, c: AstCall) -> Entry {
    let m = tr_method(call_name(c))->0;
    Entry { Context: lit_text(arg_lit(c, m.context)), Plural: lit_text(arg_lit(c, m.plural)), ..text_entry(name, src, arg_lit(c, m.id)->0) }
}
pub open spec fn add_lit(s: Map<AstNode, ()>, l: Option<AstLit>) -> Map<AstNode, ()> { match l { Some(x) => s.insert(AstNode::Lit(Box::new(x)), ()), None => s } }
pub open spec fn add_lits(s: Map<AstNode, ()>, c: AstCall) -> Map<AstNode, ()> {
    let m = tr_method(call_name(c))->0;
    add_lit(add_lit(add_lit(s, arg_lit(c, m.id)), arg_lit(c, m.context)), arg_lit(c, m.plural))
}
// only the reader has moved
pub open spec fn file_moved(f: Goparse_File, g: Goparse_File) -> Goparse_File
{ Goparse_File { reader: if g.reader is Some && f.reader is Some && g.reader->0.data == f.reader->0.data { g.reader } else { f.reader }, ..f } }

// --- whole files ---
pub struct ExCtx { pub name: Seq<u8>, pub src: Seq<u8>, pub names: Seq<Seq<u8>>, pub all: bool }
pub open spec fn ex_ctx(f: Goparse_File) -> ExCtx { ExCtx { name: f.name, src: f.reader->0.data, names: f.pkgNames, all: f.config->0.ExtractAll } }
// a call that gives a message
pub open spec fn ex_call(c: ExCtx, n: AstNode) -> bool { tr_call(c.names, n) && arg_lit(*n->Call_0, tr_method(call_name(*n->Call_0))->0.id) is Some }
pub open spec fn ex_lit(c: ExCtx, seen: Map<AstNode, ()>, n: AstNode) -> bool { c.all && n is Lit && lit_full(*n->Lit_0) && !seen.contains_key(n) }
// the messages of one node, and the literals that are accounted for after it
pub open spec fn ex_node(c: ExCtx, seen: Map<AstNode, ()>, n: AstNode) -> (Seq<Entry>, Map<AstNode, ()>) {
    if ex_call(c, n) { (seq![call_entry(c.name, c.src, *n->Call_0)], add_lits(seen, *n->Call_0)) }
    else if ex_lit(c, seen, n) { (seq![text_entry(c.name, c.src, *n->Lit_0)], seen.insert(n, ())) }
    else if c.all && n is Import { (Seq::empty(), add_lit(seen, n->Import_0.Path)) }
    else { (Seq::empty(), seen) }
}
pub open spec fn ex_walk(c: ExCtx, nodes: Seq<AstNode>) -> (Seq<Entry>, Map<AstNode, ()>)
    decreases nodes.len()
{
    if nodes.len() == 0 { (Seq::empty(), Map::empty()) }
    else { let x = ex_walk(c, nodes.drop_last()); let y = ex_node(c, x.1, nodes.last()); (x.0.add(y.0), y.1) }
}
pub open spec fn node_ok(names: Seq<Seq<u8>>, n: AstNode) -> bool {
    ast_ok(n) && (n is Lit ==> lit_ok(*n->Lit_0)) && (tr_call(names, n) ==> call_ok(*n->Call_0))
}

// --- imports ---
pub open spec fn wanted_path(p: Seq<u8>) -> bool { p == b"\"github.com/leonelquinteros/gotext\"" || p == b"`github.com/leonelquinteros/gotext`" }
pub open spec fn import_ok(i: Option<AstImport>) -> bool { i is Some && i->0.Path is Some }
// the names a file has for the package
pub open spec fn import_names(l: Seq<Option<AstImport>>) -> Seq<Seq<u8>>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else {
        let (rest, i) = (import_names(l.drop_last()), l.last()->0);
        if wanted_path(i.Path->0.Value) { rest.push(match i.Name { Some(n) => n.Name, None => b"gotext" }) } else { rest }
    }
}
pub proof fn lemma_no_names(c: ExCtx, nodes: Seq<AstNode>)
    ensures c.names.len() == 0 && !c.all ==> ex_walk(c, nodes).0 == Seq::<Entry>::empty()
    decreases nodes.len()
{
    if nodes.len() > 0 { lemma_no_names(c, nodes.drop_last()); assert(Seq::<Entry>::empty().add(Seq::<Entry>::empty()) =~= Seq::<Entry>::empty()); }
}

// --- files and catalogues ---
pub open spec fn file_is(f: Goparse_File, c: Option<Goparse_Config>, name: Seq<u8>, src: Seq<u8>) -> bool {
    &&& f.config == c && f.name == name && f.reader is Some && f.reader->0.data == src
    &&& go_parse_file_err(name, src) is Nil && f.file == go_parse_file(name, src)
    &&& f.pkgNames == import_names(f.file->0.Imports) && f.hasGotext == (f.pkgNames.len() > 0)
}
pub open spec fn tree_nodes(name: Seq<u8>, src: Seq<u8>) -> Seq<AstNode> { ast_walk(ast_file_node(go_parse_file(name, src)->0)) }
pub open spec fn tree_names(name: Seq<u8>, src: Seq<u8>) -> Seq<Seq<u8>> { import_names(go_parse_file(name, src)->0.Imports) }
// the shape of the trees that go/parser gives (assumed of go/parser)
pub axiom fn ax_tree_shape(name: Seq<u8>, src: Seq<u8>)
    requires go_parse_file_err(name, src) is Nil
    ensures
        go_parse_file(name, src) is Some,
        forall|i: int| 0 <= i < go_parse_file(name, src)->0.Imports.len() ==> import_ok(#[trigger] go_parse_file(name, src)->0.Imports[i]),
        forall|i: int| 0 <= i < tree_nodes(name, src).len() ==> ast_ok(#[trigger] tree_nodes(name, src)[i]) && (tree_nodes(name, src)[i] is Lit ==> lit_ok(*tree_nodes(name, src)[i]->Lit_0)),
;
// what compiling makes sure of: the calls of the package's functions have the arguments they need
pub open spec fn calls_ok(name: Seq<u8>, src: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < tree_nodes(name, src).len() && tr_call(tree_names(name, src), #[trigger] tree_nodes(name, src)[i]) ==> call_ok(*tree_nodes(name, src)[i]->Call_0)
}
// the messages of a file
pub open spec fn file_messages(c: Goparse_Config, name: Seq<u8>, src: Seq<u8>) -> Seq<Entry> {
    ex_walk(ExCtx { name: name, src: src, names: tree_names(name, src), all: c.ExtractAll }, tree_nodes(name, src)).0
}
pub open spec fn file_loaded(f: Option<Goparse_File>) -> bool {
    f is Some && f->0.reader is Some && file_is(f->0, f->0.config, f->0.name, f->0.reader->0.data) && calls_ok(f->0.name, f->0.reader->0.data)
}
// the files are the ones they were, for all that is read of them
pub open spec fn files_as(a: Seq<Option<Goparse_File>>, b: Seq<Option<Goparse_File>>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger b[i]] 0 <= i < a.len() ==> a[i] is Some && b[i] is Some && b[i]->0.name == a[i]->0.name && (file_loaded(a[i]) ==> file_loaded(b[i]) && b[i]->0.reader->0.data == a[i]->0.reader->0.data && b[i]->0.config == a[i]->0.config)
}
pub proof fn lemma_files_as(c: Goparse_Config, a: Seq<Option<Goparse_File>>, b: Seq<Option<Goparse_File>>)
    requires files_as(a, b), forall|i: int| 0 <= i < a.len() ==> file_loaded(#[trigger] a[i])
    ensures files_messages(c, a) == files_messages(c, b), go_messages(c, a) == go_messages(c, b), forall|i: int| 0 <= i < b.len() ==> file_loaded(#[trigger] b[i])
    decreases a.len()
{
    assert forall|i: int| 0 <= i < b.len() implies file_loaded(#[trigger] b[i]) by { assert(file_loaded(a[i])); };
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        assert forall|i: int| #![trigger y[i]] 0 <= i < x.len() implies x[i] is Some && y[i] is Some && y[i]->0.name == x[i]->0.name && (file_loaded(x[i]) ==> file_loaded(y[i]) && y[i]->0.reader->0.data == x[i]->0.reader->0.data && y[i]->0.config == x[i]->0.config) by { assert(x[i] == a[i] && y[i] == b[i]); };
        assert forall|i: int| 0 <= i < x.len() implies file_loaded(#[trigger] x[i]) by { assert(x[i] == a[i]); };
        lemma_files_as(c, x, y);
        assert(file_loaded(a[a.len() - 1]) && b[a.len() - 1] is Some);
    }
}
pub open spec fn files_messages(c: Goparse_Config, l: Seq<Option<Goparse_File>>) -> Seq<Entry>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else { files_messages(c, l.drop_last()).add(file_messages(c, l.last()->0.name, l.last()->0.reader->0.data)) }
}
pub open spec fn go_header(c: Goparse_Config) -> Seq<Entry> {
    if c.NoHeader { Seq::empty() } else { seq![match c.CustomHeader {
        Some(h) => header_entry(h.Template, h.Fields),
        None => { let x = HeaderConfig { XGenerator: b"xgotext", ..(match c.HeaderConfig { Some(h) => h, None => default_template_config() }) }; header_entry(x.Template, cfg_fields(x)) },
    }] }
}
pub open spec fn go_messages(c: Goparse_Config, l: Seq<Option<Goparse_File>>) -> Seq<Entry> {
    let es = go_header(c).add(files_messages(c, l));
    if c.CleanDuplicates { dedup(es) } else { es }
}

// --- settings ---
// the options applied in order to a configuration
pub open spec fn opts_goparse_config(c: Goparse_Config, o: Seq<spec_fn(Goparse_Config) -> Goparse_Config>, n: int) -> Goparse_Config
    decreases n
{ if n <= 0 { c } else { o[n - 1](opts_goparse_config(c, o, n - 1)) } }
pub open spec fn go_settings(o: Seq<spec_fn(Goparse_Config) -> Goparse_Config>) -> Goparse_Config {
    opts_goparse_config(Goparse_Config { Logger: Some(zero_GoLogger()), CleanDuplicates: true, ..zero_Goparse_Config() }, o, o.len() as int)
}
// the catalogue of one file
pub open spec fn source_messages(c: Goparse_Config, name: Seq<u8>, src: Seq<u8>) -> Seq<Entry> {
    let es = go_header(c).add(file_messages(c, name, src));
    if c.CleanDuplicates { dedup(es) } else { es }
}
pub proof fn lemma_one_file(c: Goparse_Config, l: Seq<Option<Goparse_File>>)
    requires l.len() == 1
    ensures go_messages(c, l) == source_messages(c, l[0]->0.name, l[0]->0.reader->0.data)
{
    assert(l.drop_last() =~= Seq::empty());
    assert(files_messages(c, l.drop_last()) =~= Seq::empty());
    let m = file_messages(c, l[0]->0.name, l[0]->0.reader->0.data);
    assert(Seq::<Entry>::empty().add(m) =~= m);
}
pub open spec fn os_file_ok(f: Option<GoOsFile>) -> bool { gr_err(gr_file(f)) is Nil && go_parse_file_err(os_name(f), gr_data(gr_file(f))) is Nil }
// the messages of open files, in order
pub open spec fn os_messages(c: Goparse_Config, l: Seq<Option<GoOsFile>>) -> Seq<Entry>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else { os_messages(c, l.drop_last()).add(file_messages(c, os_name(l.last()), gr_data(gr_file(l.last())))) }
}
pub open spec fn os_catalogue(c: Goparse_Config, l: Seq<Option<GoOsFile>>) -> Seq<Entry> {
    let es = go_header(c).add(os_messages(c, l));
    if c.CleanDuplicates { dedup(es) } else { es }
}
pub open spec fn os_loaded(c: Goparse_Config, l: Seq<Option<Goparse_File>>, files: Seq<Option<GoOsFile>>) -> bool {
    &&& l.len() == files.len()
    &&& forall|i: int| 0 <= i < files.len() ==> (#[trigger] l[i]) is Some && file_is(l[i]->0, Some(c), os_name(files[i]), gr_data(gr_file(files[i])))
}
pub proof fn lemma_os_messages(c: Goparse_Config, l: Seq<Option<Goparse_File>>, files: Seq<Option<GoOsFile>>)
    requires os_loaded(c, l, files)
    ensures files_messages(c, l) == os_messages(c, files)
    decreases l.len()
{
    if l.len() > 0 {
        assert forall|i: int| 0 <= i < files.len() - 1 implies (#[trigger] l.drop_last()[i]) is Some && file_is(l.drop_last()[i]->0, Some(c), os_name(files.drop_last()[i]), gr_data(gr_file(files.drop_last()[i]))) by { assert(l.drop_last()[i] == l[i]); };
        lemma_os_messages(c, l.drop_last(), files.drop_last());
        assert(l[l.len() - 1] is Some);
    }
}
// --- paths ---
pub open spec fn excluded_path(p: Seq<u8>, ex: Seq<Seq<u8>>) -> bool {
    exists|i: int| 0 <= i < ex.len() && path_abs(#[trigger] ex[i]) == path_abs(p) && path_abs_err(ex[i]) is Nil && path_abs_err(p) is Nil
}
// a Go file that can be told apart
pub open spec fn go_item(it: KrItem) -> bool { it.err is Nil && !it.dir && path_ext(it.path) == b".go" && path_abs_err(it.path) is Nil }
pub open spec fn skip_item(it: KrItem, ex: Seq<Seq<u8>>, seen: Map<Seq<u8>, ()>) -> bool {
    !go_item(it) || seen.contains_key(path_abs(it.path)) || excluded_path(it.path, ex)
}
pub open spec fn seen_after(it: KrItem, seen: Map<Seq<u8>, ()>) -> Map<Seq<u8>, ()> { if go_item(it) { seen.insert(path_abs(it.path), ()) } else { seen } }
// the files of a walk that are read, and the paths met after it
pub open spec fn walk_files(ex: Seq<Seq<u8>>, seen: Map<Seq<u8>, ()>, items: Seq<KrItem>) -> (Seq<Seq<u8>>, Map<Seq<u8>, ()>)
    decreases items.len()
{
    if items.len() == 0 { (Seq::empty(), seen) }
    else {
        let x = walk_files(ex, seen, items.drop_last());
        (if skip_item(items.last(), ex, x.1) { x.0 } else { x.0.push(items.last().path) }, seen_after(items.last(), x.1))
    }
}
pub open spec fn paths_files(ex: Seq<Seq<u8>>, seen: Map<Seq<u8>, ()>, paths: Seq<Seq<u8>>) -> (Seq<Seq<u8>>, Map<Seq<u8>, ()>)
    decreases paths.len()
{
    if paths.len() == 0 { (Seq::empty(), seen) }
    else {
        let x = paths_files(ex, seen, paths.drop_last());
        let y = walk_files(ex, x.1, kr_walk(paths.last()));
        (x.0.add(y.0), y.1)
    }
}
pub open spec fn path_data(p: Seq<u8>) -> Seq<u8> { gr_data(gr_file(os_open(p))) }
pub open spec fn path_ok(p: Seq<u8>) -> bool { os_open_err(p) is Nil && gr_err(gr_file(os_open(p))) is Nil && go_parse_file_err(p, path_data(p)) is Nil }
pub open spec fn appended(c: Goparse_Config, old_l: Seq<Option<Goparse_File>>, l: Seq<Option<Goparse_File>>, paths: Seq<Seq<u8>>) -> bool {
    &&& l.len() == old_l.len() + paths.len()
    &&& forall|i: int| 0 <= i < old_l.len() ==> #[trigger] l[i] == old_l[i]
    &&& forall|i: int| 0 <= i < paths.len() ==> path_ok(#[trigger] paths[i]) && l[old_l.len() + i] is Some && file_is(l[old_l.len() + i]->0, Some(c), paths[i], path_data(paths[i]))
}
// after some paths, and part of the walk of one more
pub open spec fn met(ex: Seq<Seq<u8>>, seen: Map<Seq<u8>, ()>, paths: Seq<Seq<u8>>, items: Seq<KrItem>) -> (Seq<Seq<u8>>, Map<Seq<u8>, ()>) {
    let x = paths_files(ex, seen, paths);
    let y = walk_files(ex, x.1, items);
    (x.0.add(y.0), y.1)
}
pub proof fn lemma_met0(ex: Seq<Seq<u8>>, seen: Map<Seq<u8>, ()>, paths: Seq<Seq<u8>>)
    ensures met(ex, seen, paths, Seq::empty()) == paths_files(ex, seen, paths)
{ let x = paths_files(ex, seen, paths); assert(x.0.add(Seq::empty()) =~= x.0); }
pub proof fn lemma_met(ex: Seq<Seq<u8>>, seen: Map<Seq<u8>, ()>, paths: Seq<Seq<u8>>, items: Seq<KrItem>)
    requires items.len() > 0
    ensures ({
        let a = met(ex, seen, paths, items.drop_last());
        let b = met(ex, seen, paths, items);
        &&& b.0 == (if skip_item(items.last(), ex, a.1) { a.0 } else { a.0.push(items.last().path) })
        &&& b.1 == seen_after(items.last(), a.1)
    })
{
    let a = met(ex, seen, paths, items.drop_last());
    let b = met(ex, seen, paths, items);
    if skip_item(items.last(), ex, a.1) { assert(b.0 =~= a.0); } else { assert(b.0 =~= a.0.push(items.last().path)); }
}
pub open spec fn walk_ok(w: Seq<KrItem>) -> bool { forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]).err is Nil }
pub open spec fn walks_ok(l: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < l.len() ==> walk_ok(kr_walk(#[trigger] l[i])) }
pub open spec fn paths_read(c: Goparse_Config, l: Seq<Seq<u8>>) -> Seq<Seq<u8>> { paths_files(c.Exclude, Map::empty(), l).0 }
pub open spec fn path_messages(c: Goparse_Config, l: Seq<Seq<u8>>) -> Seq<Entry>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else { path_messages(c, l.drop_last()).add(file_messages(c, l.last(), path_data(l.last()))) }
}
// the catalogue of all the Go files under some paths
pub open spec fn paths_catalogue(c: Goparse_Config, l: Seq<Seq<u8>>) -> Seq<Entry> {
    let es = go_header(c).add(path_messages(c, paths_read(c, l)));
    if c.CleanDuplicates { dedup(es) } else { es }
}
pub proof fn lemma_path_messages(c: Goparse_Config, l: Seq<Option<Goparse_File>>, paths: Seq<Seq<u8>>)
    requires appended(c, Seq::empty(), l, paths), forall|q: Seq<u8>| path_ok(q) ==> #[trigger] calls_ok(q, path_data(q))
    ensures files_messages(c, l) == path_messages(c, paths), forall|i: int| 0 <= i < l.len() ==> file_loaded(#[trigger] l[i])
    decreases l.len()
{
    assert forall|i: int| 0 <= i < l.len() implies file_loaded(#[trigger] l[i]) by { assert(path_ok(paths[i])); assert(l[0 + i] is Some); };
    if l.len() > 0 {
        let (m, ps) = (l.drop_last(), paths.drop_last());
        assert forall|i: int| 0 <= i < ps.len() implies path_ok(#[trigger] ps[i]) && m[0 + i] is Some && file_is(m[0 + i]->0, Some(c), ps[i], path_data(ps[i])) by { assert(ps[i] == paths[i]); assert(m[0 + i] == l[0 + i]); };
        lemma_path_messages(c, m, ps);
        assert(paths[paths.len() - 1] == paths.last());
        assert(l[0 + (l.len() - 1)] == l.last());
    }
}
// --- what the definitions amount to ---
pub open spec fn collected(c: ExCtx, nodes: Seq<AstNode>) -> Seq<AstNode>
    decreases nodes.len()
{ if nodes.len() == 0 { Seq::empty() } else { let r = collected(c, nodes.drop_last()); if ex_call(c, nodes.last()) { r.push(nodes.last()) } else { r } } }
// without extract-all: one message for every call that counts, in order, and nothing else
pub proof fn lemma_exact(c: ExCtx, nodes: Seq<AstNode>)
    requires !c.all
    ensures ex_walk(c, nodes).0 == collected(c, nodes).map_values(|n: AstNode| call_entry(c.name, c.src, *n->Call_0))
    decreases nodes.len()
{
    let g = |n: AstNode| call_entry(c.name, c.src, *n->Call_0);
    if nodes.len() > 0 {
        lemma_exact(c, nodes.drop_last());
        assert(ex_walk(c, nodes).0 =~= collected(c, nodes).map_values(g));
    } else { assert(ex_walk(c, nodes).0 =~= collected(c, nodes).map_values(g)); }
}
// the literal's text is in some message
pub open spec fn says(e: Entry, t: Seq<u8>) -> bool { e.ID == t || e.Plural == t || e.Context == t }
pub open spec fn shown(es: Seq<Entry>, t: Seq<u8>) -> bool { exists|i: int| 0 <= i < es.len() && says(#[trigger] es[i], t) }
pub open spec fn import_path(nodes: Seq<AstNode>, n: AstNode) -> bool { exists|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Import && nodes[i]->Import_0.Path == Some(*n->Lit_0) }
pub open spec fn accounted(es: Seq<Entry>, nodes: Seq<AstNode>, n: AstNode) -> bool { n is Lit && (shown(es, go_unquote((*n->Lit_0).Value)) || import_path(nodes, n)) }
proof fn lemma_shown_more(es: Seq<Entry>, more: Seq<Entry>, nodes: Seq<AstNode>, n: AstNode)
    requires accounted(es, nodes.drop_last(), n), nodes.len() > 0
    ensures accounted(es.add(more), nodes, n)
{
    let t = go_unquote((*n->Lit_0).Value);
    if shown(es, t) {
        let i = choose|i: int| 0 <= i < es.len() && says(#[trigger] es[i], t);
        assert(es.add(more)[i] == es[i]);
        assert(shown(es.add(more), t));
    } else {
        let d = nodes.drop_last();
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Import && d[i]->Import_0.Path == Some(*n->Lit_0);
        assert(nodes[i] == d[i]);
    }
}
// with extract-all: every literal with text, but for import paths, is in some message
pub proof fn lemma_all_shown(c: ExCtx, nodes: Seq<AstNode>)
    requires c.all
    ensures
        forall|n: AstNode| #[trigger] ex_walk(c, nodes).1.contains_key(n) ==> accounted(ex_walk(c, nodes).0, nodes, n),
        forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Lit && lit_full(*nodes[i]->Lit_0) ==> accounted(ex_walk(c, nodes).0, nodes, nodes[i]),
    decreases nodes.len()
{
    if nodes.len() > 0 {
        let d = nodes.drop_last();
        lemma_all_shown(c, d);
        let (x, n) = (ex_walk(c, d), nodes.last());
        let y = ex_node(c, x.1, n);
        let w = ex_walk(c, nodes);
        assert forall|k: AstNode| #[trigger] w.1.contains_key(k) implies accounted(w.0, nodes, k) by {
            if x.1.contains_key(k) { lemma_shown_more(x.0, y.0, nodes, k); }
            else if ex_call(c, n) {
                let (m, e, j) = (tr_method(call_name(*n->Call_0))->0, call_entry(c.name, c.src, *n->Call_0), x.0.len() as int);
                assert(w.0[j] == e);
                let t = go_unquote((*k->Lit_0).Value);
                assert(says(w.0[j], t));
            } else if ex_lit(c, x.1, n) {
                let j = x.0.len() as int;
                assert(w.0[j] == text_entry(c.name, c.src, *n->Lit_0));
                assert(says(w.0[j], go_unquote((*k->Lit_0).Value)));
            } else { assert(nodes[nodes.len() - 1] is Import); }
        };
        assert forall|i: int| 0 <= i < nodes.len() && (#[trigger] nodes[i]) is Lit && lit_full(*nodes[i]->Lit_0) implies accounted(w.0, nodes, nodes[i]) by {
            if i < d.len() { assert(d[i] == nodes[i]); lemma_shown_more(x.0, y.0, nodes, d[i]); }
            else { assert(w.1.contains_key(nodes[i])); }
        };
    }
}

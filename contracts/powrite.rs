// include header.rs

// --- temporary options of the PO compiler ---
// the options applied in order to a configuration
pub open spec fn opts_compile_poconfig(c: Compile_PoConfig, o: Seq<spec_fn(Compile_PoConfig) -> Compile_PoConfig>, n: int) -> Compile_PoConfig
    decreases n
{ if n <= 0 { c } else { o[n - 1](opts_compile_poconfig(c, o, n - 1)) } }
// the configuration as it is while the options are in force
pub open spec fn with_compile_poconfig(c: Compile_PoConfig, o: Seq<spec_fn(Compile_PoConfig) -> Compile_PoConfig>) -> Compile_PoConfig
{ Compile_PoConfig { lastCfg: any_of_Compile_PoConfig(c), ..opts_compile_poconfig(c, o, o.len() as int) } }
// only a configuration is ever saved (the field is private; see ApplyOptions)
pub open spec fn cfg_ok_compile_poconfig(c: Compile_PoConfig) -> bool { go_any_is_nil(c.lastCfg) || any_is_Compile_PoConfig(c.lastCfg) }


// --- what the PO writer writes ---
// with highlighting: colours of the terminal library, which asks the environment
pub uninterp spec fn po_coloured(c: GoAny, s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn po_styled(c: u8, a: Seq<GoAny>) -> Seq<u8>;

// one byte of a text between quotes
pub open spec fn esc1(c: u8) -> Seq<u8> {
    if c == 34 { seq![92u8, 34u8] }
    else if c == 92 { seq![92u8, 92u8] }
    else if c == 10 { seq![92u8, 110u8] }
    else if c == 9 { seq![92u8, 116u8] }
    else if c == 13 { seq![92u8, 114u8] }
    else if c < 32 || c == 127 { seq![92u8, 120u8].add(hex02(c as int)) }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()).add(esc1(s.last())) } }
pub open spec fn po_quoted(s: Seq<u8>) -> Seq<u8> { b"\"".add(esc(s)).add(b"\"\n") }

pub open spec fn cat_of<T>(f: spec_fn(T) -> Seq<u8>, s: Seq<T>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { cat_of(f, s.drop_last()).add(f(s.last())) } }
pub proof fn lemma_cat_step<T>(f: spec_fn(T) -> Seq<u8>, s: Seq<T>, n: int)
    requires 0 < n <= s.len()
    ensures cat_of(f, s.take(n)) == cat_of(f, s.take(n - 1)).add(f(s[n - 1]))
{ assert(s.take(n).drop_last() =~= s.take(n - 1)); }

// the lines of a text, one quoted string each
pub open spec fn po_lines(lines: Seq<Seq<u8>>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { po_lines(lines, n - 1).add(po_quoted(if n == lines.len() { lines[n - 1] } else { lines[n - 1].add(b"\n") })) } }
pub open spec fn po_text(c: Compile_PoConfig, s: Seq<u8>) -> Seq<u8> { if c.WordWrap { po_lines(split_byte(s, 10), split_byte(s, 10).len() as int) } else { po_quoted(s) } }

// comments: one line each, the mark repeated where a comment has several
pub open spec fn po_comment(mark: Seq<u8>) -> spec_fn(Seq<u8>) -> Seq<u8> { |c: Seq<u8>| mark.add(str_join(split_byte(c, 10), b"\n".add(mark))).add(b"\n") }
pub open spec fn po_ref(file_only: bool) -> spec_fn(Location) -> Seq<u8> {
    |l: Location| if file_only { b"#: ".add(l.File).add(b"\n") } else { b"#: ".add(l.File).add(b":").add(itoa(l.Line as int)).add(b"\n") }
}
pub open spec fn po_refs(c: Compile_PoConfig, l: Seq<Location>) -> Seq<u8> {
    if c.NoLocation || c.AddLocation == b"never" { Seq::empty() } else { cat_of(po_ref(c.AddLocation == b"file"), l) }
}
pub open spec fn po_flag() -> spec_fn(Seq<u8>) -> Seq<u8> { |f: Seq<u8>| b"#, ".add(f).add(b"\n") }
pub open spec fn po_comments(c: Compile_PoConfig, e: Entry) -> Seq<u8> {
    cat_of(po_comment(b"# "), e.Comments)
        .add(cat_of(po_comment(b"#. "), e.ExtractedComments))
        .add(po_refs(c, e.Locations))
        .add(cat_of(po_flag(), e.Flags))
        .add(cat_of(po_comment(b"#| "), e.Previous))
}
pub open spec fn po_msgid(c: Compile_PoConfig, e: Entry) -> Seq<u8> {
    (if e.Context.len() > 0 { b"msgctxt ".add(po_text(c, e.Context)) } else { Seq::empty() })
        .add(b"msgid ").add(po_text(c, e.ID))
        .add(if is_plural(e) { b"msgid_plural ".add(po_text(c, e.Plural)) } else { Seq::empty() })
}
pub open spec fn po_affixed(c: Compile_PoConfig, s: Seq<u8>) -> Seq<u8> { c.MsgstrPrefix.add(s).add(c.MsgstrSuffix) }
pub open spec fn po_form(c: Compile_PoConfig) -> spec_fn(PluralEntry) -> Seq<u8> {
    |p: PluralEntry| b"msgstr[".add(itoa(p.ID as int)).add(b"] ").add(po_text(c, po_affixed(c, p.Str)))
}
pub open spec fn po_msgstr(c: Compile_PoConfig, e: Entry) -> Seq<u8> {
    if !is_plural(e) { b"msgstr ".add(po_text(c, po_affixed(c, e.Str))) }
    else if e.Plurals.len() == 0 { b"msgstr[0] ".add(po_text(c, e.ID)).add(b"msgstr[1] ").add(po_text(c, e.ID)) }
    else { cat_of(po_form(c), e.Plurals) }
}
pub open spec fn po_prefixed(p: Seq<u8>) -> spec_fn(Seq<u8>) -> Seq<u8> {
    |l: Seq<u8>| if has_prefix(l, b"#") || l.len() == 0 { l.add(b"\n") } else { p.add(l).add(b"\n") }
}
pub open spec fn po_prefix(c: Compile_PoConfig, e: Entry) -> Seq<u8> {
    b"#".add(if !e.Obsolete { Seq::empty() } else if c.UseCustomObsoletePrefix { enc_rune(c.CustomObsoletePrefixRune as int) } else { b"~" }).add(b" ")
}
pub open spec fn po_plain(c: Compile_PoConfig, e: Entry) -> Seq<u8> { po_comments(c, e).add(po_msgid(c, e)).add(po_msgstr(c, e)) }
pub open spec fn po_entry(c: Compile_PoConfig) -> spec_fn(Entry) -> Seq<u8> {
    |e: Entry| (if e.Obsolete || (fuzzy(e) && c.CommentFuzzy) { cat_of(po_prefixed(po_prefix(c, e)), split_byte(po_plain(c, e), 10)) } else { po_plain(c, e) }).add(b"\n")
}
pub open spec fn po_header_field() -> spec_fn(HeaderField) -> Seq<u8> { |f: HeaderField| b"\"".add(esc(f.Key)).add(b": ").add(esc(f.Value)).add(b"\\n\"").add(b"\n") }
pub open spec fn po_copyright(c: Compile_PoConfig) -> Seq<u8> {
    if c.ForeignUser { b"# This file is put in the public domain." }
    else { b"# Copyright (C) ".add(c.CopyrightHolder).add(b"\n# This file is distributed under the same license as the ").add(c.PackageName).add(b" package.") }
}
pub open spec fn po_header(c: Compile_PoConfig, h: Header) -> Seq<u8> {
    (if c.HeaderComments { b"# ".add(c.Title).add(b"\n").add(po_copyright(c)).add(b"\n#\nmsgid \"\"\nmsgstr \"\"\n") } else { b"msgid \"\"\nmsgstr \"\"\n" })
        .add(if c.HeaderFields { cat_of(po_header_field(), h.Fields) } else { Seq::empty() })
        .add(b"\n")
}
// the whole file
pub open spec fn po_header_at(es: Seq<Entry>) -> int { first_index(es, |x: Entry| x.ID =~= Seq::<u8>::empty() && x.Context =~= Seq::<u8>::empty(), 0) }
pub open spec fn po_header_of(c: Compile_PoConfig, es: Seq<Entry>) -> Header {
    let e = es[po_header_at(es)];
    if c.HeaderConfig is Some { Header { Template: c.HeaderConfig->0.Template, Fields: cfg_fields(c.HeaderConfig->0) } }
    else { Header { Template: fuzzy(e), Fields: header_fields(split_byte(e.Str, 10)) } }
}
pub open spec fn po_without_header(es: Seq<Entry>) -> Seq<Entry> {
    let i = po_header_at(es);
    if i < 0 { es } else { es.take(i).add(es.skip(i + 1)) }
}
pub open spec fn po_document(c: Compile_PoConfig, es: Seq<Entry>) -> Seq<u8> {
    if c.OmitHeader { cat_of(po_entry(c), po_without_header(es)) }
    else if c.ManageHeader && po_header_at(es) >= 0 { po_header(c, po_header_of(c, es)).add(cat_of(po_entry(c), po_without_header(es))) }
    else { cat_of(po_entry(c), es) }
}

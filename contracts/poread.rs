// include powrite.rs

// --- temporary options of the PO parser ---
// the options applied in order to a configuration
pub open spec fn opts_parse_poconfig(c: Parse_PoConfig, o: Seq<spec_fn(Parse_PoConfig) -> Parse_PoConfig>, n: int) -> Parse_PoConfig
    decreases n
{ if n <= 0 { c } else { o[n - 1](opts_parse_poconfig(c, o, n - 1)) } }
// the configuration as it is while the options are in force
pub open spec fn with_parse_poconfig(c: Parse_PoConfig, o: Seq<spec_fn(Parse_PoConfig) -> Parse_PoConfig>) -> Parse_PoConfig
{ Parse_PoConfig { lastCfg: any_of_Parse_PoConfig(c), ..opts_parse_poconfig(c, o, o.len() as int) } }
// only a configuration is ever saved (the field is private; see ApplyOptions)
pub open spec fn cfg_ok_parse_poconfig(c: Parse_PoConfig) -> bool { go_any_is_nil(c.lastCfg) || any_is_Parse_PoConfig(c.lastCfg) }


// --- what the PO reader makes of a text ---
pub open spec fn rd_marker() -> Seq<u8> { b"\nmsgid \"---\"\nmsgstr \"---\"" }
pub open spec fn is_comment(t: LexToken) -> bool { t.Type == pm_util_PoSymbols_get(b"Comment") }
// about the grammar: a text that ends with the marker has an entry at least,
// and comment tokens start with '#'
pub open spec fn rd_tokens_ok(ts: Seq<LexToken>) -> bool { forall|i: int| 0 <= i < ts.len() && is_comment(#[trigger] ts[i]) ==> has_prefix(ts[i].Value, b"#") }
pub axiom fn ax_po_syntax(name: Seq<u8>, d: Seq<u8>)
    ensures pp_util_PoParser_err(name, d.add(rd_marker())) is Nil ==> {
        let f = pp_util_PoParser(name, d.add(rd_marker()))->0;
        &&& f.Entries.len() > 0
        &&& rd_tokens_ok(f.Tokens)
        &&& forall|i: int| 0 <= i < f.Entries.len() ==> rd_tokens_ok(#[trigger] f.Entries[i].Tokens)
    };

// the settings that matter
pub open spec fn rd_cfg(c: Parse_PoConfig) -> Parse_PoConfig { Parse_PoConfig { lastCfg: go_any_nil(), Logger: None, Verbose: false, ..c } }
pub open spec fn rd_sub(c: Parse_PoConfig) -> Parse_PoConfig { Parse_PoConfig { ParseObsoletes: false, markAllAsObsolete: true, ..c } }
pub open spec fn rd_prefix(c: Parse_PoConfig) -> Seq<u8> { if c.UseCustomObsoletePrefix { b"#".add(enc_rune(c.CustomObsoletePrefix as int)) } else { b"#~" } }
// the line of an obsolete entry behind a comment's prefix
pub open spec fn rd_line(p: Seq<u8>, s: Seq<u8>) -> Option<Seq<u8>> {
    if !has_prefix(s, p) { None } else {
        let l = str_trim_left(s.subrange(p.len() as int, s.len() as int), b" ");
        Some(if has_prefix(l, b"|") { b"#".add(l) } else { l })
    }
}
// locations
pub open spec fn rd_loc(s: Seq<u8>) -> Location {
    let i = str_last(s, 58);
    if i == -1 { Location { Line: -1i64, File: s } }
    else if i == s.len() - 1 { Location { Line: -1i64, File: s.subrange(0, i) } }
    else if !(go_atoi_err(s.subrange(i + 1, s.len() as int)) is Nil) { Location { Line: -1i64, File: s } }
    else { Location { Line: go_atoi(s.subrange(i + 1, s.len() as int)), File: s.subrange(0, i) } }
}
pub open spec fn rd_locs_of(fs: Seq<Seq<u8>>) -> Seq<Location>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { rd_locs_of(fs.drop_last()).push(rd_loc(fs.last())) } }
pub open spec fn rd_locs(s: Seq<u8>) -> Seq<Location> {
    if exists|i: int| 0 <= i < str_fields(s).len() && rd_loc(#[trigger] str_fields(s)[i]).Line == -1i64 { seq![rd_loc(s)] } else { rd_locs_of(str_fields(s)) }
}
pub open spec fn rd_flags(fs: Seq<Seq<u8>>) -> Seq<Seq<u8>>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { rd_flags(fs.drop_last()).push(go_strings_TrimSpace(fs.last())) } }
// a comment of an entry
pub open spec fn rd_add(p: Seq<u8>, e: Entry, t: LexToken) -> Entry {
    let s = tok_string(t);
    if !is_comment(t) { e }
    else if rd_line(p, s) is Some { Entry { Comments: Seq::empty(), ExtractedComments: Seq::empty(), Previous: Seq::empty(), Locations: Seq::empty(), Flags: Seq::empty(), ..e } }
    else if has_prefix(s, b"#:") { Entry { Locations: e.Locations.add(rd_locs(re_rest(s, 2))), ..e } }
    else if has_prefix(s, b"#.") { Entry { ExtractedComments: e.ExtractedComments.push(re_rest(s, 2)), ..e } }
    else if has_prefix(s, b"#,") { Entry { Flags: e.Flags.add(rd_flags(split_byte(re_rest(s, 2), 44))), ..e } }
    else if has_prefix(s, b"#|") { Entry { Previous: e.Previous.push(re_rest(s, 2)), ..e } }
    else { Entry { Comments: e.Comments.push(re_rest(s, 1)), ..e } }
}
pub open spec fn rd_adds(p: Seq<u8>, e: Entry, ts: Seq<LexToken>) -> Entry
    decreases ts.len()
{ if ts.len() == 0 { e } else { rd_add(p, rd_adds(p, e, ts.drop_last()), ts.last()) } }
// the lines of the obsolete entries among a file's tokens, and the comments that may belong to the next one
pub open spec fn rd_obs_step(p: Seq<u8>, x: (Seq<Seq<u8>>, Seq<Seq<u8>>), t: LexToken) -> (Seq<Seq<u8>>, Seq<Seq<u8>>) {
    if t.Type == pm_util_PoSymbols_get(b"WS") { x }
    else if !is_comment(t) { (x.0, Seq::empty()) }
    else { match rd_line(p, tok_string(t)) { None => (x.0, x.1.push(tok_string(t))), Some(l) => (x.0.add(x.1).push(l), Seq::empty()) } }
}
pub open spec fn rd_obs(p: Seq<u8>, ts: Seq<LexToken>) -> (Seq<Seq<u8>>, Seq<Seq<u8>>)
    decreases ts.len()
{ if ts.len() == 0 { (Seq::empty(), Seq::empty()) } else { rd_obs_step(p, rd_obs(p, ts.drop_last()), ts.last()) } }
pub open spec fn rd_forms(fs: Seq<Util_pluralEntries>) -> Seq<PluralEntry>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { rd_forms(fs.drop_last()).push(PluralEntry { ID: fs.last().ID, Str: str_join(fs.last().Str, Seq::empty()) }) } }
pub open spec fn rd_message(c: Parse_PoConfig, x: Util_entry) -> Entry {
    Entry { Context: str_join(x.Context, Seq::empty()), ID: str_join(x.ID, Seq::empty()), Str: str_join(x.Str, Seq::empty()), Plural: str_join(x.MsgidPlural, Seq::empty()), Plurals: rd_forms(x.Plurals), Obsolete: c.markAllAsObsolete, ..zero_Entry() }
}
pub open spec fn rd_entry(c: Parse_PoConfig, x: Util_entry) -> Entry {
    let e = if c.IgnoreAllComments { rd_message(c, x) } else { rd_adds(rd_prefix(c), rd_message(c, x), x.Tokens) };
    if c.IgnoreComments { Entry { Comments: Seq::empty(), ExtractedComments: Seq::empty(), Previous: Seq::empty(), ..e } } else { e }
}
pub open spec fn rd_entries(c: Parse_PoConfig, xs: Seq<Util_entry>) -> Seq<Entry>
    decreases xs.len()
{ if xs.len() == 0 { Seq::empty() } else { rd_entries(c, xs.drop_last()).push(rd_entry(c, xs.last())) } }
pub open spec fn rd_obs_text(c: Parse_PoConfig, ts: Seq<LexToken>) -> Option<Seq<u8>> {
    let l = rd_obs(rd_prefix(c), ts).0;
    if c.IgnoreAllComments || l.len() == 0 { None } else { Some(str_join(l, b"\n")) }
}
pub open spec fn rd_finish(c: Parse_PoConfig, es: Seq<Entry>) -> Seq<Entry> {
    let s = if c.SkipHeader { po_without_header(es) } else { es };
    if c.CleanDuplicates { dedup(s) } else { s }
}
pub open spec fn rd_parse(c: Parse_PoConfig, name: Seq<u8>, d: Seq<u8>) -> Option<Seq<Entry>>
    decreases (if c.ParseObsoletes { 1int } else { 0int })
{
    let t = d.add(rd_marker());
    if !(pp_util_PoParser_err(name, t) is Nil) { None } else {
        let f = pp_util_PoParser(name, t)->0;
        let a = rd_entries(c, f.Entries.drop_last());
        let o = if !c.ParseObsoletes { Seq::empty() } else { match rd_obs_text(c, f.Tokens) { None => Seq::empty(), Some(x) => match rd_parse(rd_sub(c), name, x) { None => Seq::empty(), Some(y) => y } } };
        Some(rd_finish(c, a.add(o)))
    }
}
// no errors are reported
pub open spec fn rd_ok(c: Parse_PoConfig, name: Seq<u8>, d: Seq<u8>) -> bool
    decreases (if c.ParseObsoletes { 1int } else { 0int })
{
    let t = d.add(rd_marker());
    pp_util_PoParser_err(name, t) is Nil && (c.ParseObsoletes ==> match rd_obs_text(c, pp_util_PoParser(name, t)->0.Tokens) { None => true, Some(x) => rd_ok(rd_sub(c), name, x) })
}
pub open spec fn comment_token() -> spec_fn(LexToken) -> bool { |t: LexToken| is_comment(t) }
// without comments
pub proof fn lemma_no_comments(p: Seq<u8>, e: Entry, ts: Seq<LexToken>)
    ensures
        rd_adds(p, e, keep(ts, comment_token())) == e,
        rd_obs(p, keep(ts, comment_token())).0.len() == 0,
        rd_obs(p, keep(ts, comment_token())).1.len() == 0,
        rd_tokens_ok(keep(ts, comment_token())),
    decreases ts.len()
{
    let f = comment_token();
    if ts.len() > 0 {
        let k = keep(ts.drop_last(), f);
        lemma_no_comments(p, e, ts.drop_last());
        if !f(ts.last()) {
            assert(keep(ts, f) == k.push(ts.last()));
            assert(keep(ts, f).drop_last() =~= k);
            assert forall|i: int| 0 <= i < keep(ts, f).len() && is_comment(#[trigger] keep(ts, f)[i]) implies has_prefix(keep(ts, f)[i].Value, b"#") by { if i < k.len() { assert(keep(ts, f)[i] == k[i]); } }
        }
    }
}
pub proof fn lemma_adds_step(p: Seq<u8>, e: Entry, ts: Seq<LexToken>, n: int)
    requires 0 < n <= ts.len()
    ensures rd_adds(p, e, ts.take(n)) == rd_add(p, rd_adds(p, e, ts.take(n - 1)), ts[n - 1]), rd_obs(p, ts.take(n)) == rd_obs_step(p, rd_obs(p, ts.take(n - 1)), ts[n - 1])
{ assert(ts.take(n).drop_last() =~= ts.take(n - 1)); }

pub open spec fn po_rd_settings(o: Seq<spec_fn(Parse_PoConfig) -> Parse_PoConfig>) -> Parse_PoConfig {
    with_parse_poconfig(Parse_PoConfig { CleanDuplicates: true, ParseObsoletes: true, ..zero_Parse_PoConfig() }, o)
}
pub open spec fn po_rd_new(p: Option<Parse_PoParser>, name: Seq<u8>, data: Seq<u8>, o: Seq<spec_fn(Parse_PoConfig) -> Parse_PoConfig>) -> bool {
    p == Some(Parse_PoParser { Config: po_rd_settings(o), originalData: data, filename: name, ..zero_Parse_PoParser() })
}
pub open spec fn po_rd_file(c: Parse_PoConfig, name: Seq<u8>, data: Seq<u8>, file: Option<File>) -> bool {
    &&& (file is None) == (rd_parse(rd_cfg(c), name, data) is None)
    &&& file is Some ==> file->0.Entries.d == rd_parse(rd_cfg(c), name, data)->0 && file->0.Name == name && file->0.Entries.own
}

// include order.rs
// Headers: lookup, update, the header text and reading it back (C13).
pub open spec fn h_find(fs: Seq<HeaderField>, key: Seq<u8>) -> int { first_index(fs, |f: HeaderField| f.Key == key, 0) }
pub open spec fn h_load(fs: Seq<HeaderField>, key: Seq<u8>) -> Seq<u8> { if h_find(fs, key) >= 0 { fs[h_find(fs, key)].Value } else { Seq::empty() } }
pub open spec fn h_set(fs: Seq<HeaderField>, key: Seq<u8>, value: Seq<u8>) -> Seq<HeaderField> {
    if h_find(fs, key) >= 0 { fs.update(h_find(fs, key), HeaderField { Key: key, Value: value }) } else { fs.push(HeaderField { Key: key, Value: value }) }
}
pub open spec fn h_sset(fs: Seq<HeaderField>, key: Seq<u8>, value: Seq<u8>) -> Seq<HeaderField> { if key.len() == 0 || value.len() == 0 { fs } else { h_set(fs, key, value) } }

pub proof fn lemma_h_find(fs: Seq<HeaderField>, key: Seq<u8>)
    ensures -1 <= h_find(fs, key) < fs.len(),
        h_find(fs, key) >= 0 ==> fs[h_find(fs, key)].Key == key && forall|j: int| 0 <= j < h_find(fs, key) ==> (#[trigger] fs[j]).Key != key,
        h_find(fs, key) < 0 ==> forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).Key != key,
{
    let p = |f: HeaderField| f.Key == key;
    lemma_first_index(fs, p, 0);
    let k = first_index(fs, p, 0);
    if k >= 0 { assert forall|j: int| 0 <= j < k implies (#[trigger] fs[j]).Key != key by { assert(!p(fs[j])); } }
    else { assert forall|j: int| 0 <= j < fs.len() implies (#[trigger] fs[j]).Key != key by { assert(!p(fs[j])); } }
}
pub proof fn lemma_h_find_is(fs: Seq<HeaderField>, key: Seq<u8>, k: int)
    requires -1 <= k < fs.len(),
        k >= 0 ==> fs[k].Key == key && forall|j: int| 0 <= j < k ==> (#[trigger] fs[j]).Key != key,
        k < 0 ==> forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).Key != key,
    ensures h_find(fs, key) == k
{
    lemma_h_find(fs, key);
    let q = h_find(fs, key);
    if k >= 0 { if q < 0 { assert(fs[k].Key != key); } else if q < k { assert(fs[q].Key != key); } else if k < q { assert(fs[k].Key != key); } }
    else if q >= 0 { assert(fs[q].Key != key); }
}
// Setting a field: a later lookup gives the value, every other name keeps its
// value, and every other field stays where and what it was.
pub proof fn lemma_h_set(fs: Seq<HeaderField>, key: Seq<u8>, value: Seq<u8>)
    ensures
        h_load(h_set(fs, key, value), key) == value,
        h_find(h_set(fs, key, value), key) >= 0,
        forall|k: Seq<u8>| k != key ==> #[trigger] h_load(h_set(fs, key, value), k) == h_load(fs, k),
        h_set(fs, key, value).len() == fs.len() + (if h_find(fs, key) >= 0 { 0int } else { 1int }),
        forall|j: int| 0 <= j < fs.len() && fs[j].Key != key ==> #[trigger] h_set(fs, key, value)[j] == fs[j],
        forall|j: int| 0 <= j < fs.len() && h_find(fs, key) != j ==> #[trigger] h_set(fs, key, value)[j] == fs[j],
{
    let gs = h_set(fs, key, value);
    lemma_h_find(fs, key);
    let q = h_find(fs, key);
    lemma_h_find_is(gs, key, if q >= 0 { q } else { fs.len() as int });
    assert forall|k: Seq<u8>| k != key implies #[trigger] h_load(gs, k) == h_load(fs, k) by {
        lemma_h_find(fs, k);
        let r = h_find(fs, k);
        lemma_h_find_is(gs, k, r);
    }
}
pub proof fn lemma_h_sset(fs: Seq<HeaderField>, key: Seq<u8>, value: Seq<u8>)
    ensures
        key.len() > 0 && value.len() > 0 ==> h_load(h_sset(fs, key, value), key) == value,
        forall|k: Seq<u8>| k != key ==> #[trigger] h_load(h_sset(fs, key, value), k) == h_load(fs, k),
{ lemma_h_set(fs, key, value); }

// --- the text of a header ---
pub open spec fn field_text(f: HeaderField) -> Seq<u8> { seq![10u8].add(f.Key).add(seq![58u8]).add(if f.Value == seq![32u8] { f.Value } else { seq![32u8].add(f.Value) }).add(seq![10u8]) }
pub open spec fn header_text(fs: Seq<HeaderField>) -> Seq<u8>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { header_text(fs.drop_last()).add(field_text(fs.last())) } }
pub open spec fn hspace() -> Seq<u8> { seq![32u8, 9u8, 13u8, 12u8] }
pub open spec fn is_hspace(c: u8) -> bool { c == 32 || c == 9 || c == 13 || c == 12 }
pub open spec fn colon_pos(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if s[i] == 58 { i } else { colon_pos(s, i + 1) } }
pub open spec fn line_field(s: Seq<u8>) -> HeaderField {
    let i = colon_pos(s, 0);
    HeaderField { Key: str_trim_right(s.subrange(0, i), hspace()), Value: str_trim_left(s.subrange(i + 1, s.len() as int), hspace()) }
}
pub open spec fn header_fields(lines: Seq<Seq<u8>>) -> Seq<HeaderField>
    decreases lines.len()
{ if lines.len() == 0 { Seq::empty() } else { let p = header_fields(lines.drop_last()); if colon_pos(lines.last(), 0) >= 0 { p.push(line_field(lines.last())) } else { p } } }

pub proof fn lemma_colon_pos(s: Seq<u8>, i: int)
    requires 0 <= i, i <= s.len()
    ensures colon_pos(s, i) == -1 || i <= colon_pos(s, i) < s.len(),
        colon_pos(s, i) >= 0 ==> s[colon_pos(s, i)] == 58 && forall|j: int| i <= j < colon_pos(s, i) ==> s[j] != 58,
        colon_pos(s, i) < 0 ==> forall|j: int| i <= j < s.len() ==> s[j] != 58,
    decreases s.len() - i
{ if i < s.len() && s[i] != 58 { lemma_colon_pos(s, i + 1); } }
// the library's search for a colon finds colon_pos
pub proof fn lemma_cut_colon(s: Seq<u8>)
    ensures str_cut(s, seq![58u8]).2 == (colon_pos(s, 0) >= 0),
        str_cut(s, seq![58u8]).2 ==> line_field(s) == (HeaderField { Key: str_trim_right(str_cut(s, seq![58u8]).0, hspace()), Value: str_trim_left(str_cut(s, seq![58u8]).1, hspace()) }),
{
    let sep = seq![58u8];
    lemma_colon_pos(s, 0);
    let c = colon_pos(s, 0);
    let i = str_index(s, sep) as int;
    ax_str_index(s, sep);
    if c >= 0 { assert(s.subrange(c, c + 1) =~= sep); assert(occurs_at(s, sep, c)); }
    if i >= 0 { assert(occurs_at(s, sep, i)); assert(s.subrange(i, i + 1)[0] == s[i]); assert(s.subrange(i, i + 1)[0] == 58); }
    assert(i < 0 ==> c < 0);
    assert(c < 0 ==> i < 0);
    if i >= 0 { if c < i { assert(!occurs_at(s, sep, c)); } assert(i == c); }
}

// --- a header whose names and values fit on their lines is read back ---
pub open spec fn no_byte(s: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != c }
pub open spec fn field_ok(f: HeaderField) -> bool {
    &&& no_byte(f.Key, 58) && no_byte(f.Key, 10) && no_byte(f.Value, 10)
    &&& f.Key.len() > 0 ==> !is_hspace(f.Key.last())
    &&& f.Value.len() > 0 ==> !is_hspace(f.Value[0])
}
pub proof fn lemma_split_nonempty(s: Seq<u8>, c: u8)
    ensures split_byte(s, c).len() >= 1
    decreases s.len()
{ if s.len() > 0 { lemma_split_nonempty(s.drop_last(), c); } }
pub proof fn lemma_split_add(a: Seq<u8>, x: Seq<u8>, c: u8)
    requires no_byte(x, c)
    ensures split_byte(a.add(x), c) == split_byte(a, c).update(split_byte(a, c).len() - 1, split_byte(a, c).last().add(x))
    decreases x.len()
{
    lemma_split_nonempty(a, c);
    let p = split_byte(a, c);
    if x.len() == 0 { assert(a.add(x) =~= a); assert(p.last().add(x) =~= p.last()); assert(p.update(p.len() - 1, p.last()) =~= p); }
    else {
        let y = x.drop_last();
        lemma_split_add(a, y, c);
        assert(a.add(x).drop_last() =~= a.add(y));
        assert(a.add(x).last() == x.last());
        let q = split_byte(a.add(y), c);
        assert(p.last().add(y).push(x.last()) =~= p.last().add(x));
        assert(q.update(q.len() - 1, q.last().push(x.last())) =~= p.update(p.len() - 1, p.last().add(x)));
    }
}
pub proof fn lemma_split_nl(a: Seq<u8>, c: u8)
    ensures split_byte(a.push(c), c) == split_byte(a, c).push(Seq::empty())
{ assert(a.push(c).drop_last() =~= a); }
pub proof fn lemma_trim_right_id(s: Seq<u8>)
    requires s.len() > 0 ==> !is_hspace(s.last())
    ensures str_trim_right(s, hspace()) == s
{ if s.len() > 0 { let h = hspace(); if h.contains(s.last()) { let i = h.index_of(s.last()); assert(h[i] == s.last()); } } }
pub proof fn lemma_trim_left_id(s: Seq<u8>)
    requires s.len() > 0 ==> !is_hspace(s[0])
    ensures str_trim_left(s, hspace()) == s
{ if s.len() > 0 { let h = hspace(); if h.contains(s[0]) { let i = h.index_of(s[0]); assert(h[i] == s[0]); } } }
pub proof fn lemma_trim_left_sp(v: Seq<u8>)
    requires v.len() > 0 ==> !is_hspace(v[0])
    ensures str_trim_left(seq![32u8].add(v), hspace()) == v
{
    let s = seq![32u8].add(v);
    assert(hspace()[0] == 32u8);
    assert(s[0] == 32u8);
    assert(s.subrange(1, s.len() as int) =~= v);
    lemma_trim_left_id(v);
}
pub open spec fn line_of(f: HeaderField) -> Seq<u8> { f.Key.add(seq![58u8]).add(seq![32u8].add(f.Value)) }
pub proof fn lemma_line_of(f: HeaderField)
    requires field_ok(f)
    ensures colon_pos(line_of(f), 0) >= 0, line_field(line_of(f)) == f, no_byte(line_of(f), 10), field_text(f) == seq![10u8].add(line_of(f)).push(10u8)
{
    let s = line_of(f);
    let k = f.Key.len() as int;
    lemma_colon_pos(s, 0);
    let c = colon_pos(s, 0);
    assert(s[k] == 58);
    assert forall|j: int| 0 <= j < k implies s[j] != 58 by { assert(s[j] == f.Key[j]); }
    assert(c == k);
    assert(s.subrange(0, k) =~= f.Key);
    assert(s.subrange(k + 1, s.len() as int) =~= seq![32u8].add(f.Value));
    lemma_trim_right_id(f.Key);
    lemma_trim_left_sp(f.Value);
    assert forall|i: int| 0 <= i < s.len() implies s[i] != 10 by { if i < k { assert(s[i] == f.Key[i]); } else if i > k + 1 { assert(s[i] == f.Value[i - k - 2]); } }
    if f.Value == seq![32u8] { assert(is_hspace(f.Value[0])); }
    assert(field_text(f) =~= seq![10u8].add(s).push(10u8));
}
pub proof fn lemma_header_round_trip(fs: Seq<HeaderField>)
    requires forall|i: int| 0 <= i < fs.len() ==> field_ok(#[trigger] fs[i])
    ensures header_fields(split_byte(header_text(fs), 10)) == fs, split_byte(header_text(fs), 10).last() == Seq::<u8>::empty()
    decreases fs.len()
{
    if fs.len() == 0 {
        let l = split_byte(header_text(fs), 10);
        assert(l == seq![Seq::<u8>::empty()]);
        assert(l.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(l.last() == Seq::<u8>::empty());
        assert(header_fields(l.drop_last()) == Seq::<HeaderField>::empty());
        assert(header_fields(l) =~= fs);
    } else {
        let ps = fs.drop_last();
        let f = fs.last();
        lemma_header_round_trip(ps);
        lemma_line_of(f);
        let t = header_text(ps);
        let x = line_of(f);
        assert(header_text(fs) =~= t.push(10u8).add(x).push(10u8));
        lemma_split_nl(t, 10);
        lemma_split_add(t.push(10u8), x, 10);
        lemma_split_nl(t.push(10u8).add(x), 10);
        let l0 = split_byte(t, 10);
        let l1 = l0.push(Seq::<u8>::empty());
        assert(Seq::<u8>::empty().add(x) =~= x);
        assert(l1.update(l1.len() - 1, x) =~= l0.push(x));
        let l2 = l0.push(x);
        let l3 = l2.push(Seq::<u8>::empty());
        assert(split_byte(header_text(fs), 10) == l3);
        assert(l3.drop_last() =~= l2);
        assert(l2.drop_last() =~= l0);
        assert(colon_pos(Seq::<u8>::empty(), 0) == -1);
        assert(header_fields(l2) == header_fields(l0).push(f));
        assert(header_fields(l3) == header_fields(l2));
        assert(ps.push(f) =~= fs);
    }
}

pub open spec fn header_pos(d: Seq<Entry>) -> int { first_index(d, |x: Entry| x.ID.len() == 0 && x.Context.len() == 0, 0) }

// --- configurations ---
pub open spec fn sset_all(fs: Seq<HeaderField>, xs: Seq<HeaderField>) -> Seq<HeaderField>
    decreases xs.len()
{ if xs.len() == 0 { fs } else { h_sset(sset_all(fs, xs.drop_last()), xs.last().Key, xs.last().Value) } }
pub open spec fn content_type(c: HeaderConfig) -> Seq<u8> { lib_mime_FormatMediaType_0(c.MediaType, Map::empty().insert(b"charset", c.Charset)) }
pub open spec fn plural_forms(c: HeaderConfig) -> Seq<u8> { b"nplurals=".add(itoa(c.Nplurals as int)).add(b"; plural=").add(c.Plural).add(b";") }
pub open spec fn cfg_named(c: HeaderConfig) -> Seq<HeaderField> {
    let f = Seq::<HeaderField>::empty();
    let f = h_sset(f, b"Project-Id-Version", c.ProjectIDVersion);
    let f = h_sset(f, b"Report-Msgid-Bugs-To", c.ReportMsgidBugsTo);
    let f = if c.Template { h_sset(f, b"POT-Creation-Date", c.POTCreationDate) } else { f };
    let f = h_sset(f, b"PO-Revision-Date", c.PORevisionDate);
    let f = h_sset(f, b"Last-Translator", c.LastTranslator);
    let f = h_sset(f, b"Language-Team", c.LanguageTeam);
    let f = h_sset(f, b"Language", c.Language);
    let f = h_sset(f, b"MIME-Version", c.MimeVersion);
    let f = if c.MediaType.len() > 0 && c.Charset.len() > 0 { h_sset(f, b"Content-Type", content_type(c)) } else { f };
    let f = h_sset(f, b"Content-Transfer-Encoding", c.ContentTransferEncoding);
    let f = if c.Nplurals != 0 && c.Plural.len() > 0 && !c.Template { h_sset(f, b"Plural-Forms", plural_forms(c)) } else { f };
    h_sset(f, b"X-Generator", c.XGenerator)
}
pub open spec fn cfg_fields(c: HeaderConfig) -> Seq<HeaderField> { sset_all(cfg_named(c), c.ExtraFields) }
pub open spec fn known_field(k: Seq<u8>) -> bool {
    k == b"Project-Id-Version" || k == b"Report-Msgid-Bugs-To" || k == b"POT-Creation-Date" || k == b"PO-Revision-Date" || k == b"Last-Translator" || k == b"Language-Team" || k == b"Language" || k == b"MIME-Version" || k == b"Content-Type" || k == b"Content-Transfer-Encoding" || k == b"Plural-Forms" || k == b"X-Generator"
}
pub open spec fn unknown_fields(fs: Seq<HeaderField>) -> Seq<HeaderField>
    decreases fs.len()
{ if fs.len() == 0 { Seq::empty() } else { let p = unknown_fields(fs.drop_last()); if known_field(fs.last().Key) { p } else { p.push(fs.last()) } } }
// what a configuration says about the field named k
pub open spec fn cfg_value(c: HeaderConfig, k: Seq<u8>) -> Seq<u8> {
    let e = Seq::<u8>::empty();
    if k == b"Project-Id-Version" { c.ProjectIDVersion }
    else if k == b"Report-Msgid-Bugs-To" { c.ReportMsgidBugsTo }
    else if k == b"POT-Creation-Date" { if c.Template { c.POTCreationDate } else { e } }
    else if k == b"PO-Revision-Date" { c.PORevisionDate }
    else if k == b"Last-Translator" { c.LastTranslator }
    else if k == b"Language-Team" { c.LanguageTeam }
    else if k == b"Language" { c.Language }
    else if k == b"MIME-Version" { c.MimeVersion }
    else if k == b"Content-Type" { if c.MediaType.len() > 0 && c.Charset.len() > 0 { content_type(c) } else { e } }
    else if k == b"Content-Transfer-Encoding" { c.ContentTransferEncoding }
    else if k == b"Plural-Forms" { if c.Nplurals != 0 && c.Plural.len() > 0 && !c.Template { plural_forms(c) } else { e } }
    else if k == b"X-Generator" { c.XGenerator }
    else { e }
}
pub proof fn lemma_field_names()
    ensures
        b"Project-Id-Version".len() > 0, b"Report-Msgid-Bugs-To".len() > 0, b"POT-Creation-Date".len() > 0, b"Content-Transfer-Encoding".len() > 0,
        b"Report-Msgid-Bugs-To" != b"Project-Id-Version",
        b"POT-Creation-Date" != b"Project-Id-Version",
        b"POT-Creation-Date" != b"Report-Msgid-Bugs-To",
        b"PO-Revision-Date" != b"Project-Id-Version",
        b"PO-Revision-Date" != b"Report-Msgid-Bugs-To",
        b"PO-Revision-Date" != b"POT-Creation-Date",
        b"Last-Translator" != b"Project-Id-Version",
        b"Last-Translator" != b"Report-Msgid-Bugs-To",
        b"Last-Translator" != b"POT-Creation-Date",
        b"Last-Translator" != b"PO-Revision-Date",
        b"Language-Team" != b"Project-Id-Version",
        b"Language-Team" != b"Report-Msgid-Bugs-To",
        b"Language-Team" != b"POT-Creation-Date",
        b"Language-Team" != b"PO-Revision-Date",
        b"Language-Team" != b"Last-Translator",
        b"Language" != b"Project-Id-Version",
        b"Language" != b"Report-Msgid-Bugs-To",
        b"Language" != b"POT-Creation-Date",
        b"Language" != b"PO-Revision-Date",
        b"Language" != b"Last-Translator",
        b"Language" != b"Language-Team",
        b"MIME-Version" != b"Project-Id-Version",
        b"MIME-Version" != b"Report-Msgid-Bugs-To",
        b"MIME-Version" != b"POT-Creation-Date",
        b"MIME-Version" != b"PO-Revision-Date",
        b"MIME-Version" != b"Last-Translator",
        b"MIME-Version" != b"Language-Team",
        b"MIME-Version" != b"Language",
        b"Content-Type" != b"Project-Id-Version",
        b"Content-Type" != b"Report-Msgid-Bugs-To",
        b"Content-Type" != b"POT-Creation-Date",
        b"Content-Type" != b"PO-Revision-Date",
        b"Content-Type" != b"Last-Translator",
        b"Content-Type" != b"Language-Team",
        b"Content-Type" != b"Language",
        b"Content-Type" != b"MIME-Version",
        b"Content-Transfer-Encoding" != b"Project-Id-Version",
        b"Content-Transfer-Encoding" != b"Report-Msgid-Bugs-To",
        b"Content-Transfer-Encoding" != b"POT-Creation-Date",
        b"Content-Transfer-Encoding" != b"PO-Revision-Date",
        b"Content-Transfer-Encoding" != b"Last-Translator",
        b"Content-Transfer-Encoding" != b"Language-Team",
        b"Content-Transfer-Encoding" != b"Language",
        b"Content-Transfer-Encoding" != b"MIME-Version",
        b"Content-Transfer-Encoding" != b"Content-Type",
        b"Plural-Forms" != b"Project-Id-Version",
        b"Plural-Forms" != b"Report-Msgid-Bugs-To",
        b"Plural-Forms" != b"POT-Creation-Date",
        b"Plural-Forms" != b"PO-Revision-Date",
        b"Plural-Forms" != b"Last-Translator",
        b"Plural-Forms" != b"Language-Team",
        b"Plural-Forms" != b"Language",
        b"Plural-Forms" != b"MIME-Version",
        b"Plural-Forms" != b"Content-Type",
        b"Plural-Forms" != b"Content-Transfer-Encoding",
        b"X-Generator" != b"Project-Id-Version",
        b"X-Generator" != b"Report-Msgid-Bugs-To",
        b"X-Generator" != b"POT-Creation-Date",
        b"X-Generator" != b"PO-Revision-Date",
        b"X-Generator" != b"Last-Translator",
        b"X-Generator" != b"Language-Team",
        b"X-Generator" != b"Language",
        b"X-Generator" != b"MIME-Version",
        b"X-Generator" != b"Content-Type",
        b"X-Generator" != b"Content-Transfer-Encoding",
        b"X-Generator" != b"Plural-Forms"
{
    reveal(B"Project-Id-Version"); reveal(B"Report-Msgid-Bugs-To"); reveal(B"POT-Creation-Date"); reveal(B"Content-Transfer-Encoding");
    assert(b"Project-Id-Version".len() == 18);
    assert(b"Report-Msgid-Bugs-To".len() == 20);
    assert(b"POT-Creation-Date".len() == 17);
    assert(b"PO-Revision-Date".len() == 16);
    assert(b"Last-Translator".len() == 15);
    assert(b"Language-Team".len() == 13);
    assert(b"Language".len() == 8);
    assert(b"MIME-Version".len() == 12);
    assert(b"Content-Type".len() == 12);
    assert(b"Content-Transfer-Encoding".len() == 25);
    assert(b"Plural-Forms".len() == 12);
    assert(b"X-Generator".len() == 11);
    assert(b"MIME-Version"[0] == 77 && b"Content-Type"[0] == 67 && b"Plural-Forms"[0] == 80);
}
pub proof fn lemma_sset_others(fs: Seq<HeaderField>, xs: Seq<HeaderField>, k: Seq<u8>)
    requires forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).Key != k
    ensures h_load(sset_all(fs, xs), k) == h_load(fs, k)
    decreases xs.len()
{
    if xs.len() > 0 {
        assert forall|i: int| 0 <= i < xs.drop_last().len() implies (#[trigger] xs.drop_last()[i]).Key != k by { assert(xs[i].Key != k); }
        lemma_sset_others(fs, xs.drop_last(), k);
        assert(xs[xs.len() - 1].Key != k);
        lemma_h_sset(sset_all(fs, xs.drop_last()), xs.last().Key, xs.last().Value);
    }
}
// the value of k after one more field
pub proof fn lemma_sset_value(fs: Seq<HeaderField>, key: Seq<u8>, value: Seq<u8>, k: Seq<u8>)
    requires key.len() > 0, h_load(fs, key).len() == 0
    ensures h_load(h_sset(fs, key, value), k) == (if k == key { value } else { h_load(fs, k) })
{ lemma_h_sset(fs, key, value); if k == key && value.len() == 0 { assert(h_load(fs, key) =~= value); } }
// Every field a configuration sets is found in its header, unless an extra
// field has the same name.
pub proof fn lemma_cfg_fields(c: HeaderConfig, k: Seq<u8>)
    requires forall|i: int| 0 <= i < c.ExtraFields.len() ==> (#[trigger] c.ExtraFields[i]).Key != k
    ensures h_load(cfg_fields(c), k) == cfg_value(c, k)
{
    lemma_sset_others(cfg_named(c), c.ExtraFields, k);
    lemma_cfg_named(c, k);
}
pub proof fn lemma_cfg_named(c: HeaderConfig, k: Seq<u8>)
    ensures h_load(cfg_named(c), k) == cfg_value(c, k)
{
    hide(h_sset); hide(h_load); hide(plural_forms); hide(content_type);
    lemma_field_names();
    let e = Seq::<u8>::empty();
    let f0 = Seq::<HeaderField>::empty();
    assert forall|q: Seq<u8>| #[trigger] h_load(f0, q) == e by { reveal(h_load); }
    let v1 = c.ProjectIDVersion;
    let f1 = h_sset(f0, b"Project-Id-Version", v1);
    assert forall|q: Seq<u8>| #[trigger] h_load(f1, q) == (if q == b"Project-Id-Version" { v1 } else { h_load(f0, q) }) by { lemma_sset_value(f0, b"Project-Id-Version", v1, q); }
    let v2 = c.ReportMsgidBugsTo;
    let f2 = h_sset(f1, b"Report-Msgid-Bugs-To", v2);
    assert forall|q: Seq<u8>| #[trigger] h_load(f2, q) == (if q == b"Report-Msgid-Bugs-To" { v2 } else { h_load(f1, q) }) by { lemma_sset_value(f1, b"Report-Msgid-Bugs-To", v2, q); }
    let v3 = if c.Template { c.POTCreationDate } else { e };
    let f3 = if c.Template { h_sset(f2, b"POT-Creation-Date", v3) } else { f2 };
    assert forall|q: Seq<u8>| #[trigger] h_load(f3, q) == (if q == b"POT-Creation-Date" { v3 } else { h_load(f2, q) }) by { lemma_sset_value(f2, b"POT-Creation-Date", v3, q); }
    let v4 = c.PORevisionDate;
    let f4 = h_sset(f3, b"PO-Revision-Date", v4);
    assert forall|q: Seq<u8>| #[trigger] h_load(f4, q) == (if q == b"PO-Revision-Date" { v4 } else { h_load(f3, q) }) by { lemma_sset_value(f3, b"PO-Revision-Date", v4, q); }
    let v5 = c.LastTranslator;
    let f5 = h_sset(f4, b"Last-Translator", v5);
    assert forall|q: Seq<u8>| #[trigger] h_load(f5, q) == (if q == b"Last-Translator" { v5 } else { h_load(f4, q) }) by { lemma_sset_value(f4, b"Last-Translator", v5, q); }
    let v6 = c.LanguageTeam;
    let f6 = h_sset(f5, b"Language-Team", v6);
    assert forall|q: Seq<u8>| #[trigger] h_load(f6, q) == (if q == b"Language-Team" { v6 } else { h_load(f5, q) }) by { lemma_sset_value(f5, b"Language-Team", v6, q); }
    let v7 = c.Language;
    let f7 = h_sset(f6, b"Language", v7);
    assert forall|q: Seq<u8>| #[trigger] h_load(f7, q) == (if q == b"Language" { v7 } else { h_load(f6, q) }) by { lemma_sset_value(f6, b"Language", v7, q); }
    let v8 = c.MimeVersion;
    let f8 = h_sset(f7, b"MIME-Version", v8);
    assert forall|q: Seq<u8>| #[trigger] h_load(f8, q) == (if q == b"MIME-Version" { v8 } else { h_load(f7, q) }) by { lemma_sset_value(f7, b"MIME-Version", v8, q); }
    let v9 = if c.MediaType.len() > 0 && c.Charset.len() > 0 { content_type(c) } else { e };
    let f9 = if c.MediaType.len() > 0 && c.Charset.len() > 0 { h_sset(f8, b"Content-Type", v9) } else { f8 };
    assert forall|q: Seq<u8>| #[trigger] h_load(f9, q) == (if q == b"Content-Type" { v9 } else { h_load(f8, q) }) by { lemma_sset_value(f8, b"Content-Type", v9, q); }
    let v10 = c.ContentTransferEncoding;
    let f10 = h_sset(f9, b"Content-Transfer-Encoding", v10);
    assert forall|q: Seq<u8>| #[trigger] h_load(f10, q) == (if q == b"Content-Transfer-Encoding" { v10 } else { h_load(f9, q) }) by { lemma_sset_value(f9, b"Content-Transfer-Encoding", v10, q); }
    let v11 = if c.Nplurals != 0 && c.Plural.len() > 0 && !c.Template { plural_forms(c) } else { e };
    let f11 = if c.Nplurals != 0 && c.Plural.len() > 0 && !c.Template { h_sset(f10, b"Plural-Forms", v11) } else { f10 };
    assert forall|q: Seq<u8>| #[trigger] h_load(f11, q) == (if q == b"Plural-Forms" { v11 } else { h_load(f10, q) }) by { lemma_sset_value(f10, b"Plural-Forms", v11, q); }
    let v12 = c.XGenerator;
    let f12 = h_sset(f11, b"X-Generator", v12);
    assert forall|q: Seq<u8>| #[trigger] h_load(f12, q) == (if q == b"X-Generator" { v12 } else { h_load(f11, q) }) by { lemma_sset_value(f11, b"X-Generator", v12, q); }
    assert(f12 == cfg_named(c));
}
pub open spec fn hopts(c: HeaderConfig, o: Seq<spec_fn(HeaderConfig) -> HeaderConfig>, n: int) -> HeaderConfig
    decreases n
{ if n <= 0 { c } else { o[n - 1](hopts(c, o, n - 1)) } }
pub open spec fn default_header_config() -> HeaderConfig {
    HeaderConfig { Language: b" ", MimeVersion: b"1.0", MediaType: b"text/plain", Charset: b"UTF-8", ContentTransferEncoding: b"8bit", Nplurals: 2, Plural: b"(n != 1)", ..zero_HeaderConfig() }
}
pub open spec fn default_template_config() -> HeaderConfig {
    HeaderConfig { Template: true, ProjectIDVersion: b"PACKAGE VERSION", ReportMsgidBugsTo: b" ", PORevisionDate: b"YEAR-MO-DA HO:MI+ZONE", LastTranslator: b"FULL NAME <EMAIL@ADDRESS>", LanguageTeam: b"LANGUAGE <LL@li.org>", Language: b" ", MimeVersion: b"1.0", MediaType: b"text/plain", Charset: b"CHARSET", ContentTransferEncoding: b"8bit", ..zero_HeaderConfig() }
}

// the character encodings GNU gettext supports
pub open spec fn supported_charset(k: Seq<u8>) -> bool {
    k == b"ASCII" || k == b"ISO-8859-1" || k == b"ISO-8859-2" || k == b"ISO-8859-3" || k == b"ISO-8859-4" || k == b"ISO-8859-5" || k == b"ISO-8859-6" || k == b"ISO-8859-7" || k == b"ISO-8859-8" || k == b"ISO-8859-9" || k == b"ISO-8859-13" || k == b"ISO-8859-14" || k == b"ISO-8859-15" || k == b"KOI8-R" || k == b"KOI8-U" || k == b"KOI8-T" || k == b"CP850" || k == b"CP866" || k == b"CP874" || k == b"CP932" || k == b"CP949" || k == b"CP950" || k == b"CP1250" || k == b"CP1251" || k == b"CP1252" || k == b"CP1253" || k == b"CP1254" || k == b"CP1255" || k == b"CP1256" || k == b"CP1257" || k == b"GB2312" || k == b"EUC-JP" || k == b"EUC-KR" || k == b"EUC-TW" || k == b"BIG5" || k == b"BIG5-HKSCS" || k == b"GBK" || k == b"GB18030" || k == b"SHIFT_JIS" || k == b"JOHAB" || k == b"TIS-620" || k == b"VISCII" || k == b"GEORGIAN-PS" || k == b"UTF-8"
}
pub open spec fn header_cfg_valid(c: HeaderConfig) -> bool {
    &&& (c.Plural.len() == 0) == (c.Nplurals == 0)
    &&& c.MediaType.len() == 0 || c.MediaType == b"text/plain"
    &&& c.ContentTransferEncoding.len() == 0 || c.ContentTransferEncoding == b"8bit"
    &&& c.Charset.len() == 0 || supported_charset(c.Charset)
}

// the rules of a header's settings: count and expression of the plural forms
// go together, plain text as it is, in a known character set
pub open spec fn no_plural(c: HeaderConfig) -> bool { c.Plural.len() == 0 && c.Nplurals != 0 }
pub open spec fn no_nplurals(c: HeaderConfig) -> bool { c.Plural.len() > 0 && c.Nplurals == 0 }
pub open spec fn bad_media(c: HeaderConfig) -> bool { c.MediaType.len() > 0 && c.MediaType != b"text/plain" }
pub open spec fn bad_encoding(c: HeaderConfig) -> bool { c.ContentTransferEncoding.len() > 0 && c.ContentTransferEncoding != b"8bit" }
pub open spec fn bad_charset(c: HeaderConfig) -> bool { c.Charset.len() > 0 && !supported_charset(c.Charset) }
pub open spec fn bad_settings(c: HeaderConfig) -> int {
    (if no_plural(c) { 1int } else { 0 }) + (if no_nplurals(c) { 1int } else { 0 }) + (if bad_media(c) { 1int } else { 0 }) + (if bad_encoding(c) { 1int } else { 0 }) + (if bad_charset(c) { 1int } else { 0 })
}

pub open spec fn header_entry(template: bool, fields: Seq<HeaderField>) -> Entry {
    Entry { Flags: if template { seq![fuzzy_flag()] } else { Seq::empty() }, Str: header_text(fields), ..zero_Entry() }
}

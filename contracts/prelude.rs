// ---------------------------------------------------------------------------
// Model of the Go run time and of the standard library used by the translated
// functions.  Everything marked external_body / uninterp / axiom here is
// trusted (assumed); the proofs below each definition are checked.
// ---------------------------------------------------------------------------

#[verifier::external_body]
pub fn branch(c: Ghost<bool>) -> (b: bool)
    ensures b == c@,
{ unimplemented!() }

#[verifier::external_body]
pub fn go_unreached<T>() -> (r: Ghost<T>)
    requires false,
{ unimplemented!() }

pub uninterp spec fn zero_of<T>() -> T;

// --- machine arithmetic (exact two's complement wrapping) ---
pub open spec fn w_u8(x: int) -> u8 { (if 0 <= x <= 255 { x } else { x % 256 }) as u8 }
pub open spec fn w_u16(x: int) -> u16 { (if 0 <= x <= 65535 { x } else { x % 65536 }) as u16 }
pub open spec fn w_u32(x: int) -> u32 { (if 0 <= x <= 0xffff_ffff { x } else { x % 0x1_0000_0000 }) as u32 }
pub open spec fn w_u64(x: int) -> u64 { (if 0 <= x <= 0xffff_ffff_ffff_ffff { x } else { x % 0x1_0000_0000_0000_0000 }) as u64 }
pub open spec fn w_i8(x: int) -> i8 { (if -128 <= x <= 127 { x } else { (x + 128) % 256 - 128 }) as i8 }
pub open spec fn w_i16(x: int) -> i16 { (if -32768 <= x <= 32767 { x } else { (x + 32768) % 65536 - 32768 }) as i16 }
pub open spec fn w_i32(x: int) -> i32 { (if -0x8000_0000 <= x <= 0x7fff_ffff { x } else { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }) as i32 }
pub open spec fn w_i64(x: int) -> i64 { (if -0x8000_0000_0000_0000 <= x <= 0x7fff_ffff_ffff_ffff { x } else { (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 }) as i64 }
// Go division truncates toward zero.
pub open spec fn go_div(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn go_rem(a: int, b: int) -> int { a - b * go_div(a, b) }

// --- slices with ownership (entry lists and generic slices) ---
// d: contents; own: the backing array is not shared with any caller-visible
// slice; cf: len == cap, so append copies.
pub struct Sl<T> { pub d: Seq<T>, pub own: bool, pub cf: bool }
pub open spec fn sl_own<T>(s: Seq<T>) -> Sl<T> { Sl { d: s, own: true, cf: false } }
pub open spec fn sl_nil<T>() -> Sl<T> { Sl { d: Seq::empty(), own: true, cf: true } }
pub open spec fn sl_clobbered<T>(s: Sl<T>) -> Sl<T> { Sl { d: arbitrary::<Seq<T>>(), own: s.own, cf: s.cf } }

// Assumption: no slice has 2^48 elements or more.
pub axiom fn lemma_go_len<T>(s: Seq<T>) ensures s.len() <= 0xffff_ffff_ffff;
pub uninterp spec fn go_cap<T>(s: Seq<T>) -> i64;
pub broadcast axiom fn ax_go_cap<T>(s: Seq<T>) ensures 0 <= #[trigger] go_cap(s) <= 0xffff_ffff_ffff;
pub uninterp spec fn seq_is_nil<T>(s: Seq<T>) -> bool;
pub broadcast axiom fn ax_seq_is_nil<T>(s: Seq<T>) ensures #[trigger] seq_is_nil(s) ==> s.len() == 0;
pub uninterp spec fn map_is_nil<K, V>(m: Map<K, V>) -> bool;
pub uninterp spec fn fn_is_nil<F>(f: F) -> bool;

// --- opaque library values ---
#[verifier::external_body]
pub struct GoAny { _p: () }
pub uninterp spec fn go_any_nil() -> GoAny;
pub uninterp spec fn go_any_is_nil(a: GoAny) -> bool;
pub broadcast axiom fn ax_any_nil() ensures #[trigger] go_any_is_nil(go_any_nil());
#[verifier::external_body]
pub struct GoOpaque { _p: () }
pub uninterp spec fn zero_GoOpaque() -> GoOpaque;
#[verifier::external_body]
pub struct GoLogger { _p: () }
pub uninterp spec fn zero_GoLogger() -> GoLogger;
#[verifier::external_body]
pub struct GoOsFile { _p: () }
#[verifier::external_body]
pub struct GoReader { _p: () }
// what a reader still holds, and the error reading it ends with; files are functions of their path
pub uninterp spec fn gr_data(r: GoReader) -> Seq<u8>;
pub uninterp spec fn gr_err(r: GoReader) -> GoErr;
pub uninterp spec fn gr_file(f: Option<GoOsFile>) -> GoReader;
pub uninterp spec fn os_name(f: Option<GoOsFile>) -> Seq<u8>;
pub uninterp spec fn os_open(p: Seq<u8>) -> Option<GoOsFile>;
pub uninterp spec fn os_open_err(p: Seq<u8>) -> GoErr;
pub uninterp spec fn os_data(p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn os_read_err(p: Seq<u8>) -> GoErr;
pub uninterp spec fn fp_join(p: Seq<Seq<u8>>) -> Seq<u8>;
pub struct GoDirEntry { pub name: Seq<u8>, pub dir: bool }
pub open spec fn zero_GoDirEntry() -> GoDirEntry { GoDirEntry { name: Seq::empty(), dir: false } }
pub uninterp spec fn os_dir(p: Seq<u8>) -> Seq<GoDirEntry>;
pub uninterp spec fn os_dir_err(p: Seq<u8>) -> GoErr;
#[verifier::external_body]
pub struct GoRegexp { _p: () }

// --- strings.Compare: bytewise lexicographic; a total order (proved) ---
pub open spec fn str_cmp_from(a: Seq<u8>, b: Seq<u8>, i: int) -> i64
    decreases a.len() - i
{
    if i < 0 || i >= a.len() { if i >= b.len() { 0i64 } else { -1i64 as i64 } }
    else if i >= b.len() { 1i64 }
    else if a[i] < b[i] { -1i64 as i64 } else if a[i] > b[i] { 1i64 }
    else { str_cmp_from(a, b, i + 1) }
}
#[verifier::opaque]
pub open spec fn str_cmp(a: Seq<u8>, b: Seq<u8>) -> i64 { str_cmp_from(a, b, 0) }
pub proof fn lemma_str_cmp_from(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i, i <= a.len(), i <= b.len(), a.subrange(0, i) == b.subrange(0, i)
    ensures -1 <= str_cmp_from(a, b, i) <= 1, (str_cmp_from(a, b, i) == 0) == (a == b), str_cmp_from(a, b, i) == -str_cmp_from(b, a, i)
    decreases a.len() - i
{
    if i >= a.len() || i >= b.len() {
        if a.len() == b.len() { assert(a =~= a.subrange(0, i)); assert(b =~= b.subrange(0, i)); }
    } else if a[i] == b[i] {
        assert forall|j: int| 0 <= j < i implies a[j] == b[j] by { let x = a.subrange(0, i); let y = b.subrange(0, i); assert(x[j] == a[j]); assert(y[j] == b[j]); }
        assert(a.subrange(0, i + 1) =~= b.subrange(0, i + 1));
        lemma_str_cmp_from(a, b, i + 1);
    }
}
pub proof fn lemma_str_cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int)
    requires 0 <= i, i <= a.len(), i <= b.len(), i <= c.len(), str_cmp_from(a, b, i) <= 0, str_cmp_from(b, c, i) <= 0
    ensures str_cmp_from(a, c, i) <= 0
    decreases a.len() - i
{
    if i < a.len() && i < b.len() && i < c.len() && a[i] == b[i] && b[i] == c[i] { lemma_str_cmp_trans(a, b, c, i + 1); }
}
pub broadcast proof fn ax_str_cmp_range(a: Seq<u8>, b: Seq<u8>)
    ensures -1 <= (#[trigger] str_cmp(a, b)) <= 1, (str_cmp(a, b) == 0) == (a == b), str_cmp(a, b) == -str_cmp(b, a)
{ reveal(str_cmp); assert(a.subrange(0, 0) =~= b.subrange(0, 0)); lemma_str_cmp_from(a, b, 0); }
pub broadcast proof fn ax_str_cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] str_cmp(a, b) <= 0, #[trigger] str_cmp(b, c) <= 0
    ensures str_cmp(a, c) <= 0
{ reveal(str_cmp); lemma_str_cmp_trans(a, b, c, 0); }
pub open spec fn fv_str_cmp() -> spec_fn(Seq<u8>, Seq<u8>) -> i64 { |a: Seq<u8>, b: Seq<u8>| str_cmp(a, b) }

// --- sorting (slices.SortFunc): the result is a function of the comparison
// and the list, a permutation, and ordered whenever the comparison is a total
// preorder. ---
pub open spec fn total_preorder<T>(cmp: spec_fn(T, T) -> i64) -> bool {
    &&& forall|a: T, b: T| #![trigger cmp(a, b)] cmp(a, b) <= 0 || cmp(b, a) <= 0
    &&& forall|a: T, b: T| #![trigger cmp(a, b)] (cmp(a, b) < 0) == (cmp(b, a) > 0)
    &&& forall|a: T, b: T, c: T| #![trigger cmp(a, b), cmp(b, c)] cmp(a, b) <= 0 && cmp(b, c) <= 0 ==> cmp(a, c) <= 0
}
pub open spec fn sorted_by<T>(cmp: spec_fn(T, T) -> i64, s: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] cmp(s[i], s[j])) <= 0
}
pub uninterp spec fn sort_by<T>(cmp: spec_fn(T, T) -> i64, s: Seq<T>) -> Seq<T>;
pub broadcast axiom fn ax_sort_by<T>(cmp: spec_fn(T, T) -> i64, s: Seq<T>)
    ensures
        (#[trigger] sort_by(cmp, s)).to_multiset() == s.to_multiset(),
        sort_by(cmp, s).len() == s.len(),
        total_preorder(cmp) ==> sorted_by(cmp, sort_by(cmp, s));

// --- UTF-8 ---
pub uninterp spec fn dec_rune(s: Seq<u8>, i: int) -> i32;
pub uninterp spec fn dec_width(s: Seq<u8>, i: int) -> int;
pub uninterp spec fn rune_boundary(s: Seq<u8>, i: int) -> bool;
pub broadcast axiom fn ax_rune_boundary0(s: Seq<u8>) ensures #[trigger] rune_boundary(s, 0);
pub axiom fn lemma_dec_rune(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures 1 <= dec_width(s, i) <= 4, i + dec_width(s, i) <= s.len(), rune_boundary(s, i) ==> rune_boundary(s, i + dec_width(s, i)),
        s[i] < 128 ==> dec_width(s, i) == 1 && dec_rune(s, i) == s[i] as i32,
        s[i] >= 128 ==> dec_rune(s, i) >= 128;
pub uninterp spec fn enc_rune(r: int) -> Seq<u8>;
pub broadcast axiom fn ax_enc_rune(r: int)
    ensures 0 <= r < 128 ==> #[trigger] enc_rune(r) == seq![r as u8], 1 <= enc_rune(r).len() <= 4;

// --- fuzzy.Ratio ---
pub uninterp spec fn fuzzy_ratio(a: Seq<u8>, b: Seq<u8>) -> i64;
pub broadcast axiom fn ax_fuzzy_ratio(a: Seq<u8>, b: Seq<u8>) ensures 0 <= (#[trigger] fuzzy_ratio(a, b)) <= 100;
pub open spec fn fv_fuzzy_ratio() -> spec_fn(Seq<u8>, Seq<u8>) -> i64 { |a: Seq<u8>, b: Seq<u8>| fuzzy_ratio(a, b) }

// --- text functions ---
pub uninterp spec fn path_clean(s: Seq<u8>) -> Seq<u8>;
pub open spec fn dec_nat(n: int) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(48 + n) as u8] } else { dec_nat(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn itoa(n: int) -> Seq<u8> { if n < 0 { seq![45u8].add(dec_nat(-n)) } else { dec_nat(n) } }
pub open spec fn hex_digit(n: int) -> u8 { (if n < 10 { 48 + n } else { 87 + n }) as u8 }
pub open spec fn hex02(n: int) -> Seq<u8> { seq![hex_digit((n / 16) % 16), hex_digit(n % 16)] }
pub uninterp spec fn fmt_verb(verb: Seq<u8>, a: GoAny) -> Seq<u8>;
pub uninterp spec fn go_sprintf(f: Seq<u8>, a: Seq<GoAny>) -> Seq<u8>;
pub uninterp spec fn go_sprint(a: Seq<GoAny>) -> Seq<u8>;
pub uninterp spec fn err_text(e: GoErr) -> Seq<u8>;
pub open spec fn io_EOF() -> GoErr { GoErr::Msg(seq![69u8, 79u8, 70u8]) }
pub open spec fn has_prefix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub uninterp spec fn str_split(s: Seq<u8>, sep: Seq<u8>) -> Seq<Seq<u8>>;
pub uninterp spec fn str_splitn(s: Seq<u8>, sep: Seq<u8>, n: int) -> Seq<Seq<u8>>;
pub open spec fn str_join(ss: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8>
    decreases ss.len()
{
    if ss.len() == 0 { Seq::empty() }
    else if ss.len() == 1 { ss[0] }
    else { str_join(ss.drop_last(), sep).add(sep).add(ss.last()) }
}
// position of the first occurrence, -1 if none
pub uninterp spec fn str_index(s: Seq<u8>, sep: Seq<u8>) -> i64;
pub open spec fn occurs_at(s: Seq<u8>, sep: Seq<u8>, i: int) -> bool { 0 <= i && i + sep.len() <= s.len() && s.subrange(i, i + sep.len()) == sep }
pub broadcast axiom fn ax_str_index(s: Seq<u8>, sep: Seq<u8>)
    ensures
        #[trigger] str_index(s, sep) >= -1,
        str_index(s, sep) >= 0 ==> occurs_at(s, sep, str_index(s, sep) as int) && forall|i: int| 0 <= i < str_index(s, sep) ==> !#[trigger] occurs_at(s, sep, i),
        str_index(s, sep) < 0 ==> forall|i: int| !#[trigger] occurs_at(s, sep, i);
pub open spec fn str_cut(s: Seq<u8>, sep: Seq<u8>) -> (Seq<u8>, Seq<u8>, bool) {
    let i = str_index(s, sep) as int;
    if i >= 0 { (s.subrange(0, i), s.subrange(i + sep.len(), s.len() as int), true) } else { (s, Seq::empty(), false) }
}
// splitting at a single byte
pub open spec fn split_byte(s: Seq<u8>, c: u8) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<u8>::empty()] }
    else {
        let p = split_byte(s.drop_last(), c);
        if s.last() == c { p.push(Seq::<u8>::empty()) } else { p.update(p.len() - 1, p.last().push(s.last())) }
    }
}
pub broadcast axiom fn ax_str_split(s: Seq<u8>, sep: Seq<u8>)
    requires sep.len() > 0
    ensures
        (#[trigger] str_split(s, sep)).len() >= 1,
        str_join(str_split(s, sep), sep) == s,
        str_index(s, sep) < 0 ==> str_split(s, sep) == seq![s],
        sep.len() == 1 ==> str_split(s, sep) == split_byte(s, sep[0]);
pub broadcast axiom fn ax_str_splitn(s: Seq<u8>, sep: Seq<u8>)
    requires sep.len() > 0
    ensures
        #[trigger] str_splitn(s, sep, 2) == (if str_index(s, sep) < 0 { seq![s] } else { seq![str_cut(s, sep).0, str_cut(s, sep).1] });
// position of the last byte c, -1 if none
pub open spec fn str_last(s: Seq<u8>, c: u8) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { str_last(s.drop_last(), c) } }
pub broadcast proof fn lemma_str_last(s: Seq<u8>, c: u8)
    ensures -1 <= #[trigger] str_last(s, c) < s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_str_last(s.drop_last(), c); } }
pub uninterp spec fn str_count(s: Seq<u8>, sep: Seq<u8>) -> i64;
pub uninterp spec fn str_fields(s: Seq<u8>) -> Seq<Seq<u8>>;
pub open spec fn str_trim_left(s: Seq<u8>, set: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() > 0 && set.contains(s[0]) { str_trim_left(s.subrange(1, s.len() as int), set) } else { s } }
pub open spec fn str_trim_right(s: Seq<u8>, set: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() > 0 && set.contains(s.last()) { str_trim_right(s.drop_last(), set) } else { s } }
pub uninterp spec fn go_strings_TrimSpace(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn go_strings_ToLower(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn go_strings_ToUpper(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn go_strings_EqualFold(s: Seq<u8>, p: Seq<u8>) -> bool;
pub open spec fn go_strings_Contains(s: Seq<u8>, p: Seq<u8>) -> bool { str_index(s, p) >= 0 }
pub uninterp spec fn go_strings_ContainsRune(s: Seq<u8>, r: i32) -> bool;
pub uninterp spec fn go_isprint(r: int) -> bool;
pub broadcast axiom fn ax_isprint(r: int) ensures 0 <= r < 128 ==> #[trigger] go_isprint(r) == (32 <= r < 127);
pub uninterp spec fn go_unquote(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn go_unquote_err(s: Seq<u8>) -> GoErr;
pub uninterp spec fn go_atoi(s: Seq<u8>) -> i64;
pub uninterp spec fn go_atoi_err(s: Seq<u8>) -> GoErr;
pub uninterp spec fn go_parseuint(s: Seq<u8>) -> u64;
pub uninterp spec fn go_parseuint_err(s: Seq<u8>) -> GoErr;
pub uninterp spec fn lib_mime_FormatMediaType_0(t: Seq<u8>, params: Map<Seq<u8>, Seq<u8>>) -> Seq<u8>;
pub uninterp spec fn go_runecount(s: Seq<u8>) -> i64;

// --- writers: a writer's outcome is a function of its state; a write that
// reports no error appended exactly the data. ---
#[verifier::external_body]
pub struct GoWSink { _p: () }
pub struct GoWriter { pub out: Seq<u8>, pub sink: GoWSink }
pub uninterp spec fn gw_write(w: GoWriter, d: Seq<u8>) -> GoWriter;
pub uninterp spec fn gw_err(w: GoWriter, d: Seq<u8>) -> GoErr;
pub uninterp spec fn gw_is_buf(s: GoWSink) -> bool;
pub uninterp spec fn gw_buf() -> GoWriter;
pub uninterp spec fn gw_mem(b: Seq<u8>) -> GoWriter;
pub uninterp spec fn gw_file(f: Option<GoOsFile>) -> GoWriter;
pub broadcast axiom fn ax_gw_write(w: GoWriter, d: Seq<u8>)
    ensures
        (#[trigger] gw_err(w, d)) is Nil ==> gw_write(w, d).out == w.out.add(d),
        gw_is_buf(gw_write(w, d).sink) == gw_is_buf(w.sink),
        gw_is_buf(w.sink) ==> gw_err(w, d) is Nil;
pub broadcast axiom fn ax_gw_buf() ensures (#[trigger] gw_buf()).out == Seq::<u8>::empty(), gw_is_buf(gw_buf().sink);
pub broadcast axiom fn ax_gw_mem(b: Seq<u8>) ensures (#[trigger] gw_mem(b)).out == b, gw_is_buf(gw_mem(b).sink);

// --- files: what each path holds. Opening for writing either fails and leaves
// everything alone or gives a handle on that path; with O_EXCL (0x80) it fails
// when there is such a file, with O_TRUNC (0x200) the file is empty then. ---
pub struct GoFs { pub files: Map<Seq<u8>, Seq<u8>> }
pub uninterp spec fn fs_open_err(fs: GoFs, p: Seq<u8>, flags: i64) -> GoErr;
pub uninterp spec fn os_is_exist(e: GoErr) -> bool;
pub uninterp spec fn fs_handle(fs: GoFs, p: Seq<u8>, flags: i64) -> Option<GoOsFile>;
pub uninterp spec fn os_path(f: Option<GoOsFile>) -> Seq<u8>;
pub uninterp spec fn os_at_end(f: Option<GoOsFile>) -> bool;
pub open spec fn fs_opened(fs: GoFs, p: Seq<u8>, flags: i64) -> GoFs {
    if fs_open_err(fs, p, flags) is Nil { GoFs { files: fs.files.insert(p, if flags & 0x200 != 0 || !fs.files.contains_key(p) { Seq::empty() } else { fs.files[p] }) } } else { fs }
}
pub open spec fn fs_writer(fs: GoFs, f: Option<GoOsFile>) -> GoWriter { GoWriter { out: fs.files[os_path(f)], sink: gw_file(f).sink } }
pub open spec fn fs_written(fs: GoFs, f: Option<GoOsFile>, w: GoWriter) -> GoFs { if f is Some { GoFs { files: fs.files.insert(os_path(f), w.out) } } else { fs } }
// every path but one holds what it held
pub open spec fn fs_else(a: GoFs, b: GoFs, p: Seq<u8>) -> bool { forall|q: Seq<u8>| q != p ==> (#[trigger] a.files.contains_key(q)) == b.files.contains_key(q) && a.files[q] == b.files[q] }
pub broadcast axiom fn ax_fs_open(fs: GoFs, p: Seq<u8>, flags: i64)
    ensures
        (#[trigger] fs_open_err(fs, p, flags)) is Nil == (fs_handle(fs, p, flags) is Some),
        fs_handle(fs, p, flags) is Some ==> os_path(fs_handle(fs, p, flags)) == p,
        fs_handle(fs, p, flags) is Some && flags & 0x200 != 0 ==> os_at_end(fs_handle(fs, p, flags)),
        flags & 0x80 != 0 && fs.files.contains_key(p) ==> !(fs_open_err(fs, p, flags) is Nil);

// --- encoding/binary ---
pub enum ByteOrd { Nil, Little, Big }
pub open spec fn zero_ByteOrd() -> ByteOrd { ByteOrd::Nil }
pub open spec fn enc_u32(o: ByteOrd, x: u32) -> Seq<u8> {
    let b0 = (x % 256) as u8; let b1 = ((x / 256) % 256) as u8; let b2 = ((x / 65536) % 256) as u8; let b3 = (x / 16777216) as u8;
    if o is Big { seq![b3, b2, b1, b0] } else { seq![b0, b1, b2, b3] }
}
pub open spec fn enc_u16(o: ByteOrd, x: u16) -> Seq<u8> {
    let b0 = (x % 256) as u8; let b1 = (x / 256) as u8;
    if o is Big { seq![b1, b0] } else { seq![b0, b1] }
}
pub open spec fn enc_u32s(o: ByteOrd, x: Seq<u32>) -> Seq<u8>
    decreases x.len()
{ if x.len() == 0 { Seq::empty() } else { enc_u32s(o, x.drop_last()).add(enc_u32(o, x.last())) } }
pub uninterp spec fn bin_enc(o: ByteOrd, a: GoAny) -> Seq<u8>;
pub open spec fn bin_dec_u32(o: ByteOrd, d: Seq<u8>, off: int) -> u32 {
    let (a, b, c, e) = (d[off] as int, d[off + 1] as int, d[off + 2] as int, d[off + 3] as int);
    (if o is Big { e + 256 * c + 65536 * b + 16777216 * a } else { a + 256 * b + 65536 * c + 16777216 * e }) as u32
}
pub open spec fn bin_dec_u16(o: ByteOrd, d: Seq<u8>, off: int) -> u16 {
    let (a, b) = (d[off] as int, d[off + 1] as int);
    (if o is Big { b + 256 * a } else { a + 256 * b }) as u16
}
pub open spec fn bin_dec_i32(o: ByteOrd, d: Seq<u8>, off: int) -> i32 { w_i32(bin_dec_u32(o, d, off) as int) }
pub open spec fn bin_dec_i16(o: ByteOrd, d: Seq<u8>, off: int) -> i16 { w_i16(bin_dec_u16(o, d, off) as int) }
pub open spec fn bin_dec_u8(o: ByteOrd, d: Seq<u8>, off: int) -> u8 { d[off] }

// --- bytes.Reader ---
pub struct BytesReader { pub data: Seq<u8>, pub pos: i64 }
pub open spec fn br_rest(r: BytesReader) -> Seq<u8> { if 0 <= r.pos < r.data.len() { r.data.subrange(r.pos as int, r.data.len() as int) } else { Seq::empty() } }
pub open spec fn br_left(r: BytesReader) -> int { if 0 <= r.pos < r.data.len() { r.data.len() - r.pos } else { 0 } }
pub open spec fn br_has(r: BytesReader, n: int) -> bool { n <= br_left(r) }
pub open spec fn br_count(r: BytesReader, n: int) -> i64 { (if br_has(r, n) { n } else { br_left(r) }) as i64 }
pub open spec fn br_advance(r: BytesReader, n: int) -> BytesReader { BytesReader { data: r.data, pos: (r.pos + br_count(r, n)) as i64 } }
pub open spec fn br_read(r: BytesReader, p: Seq<u8>) -> Seq<u8> {
    if 0 <= r.pos && r.pos + p.len() <= r.data.len() { r.data.subrange(r.pos as int, r.pos + p.len()) }
    else { let k = br_count(r, p.len() as int) as int; br_rest(r).subrange(0, k).add(p.subrange(k, p.len() as int)) }
}
pub open spec fn br_read_err(r: BytesReader) -> GoErr { if br_left(r) == 0 { io_EOF() } else { GoErr::Nil } }
pub open spec fn br_full_err(r: BytesReader, n: int) -> GoErr { if br_has(r, n) { GoErr::Nil } else { GoErr::Msg(arbitrary()) } }
pub open spec fn br_byte(r: BytesReader) -> u8 { if br_left(r) > 0 { br_rest(r)[0] } else { 0u8 } }

// --- regexp: matching is uninterpreted; the shape of results is assumed ---
pub uninterp spec fn re_match(re: GoRegexp, s: Seq<u8>) -> bool;
pub uninterp spec fn re_groups(re: GoRegexp) -> int;
pub uninterp spec fn re_sub(re: GoRegexp, s: Seq<u8>) -> Seq<Seq<u8>>;
// the line's rest behind its first n bytes and the blanks that follow
pub open spec fn re_rest(s: Seq<u8>, n: int) -> Seq<u8> { first_line(str_trim_left(s.subrange(n, s.len() as int), seq![32u8])) }
pub open spec fn first_line(s: Seq<u8>) -> Seq<u8> { split_byte(s, 10)[0] }
pub uninterp spec fn re_suball(re: GoRegexp, s: Seq<u8>) -> Seq<Seq<Seq<u8>>>;
pub uninterp spec fn re_compile(s: Seq<u8>) -> Option<GoRegexp>;
pub uninterp spec fn re_compile_err(s: Seq<u8>) -> GoErr;
pub broadcast axiom fn ax_re_sub(re: GoRegexp, s: Seq<u8>)
    ensures
        #[trigger] re_sub(re, s).len() == (if re_match(re, s) { re_groups(re) + 1 } else { 0 });
pub broadcast axiom fn ax_re_suball(re: GoRegexp, s: Seq<u8>, i: int)
    requires 0 <= i < re_suball(re, s).len()
    ensures (#[trigger] re_suball(re, s)[i]).len() == re_groups(re) + 1;

// --- lexer tokens ---
pub struct LexPos { pub Filename: Seq<u8>, pub Offset: i64, pub Line: i64, pub Column: i64 }
pub struct LexToken { pub Type: i64, pub Value: Seq<u8>, pub Pos: LexPos }
pub open spec fn tok_string(t: LexToken) -> Seq<u8> { if t.Type == -1 { seq![60u8, 69u8, 79u8, 70u8, 62u8] } else { t.Value } }

// --- go/ast ---
// Nodes are values: those of one file differ in their positions.
pub enum AstNode { Nil, Call(Box<AstCall>), Lit(Box<AstLit>), Sel(Box<AstSel>), Ident(Box<AstIdent>), Import(Box<AstImport>), Other(int) }
pub struct AstCall { pub Fun: AstNode, pub Args: Seq<AstNode>, pub Lparen: i64, pub Ellipsis: i64, pub Rparen: i64, pub pos: i64 }
pub struct AstLit { pub Kind: i64, pub Value: Seq<u8>, pub ValuePos: i64 }
pub struct AstSel { pub X: AstNode, pub Sel: Option<AstIdent>, pub pos: i64 }
pub struct AstObject { pub id: int }
pub struct AstIdent { pub Name: Seq<u8>, pub Obj: Option<AstObject>, pub NamePos: i64 }
pub struct AstImport { pub Name: Option<AstIdent>, pub Path: Option<AstLit>, pub EndPos: i64, pub pos: i64 }
pub struct AstFile { pub Imports: Seq<Option<AstImport>>, pub Name: Option<AstIdent>, pub root: int }
// the nodes ast.Inspect visits when the function given always wants more (nil after each node's children)
pub uninterp spec fn ast_walk(n: AstNode) -> Seq<AstNode>;
pub uninterp spec fn ast_file_node(f: AstFile) -> AstNode;
pub uninterp spec fn go_parse_file(name: Seq<u8>, src: Seq<u8>) -> Option<AstFile>;
pub uninterp spec fn go_parse_file_err(name: Seq<u8>, src: Seq<u8>) -> GoErr;
pub broadcast axiom fn ax_go_parse_file(name: Seq<u8>, src: Seq<u8>)
    ensures (#[trigger] go_parse_file_err(name, src)) is Nil ==> go_parse_file(name, src) is Some;

// --- github.com/kr/fs: what a walk meets, in order; a function of the path walked ---
pub struct KrItem { pub path: Seq<u8>, pub dir: bool, pub err: GoErr }
pub struct KrWalker { pub cur: KrItem, pub todo: Seq<KrItem> }
pub uninterp spec fn kr_walk(path: Seq<u8>) -> Seq<KrItem>;
pub open spec fn kr_start(path: Seq<u8>) -> KrWalker { KrWalker { cur: KrItem { path: Seq::empty(), dir: false, err: GoErr::Nil }, todo: kr_walk(path) } }
pub open spec fn kr_step(w: KrWalker) -> KrWalker { if w.todo.len() > 0 { KrWalker { cur: w.todo[0], todo: w.todo.skip(1) } } else { w } }
// filepath.Ext: from the last dot of the last element on
pub open spec fn path_ext_from(p: Seq<u8>, i: int) -> Seq<u8>
    decreases i + 1
{ if i < 0 || i >= p.len() || p[i] == 47 { Seq::empty() } else if p[i] == 46 { p.subrange(i, p.len() as int) } else { path_ext_from(p, i - 1) } }
pub open spec fn path_ext(p: Seq<u8>) -> Seq<u8> { path_ext_from(p, p.len() - 1) }
// filepath.Abs: a function of the path while the working directory stays
pub uninterp spec fn path_abs(p: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn path_abs_err(p: Seq<u8>) -> GoErr;

// --- reflect: a value with its type and, if it has one, its address. Types are
// told apart by id; rank is the depth of nesting of a type. ---
pub struct GoType { pub id: int, pub kind: u64, pub rank: nat, pub exported: Seq<bool> }
pub struct GoField { pub exported: bool }
pub enum GoVal { Bool(bool), Int(i64), Uint(u64), Str(Seq<u8>), List(Seq<GoRv>), Struct(Seq<GoRv>), Other(int) }
pub struct GoRv { pub ty: GoType, pub v: GoVal, pub addr: Option<int> }
#[verifier::external_body]
pub struct GoFloat { _p: () }
#[verifier::external_body]
pub struct GoComplex { _p: () }
pub uninterp spec fn rv_elem(v: GoRv) -> GoRv;
pub uninterp spec fn rv_is_nil(v: GoRv) -> bool;
pub uninterp spec fn rv_float(v: GoRv) -> GoFloat;
pub uninterp spec fn rv_complex(v: GoRv) -> GoComplex;
pub uninterp spec fn go_sub(m: int, i: int) -> int;
pub open spec fn rv_parts(v: GoRv) -> Seq<GoRv> { match v.v { GoVal::List(s) => s, GoVal::Struct(s) => s, _ => Seq::empty() } }
pub open spec fn is_int_kind(k: u64) -> bool { 2 <= k <= 6 }
pub open spec fn is_uint_kind(k: u64) -> bool { 7 <= k <= 12 }
// made of truth values, numbers, strings, slices and structs without hidden fields
pub open spec fn rv_plain(v: GoRv) -> bool
    decreases v.ty.rank
{
    &&& match v.v {
        GoVal::Bool(_) => v.ty.kind == 1,
        GoVal::Int(_) => is_int_kind(v.ty.kind),
        GoVal::Uint(_) => is_uint_kind(v.ty.kind),
        GoVal::Str(_) => v.ty.kind == 24,
        GoVal::List(s) => v.ty.kind == 17 || v.ty.kind == 23,
        GoVal::Struct(s) => v.ty.kind == 25 && s.len() == v.ty.exported.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] v.ty.exported[i],
        GoVal::Other(_) => false,
    }
    &&& forall|i: int| #![trigger rv_parts(v)[i]] 0 <= i < rv_parts(v).len() ==> if rv_parts(v)[i].ty.rank < v.ty.rank { rv_plain(rv_parts(v)[i]) } else { false }
}
// of the same type and made of the same things in the same order
pub open spec fn rv_same(a: GoRv, b: GoRv) -> bool
    decreases a.ty.rank
{
    &&& a.ty == b.ty
    &&& rv_parts(a).len() == rv_parts(b).len()
    &&& forall|i: int| #![trigger rv_parts(a)[i]] #![trigger rv_parts(b)[i]] 0 <= i < rv_parts(a).len() ==> if rv_parts(a)[i].ty.rank < a.ty.rank { rv_same(rv_parts(a)[i], rv_parts(b)[i]) } else { false }
    &&& match (a.v, b.v) { (GoVal::List(_), GoVal::List(_)) => true, (GoVal::Struct(_), GoVal::Struct(_)) => true, _ => a.v == b.v }
}
// what memory holds of each type at each address while two values are compared
pub uninterp spec fn go_mem(ty: GoType, addr: int) -> GoRv;
pub open spec fn rv_mem(v: GoRv) -> bool
    decreases v.ty.rank
{
    &&& v.addr is Some ==> go_mem(v.ty, v.addr->0) == v
    &&& forall|i: int| #![trigger rv_parts(v)[i]] 0 <= i < rv_parts(v).len() ==> if rv_parts(v)[i].ty.rank < v.ty.rank { rv_mem(rv_parts(v)[i]) } else { false }
}

// --- general facts (proved) ---
pub open spec fn strings_eq(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a =~= b }

pub broadcast group prelude_axioms {
    ax_seq_is_nil, ax_go_cap, ax_any_nil, ax_str_cmp_range, ax_str_cmp_trans, ax_sort_by, ax_rune_boundary0, ax_enc_rune,
    ax_fuzzy_ratio, lemma_str_last, ax_str_index, ax_str_split, ax_str_splitn, ax_isprint, ax_gw_write, ax_gw_buf, ax_gw_mem, ax_fs_open, ax_re_sub, ax_re_suball, ax_go_parse_file,
}

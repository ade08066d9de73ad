// include mo.rs
// A binary catalogue as a reader sees it.
pub open spec fn word(img: Seq<u8>, o: ByteOrd, at: int) -> int { bin_dec_u32(o, img, at) as int }
// the string a table entry names lies in the image and ends with NUL
pub open spec fn str_at(img: Seq<u8>, o: ByteOrd, at: int, s: Seq<u8>) -> bool {
    let len = word(img, o, at);
    let off = word(img, o, at + 4);
    &&& len == s.len()
    &&& off + len < img.len()
    &&& img.subrange(off, off + len) == s
    &&& img[off + len] == 0
}
pub open spec fn mo_valid(img: Seq<u8>, o: ByteOrd, origs: Seq<Seq<u8>>, trans: Seq<Seq<u8>>, tab: Seq<u32>) -> bool {
    let n = origs.len() as int;
    &&& img.len() >= 28 + 16 * n + 4 * tab.len()
    &&& word(img, o, 0) == 0x950412de
    &&& word(img, o, 4) == 0
    &&& word(img, o, 8) == n
    &&& word(img, o, 12) == 28
    &&& word(img, o, 16) == 28 + 8 * n
    &&& word(img, o, 20) == tab.len()
    &&& word(img, o, 24) == 28 + 16 * n
    &&& forall|i: int| 0 <= i < n ==> str_at(img, o, 28 + 8 * i, #[trigger] origs[i])
    &&& forall|i: int| 0 <= i < n ==> str_at(img, o, 28 + 8 * n + 8 * i, #[trigger] trans[i])
    &&& forall|k: int| 0 <= k < tab.len() ==> word(img, o, 28 + 16 * n + 4 * k) == #[trigger] tab[k]
}
// part p lies in img at position at
pub open spec fn part(img: Seq<u8>, at: int, p: Seq<u8>) -> bool { 0 <= at && at + p.len() <= img.len() && img.subrange(at, at + p.len()) == p }
pub proof fn lemma_part_byte(img: Seq<u8>, at: int, p: Seq<u8>, i: int)
    requires part(img, at, p), 0 <= i < p.len()
    ensures img[at + i] == p[i]
{ assert(img.subrange(at, at + p.len())[i] == img[at + i]); }
pub proof fn lemma_part_word(img: Seq<u8>, o: ByteOrd, at: int, p: Seq<u8>, i: int)
    requires part(img, at, p), 0 <= i, i + 4 <= p.len()
    ensures word(img, o, at + i) == word(p, o, i)
{ lemma_part_byte(img, at, p, i); lemma_part_byte(img, at, p, i + 1); lemma_part_byte(img, at, p, i + 2); lemma_part_byte(img, at, p, i + 3); }
pub proof fn lemma_part_part(img: Seq<u8>, at: int, p: Seq<u8>, i: int, q: Seq<u8>)
    requires part(img, at, p), part(p, i, q)
    ensures part(img, at + i, q)
{
    assert forall|j: int| 0 <= j < q.len() implies img.subrange(at + i, at + i + q.len())[j] == q[j] by { lemma_part_byte(img, at, p, i + j); lemma_part_byte(p, i, q, j); }
    assert(img.subrange(at + i, at + i + q.len()) =~= q);
}
pub proof fn lemma_add_parts(a: Seq<u8>, b: Seq<u8>)
    ensures part(a.add(b), 0, a), part(a.add(b), a.len() as int, b)
{
    assert(a.add(b).subrange(0, a.len() as int) =~= a);
    assert(a.add(b).subrange(a.len() as int, (a.len() + b.len()) as int) =~= b);
}
pub proof fn lemma_dec_enc(o: ByteOrd, x: u32)
    ensures enc_u32(o, x).len() == 4, word(enc_u32(o, x), o, 0) == x
{
    let b0 = (x % 256) as int; let b1 = ((x / 256) % 256) as int; let b2 = ((x / 65536) % 256) as int; let b3 = (x / 16777216) as int;
    assert(x as int == b0 + 256 * b1 + 65536 * b2 + 16777216 * b3) by {
        let y = x as int;
        assert(y / 256 == (y / 65536) * 256 + (y / 256) % 256) by (nonlinear_arith);
        assert(y / 65536 == (y / 16777216) * 256 + (y / 65536) % 256) by (nonlinear_arith);
        assert(y == (y / 256) * 256 + y % 256) by (nonlinear_arith);
    }
}
pub proof fn lemma_enc_u32s(o: ByteOrd, xs: Seq<u32>)
    ensures enc_u32s(o, xs).len() == 4 * xs.len(), forall|i: int| 0 <= i < xs.len() ==> word(enc_u32s(o, xs), o, 4 * i) == #[trigger] xs[i]
    decreases xs.len()
{
    if xs.len() > 0 {
        let t = xs.drop_last();
        lemma_enc_u32s(o, t);
        lemma_dec_enc(o, xs.last());
        let (a, b) = (enc_u32s(o, t), enc_u32(o, xs.last()));
        lemma_add_parts(a, b);
        assert forall|i: int| 0 <= i < xs.len() implies word(enc_u32s(o, xs), o, 4 * i) == #[trigger] xs[i] by {
            if i < t.len() { assert(t[i] == xs[i]); lemma_part_word(a.add(b), o, 0, a, 4 * i); } else { lemma_part_word(a.add(b), o, a.len() as int, b, 0); }
        }
    }
}
pub proof fn lemma_str_table(ss: Seq<Seq<u8>>, start: int, n: int)
    requires 0 <= n <= ss.len()
    ensures str_table(ss, start, n).len() == 2 * n,
        forall|i: int| 0 <= i < n ==> str_table(ss, start, n)[2 * i] == w_u32(#[trigger] ss[i].len() as int) && str_table(ss, start, n)[2 * i + 1] == w_u32(start + off_of(ss, i))
    decreases n
{
    hide(off_of);
    if n > 0 {
        lemma_str_table(ss, start, n - 1);
        let t = str_table(ss, start, n - 1);
        let (x, y) = (w_u32(ss[n - 1].len() as int), w_u32(start + off_of(ss, n - 1)));
        lemma_two_more(t, x, y);
        assert(str_table(ss, start, n) == t.add(seq![x, y]));
    }
}
pub proof fn lemma_two_more(t: Seq<u32>, x: u32, y: u32)
    ensures t.add(seq![x, y]).len() == t.len() + 2, t.add(seq![x, y])[t.len() as int] == x, t.add(seq![x, y])[(t.len() + 1) as int] == y, forall|i: int| 0 <= i < t.len() ==> t.add(seq![x, y])[i] == t[i]
{}
pub proof fn lemma_blob(ss: Seq<Seq<u8>>, i: int)
    requires 0 <= i < ss.len()
    ensures part(blob(ss), off_of(ss, i), ss[i].push(0u8))
    decreases ss.len()
{
    let t = ss.drop_last();
    let (a, b) = (blob(t), ss.last().push(0u8));
    assert(blob(ss) =~= a.add(b));
    lemma_add_parts(a, b);
    if i < t.len() {
        lemma_blob(t, i);
        assert(t[i] == ss[i]);
        assert(t.take(i) =~= ss.take(i));
        lemma_part_part(blob(ss), 0, a, off_of(ss, i), ss[i].push(0u8));
    } else {
        assert(ss.take(i) =~= t);
    }
}
pub proof fn lemma_header(o: ByteOrd, n: int, size: int)
    requires 0 <= n, 0 <= size, 28 + 16 * n <= 0xffff_ffff, size <= 0xffff_ffff
    ensures
        mo_header(o, n, size).len() == 28,
        word(mo_header(o, n, size), o, 0) == 0x950412de, word(mo_header(o, n, size), o, 4) == 0, word(mo_header(o, n, size), o, 8) == n,
        word(mo_header(o, n, size), o, 12) == 28, word(mo_header(o, n, size), o, 16) == 28 + 8 * n, word(mo_header(o, n, size), o, 20) == size, word(mo_header(o, n, size), o, 24) == 28 + 16 * n
{
    hide(word); hide(enc_u32); hide(part);
    let h = mo_header(o, n, size);
    lemma_dec_enc(o, 0x950412de); lemma_dec_enc(o, w_u32(n)); lemma_dec_enc(o, 28); lemma_dec_enc(o, w_u32(28 + 8 * n)); lemma_dec_enc(o, w_u32(size)); lemma_dec_enc(o, w_u32(28 + 16 * n));
    lemma_zero16(o);
    lemma_eight_parts(enc_u32(o, 0x950412de), enc_u16(o, 0), enc_u16(o, 0), enc_u32(o, w_u32(n)), enc_u32(o, 28), enc_u32(o, w_u32(28 + 8 * n)), enc_u32(o, w_u32(size)), enc_u32(o, w_u32(28 + 16 * n)), h);
    lemma_part_word(h, o, 0, enc_u32(o, 0x950412de), 0); lemma_part_word(h, o, 8, enc_u32(o, w_u32(n)), 0); lemma_part_word(h, o, 12, enc_u32(o, 28), 0);
    lemma_part_word(h, o, 16, enc_u32(o, w_u32(28 + 8 * n)), 0); lemma_part_word(h, o, 20, enc_u32(o, w_u32(size)), 0); lemma_part_word(h, o, 24, enc_u32(o, w_u32(28 + 16 * n)), 0);
    assert(word(h, o, 4) == 0) by { reveal(word); reveal(part); lemma_part_byte(h, 4, enc_u16(o, 0), 0); lemma_part_byte(h, 4, enc_u16(o, 0), 1); lemma_part_byte(h, 6, enc_u16(o, 0), 0); lemma_part_byte(h, 6, enc_u16(o, 0), 1); }
}
pub proof fn lemma_zero16(o: ByteOrd)
    ensures enc_u16(o, 0).len() == 2, enc_u16(o, 0)[0] == 0, enc_u16(o, 0)[1] == 0
{}
pub proof fn lemma_eight_parts(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>, i: Seq<u8>, h: Seq<u8>)
    requires h == a.add(b).add(c).add(d).add(e).add(f).add(g).add(i), a.len() == 4, b.len() == 2, c.len() == 2, d.len() == 4, e.len() == 4, f.len() == 4, g.len() == 4, i.len() == 4
    ensures h.len() == 28, part(h, 0, a), part(h, 4, b), part(h, 6, c), part(h, 8, d), part(h, 12, e), part(h, 16, f), part(h, 20, g), part(h, 24, i)
{
    assert(h.subrange(0, 4) =~= a);
    assert(h.subrange(4, 6) =~= b);
    assert(h.subrange(6, 8) =~= c);
    assert(h.subrange(8, 12) =~= d);
    assert(h.subrange(12, 16) =~= e);
    assert(h.subrange(16, 20) =~= f);
    assert(h.subrange(20, 24) =~= g);
    assert(h.subrange(24, 28) =~= i);
}
pub proof fn lemma_header_len(o: ByteOrd, n: int, size: int)
    ensures mo_header(o, n, size).len() == 28
{}
pub proof fn lemma_part_sub(img: Seq<u8>, at: int, s: Seq<u8>)
    requires part(img, at, s.push(0u8))
    ensures at + s.len() < img.len(), img.subrange(at, at + s.len()) == s, img[at + s.len()] == 0
{
    let q = s.push(0u8);
    lemma_part_byte(img, at, q, s.len() as int);
    assert forall|j: int| 0 <= j < s.len() implies img.subrange(at, at + s.len())[j] == s[j] by { lemma_part_byte(img, at, q, j); assert(q[j] == s[j]); }
    assert(img.subrange(at, at + s.len()) =~= s);
}
pub proof fn lemma_part_len(img: Seq<u8>, at: int, p: Seq<u8>)
    requires part(img, at, p)
    ensures 0 <= at, at + p.len() <= img.len()
{}
pub proof fn lemma_str_entry(img: Seq<u8>, o: ByteOrd, tabat: int, ss: Seq<Seq<u8>>, start: int, i: int)
    requires
        0 <= i < ss.len(), 0 <= start, start + blob(ss).len() <= img.len() <= 0xffff_ffff,
        part(img, tabat, enc_u32s(o, str_table(ss, start, ss.len() as int))), part(img, start, blob(ss))
    ensures str_at(img, o, tabat + 8 * i, ss[i])
{
    hide(enc_u32s); hide(str_table); hide(blob); hide(word); hide(part); hide(off_of);
    let t = str_table(ss, start, ss.len() as int);
    lemma_str_table(ss, start, ss.len() as int);
    lemma_enc_u32s(o, t);
    lemma_blob(ss, i);
    let off = off_of(ss, i);
    let s = ss[i];
    assert(t[2 * i] == w_u32(s.len() as int) && t[2 * i + 1] == w_u32(start + off));
    assert(word(enc_u32s(o, t), o, 4 * (2 * i)) == t[2 * i]);
    assert(word(enc_u32s(o, t), o, 4 * (2 * i + 1)) == t[2 * i + 1]);
    lemma_part_word(img, o, tabat, enc_u32s(o, t), 8 * i);
    lemma_part_word(img, o, tabat, enc_u32s(o, t), 8 * i + 4);
    lemma_part_len(blob(ss), off, s.push(0u8));
    lemma_part_part(img, start, blob(ss), off, s.push(0u8));
    lemma_part_sub(img, start + off, s);
}
pub proof fn lemma_six_parts(h: Seq<u8>, t1: Seq<u8>, t2: Seq<u8>, t3: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, img: Seq<u8>, p1: int, p2: int, p3: int, p4: int, p5: int)
    requires img == h.add(t1).add(t2).add(t3).add(b1).add(b2), p1 == h.len(), p2 == p1 + t1.len(), p3 == p2 + t2.len(), p4 == p3 + t3.len(), p5 == p4 + b1.len()
    ensures part(img, 0, h), part(img, p1, t1), part(img, p2, t2), part(img, p3, t3), part(img, p4, b1), part(img, p5, b2), img.len() == p5 + b2.len()
{
    assert(img.subrange(0, p1) =~= h);
    assert(img.subrange(p1, p2) =~= t1);
    assert(img.subrange(p2, p3) =~= t2);
    assert(img.subrange(p3, p4) =~= t3);
    assert(img.subrange(p4, p5) =~= b1);
    assert(img.subrange(p5, p5 + b2.len()) =~= b2);
}
// C01: what the compiler writes is a well formed catalogue.
pub proof fn lemma_mo_valid(o: ByteOrd, origs: Seq<Seq<u8>>, trans: Seq<Seq<u8>>, tab: Seq<u32>)
    requires origs.len() == trans.len(), mo_image(o, origs, trans, tab).len() <= 0xffff_ffff
    ensures mo_valid(mo_image(o, origs, trans, tab), o, origs, trans, tab)
{
    hide(enc_u32s); hide(str_table); hide(blob); hide(word); hide(mo_header); hide(part); hide(str_at); hide(off_of);
    let img = mo_image(o, origs, trans, tab);
    let n = origs.len() as int;
    let start = 28 + 16 * n + 4 * tab.len();
    let h = mo_header(o, n, tab.len() as int);
    let t1 = enc_u32s(o, str_table(origs, start, n));
    let t2 = enc_u32s(o, str_table(trans, start + blob(origs).len(), n));
    let t3 = enc_u32s(o, tab);
    let (b1, b2) = (blob(origs), blob(trans));
    lemma_str_table(origs, start, n); lemma_str_table(trans, start + blob(origs).len(), n);
    lemma_enc_u32s(o, str_table(origs, start, n)); lemma_enc_u32s(o, str_table(trans, start + blob(origs).len(), n)); lemma_enc_u32s(o, tab);
    assert(h.len() == 28) by { lemma_header_len(o, n, tab.len() as int); }
    lemma_six_parts(h, t1, t2, t3, b1, b2, img, 28, 28 + 8 * n, 28 + 16 * n, start, start + b1.len());
    lemma_header(o, n, tab.len() as int);
    lemma_part_word(img, o, 0, h, 0); lemma_part_word(img, o, 0, h, 4); lemma_part_word(img, o, 0, h, 8); lemma_part_word(img, o, 0, h, 12); lemma_part_word(img, o, 0, h, 16); lemma_part_word(img, o, 0, h, 20); lemma_part_word(img, o, 0, h, 24);
    assert forall|i: int| 0 <= i < n implies str_at(img, o, 28 + 8 * i, #[trigger] origs[i]) by { lemma_str_entry(img, o, 28, origs, start, i); }
    assert forall|i: int| 0 <= i < n implies str_at(img, o, 28 + 8 * n + 8 * i, #[trigger] trans[i]) by { lemma_str_entry(img, o, 28 + 8 * n, trans, start + b1.len(), i); }
    assert forall|k: int| 0 <= k < tab.len() implies word(img, o, 28 + 16 * n + 4 * k) == #[trigger] tab[k] by { lemma_part_word(img, o, 28 + 16 * n, t3, 4 * k); }
}

// what the compiled table is good for
pub proof fn lemma_first_free(tab: Seq<u32>, h: int, size: int, k: int)
    requires is_prime(size), size >= 3, h >= 0, 0 <= k < size, tab.len() == size, used_count(tab) < size,
        forall|i: int| 0 <= i < k ==> tab[#[trigger] probe(h, size, i)] != 0
    ensures exists|j: int| free_at(tab, h, size, j)
    decreases size - k
{
    if tab[probe(h, size, k)] == 0 { assert(free_at(tab, h, size, k)); }
    else { lemma_probe_bound(tab, h, size, k); lemma_first_free(tab, h, size, k + 1); }
}
pub proof fn lemma_mo_table_reaches(keys: Seq<Seq<u8>>, size: int, n: int)
    requires is_prime(size), size >= 3, 0 <= n <= keys.len(), n < size, n <= 0xffff_ffff
    ensures ({
        let t = mo_table(keys, size, n);
        &&& t.len() == size && used_count(t) == n
        &&& forall|i: int| 0 <= i < size ==> #[trigger] t[i] <= n
        &&& forall|j: int| 0 <= j < n ==> reaches(t, hash_of(#[trigger] keys[j]), size, (j + 1) as u32)
    })
    decreases n
{
    hide(is_prime); hide(hash_of); hide(probe);
    let t = mo_table(keys, size, n);
    if n <= 0 { lemma_used_none(t); }
    else {
        let p = mo_table(keys, size, n - 1);
        lemma_mo_table_reaches(keys, size, n - 1);
        let h = hash_of(keys[n - 1]);
        lemma_hash_nat(keys[n - 1]);
        lemma_first_free(p, h, size, 0);
        let k = choose|k: int| free_at(p, h, size, k);
        lemma_free_slot(p, h, size, k);
        lemma_probe_range(h, size, k);
        let at = probe(h, size, k);
        lemma_used_update(p, at, n as u32);
        assert(t == p.update(at, n as u32));
        assert forall|j: int| 0 <= j < n implies reaches(t, hash_of(#[trigger] keys[j]), size, (j + 1) as u32) by {
            lemma_hash_nat(keys[j]);
            if j < n - 1 { lemma_reaches_update(p, hash_of(keys[j]), size, (j + 1) as u32, at, n as u32); }
            else {
                assert forall|i: int| 0 <= i < k implies t[#[trigger] probe(h, size, i)] != 0 by { lemma_probe_range(h, size, i); assert(p[probe(h, size, i)] != 0); }
                assert(found_at(t, h, size, n as u32, k));
            }
        }
    }
}
pub proof fn lemma_hash_nat(s: Seq<u8>)
    ensures hash_of(s) >= 0
{}
// --- C02: which messages ---
pub open spec fn active(e: Entry) -> bool { !fuzzy(e) && !e.Obsolete }
pub open spec fn first_active(d: Seq<Entry>, k: int) -> bool {
    0 <= k < d.len() && active(d[k]) && forall|j: int| 0 <= j < k && active(#[trigger] d[j]) ==> uid(d[j]) != uid(d[k])
}
pub open spec fn is_message(d: Seq<Entry>, e: Entry, k: int) -> bool {
    first_active(d, k) && uid(e) == uid(d[k]) && full_uid(e) == full_uid(d[k]) && unified_str(e) == unified_str(d[k])
}
pub open spec fn has_message(d: Seq<Entry>, e: Entry) -> bool { exists|k: int| is_message(d, e, k) }
pub open spec fn has_key(es: Seq<Entry>, u: Seq<u8>) -> bool { exists|i: int| 0 <= i < es.len() && uid(#[trigger] es[i]) == u }
// positions of what a filter keeps
pub open spec fn kept_at<E>(s: Seq<E>, del: spec_fn(E) -> bool) -> Seq<int>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = kept_at(s.drop_last(), del); if del(s.last()) { p } else { p.push(s.len() - 1) } } }
pub proof fn lemma_kept_at<E>(s: Seq<E>, del: spec_fn(E) -> bool)
    ensures
        kept_at(s, del).len() == keep(s, del).len(),
        forall|i: int| 0 <= i < keep(s, del).len() ==> 0 <= #[trigger] kept_at(s, del)[i] < s.len() && keep(s, del)[i] == s[kept_at(s, del)[i]] && !del(s[kept_at(s, del)[i]]),
        forall|i: int, j: int| 0 <= i < j < keep(s, del).len() ==> #[trigger] kept_at(s, del)[i] < #[trigger] kept_at(s, del)[j],
        forall|j: int| 0 <= j < s.len() && !del(#[trigger] s[j]) ==> kept_at(s, del).contains(j),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_kept_at(t, del);
        let (p, q) = (kept_at(t, del), kept_at(s, del));
        assert forall|j: int| 0 <= j < s.len() && !del(#[trigger] s[j]) implies q.contains(j) by {
            if j < t.len() { assert(t[j] == s[j]); assert(p.contains(j)); let i = p.index_of(j); assert(q[i] == j); } else { assert(q[p.len() as int] == j); }
        }
        assert forall|i: int| 0 <= i < keep(s, del).len() implies 0 <= #[trigger] q[i] < s.len() && keep(s, del)[i] == s[q[i]] && !del(s[q[i]]) by {
            if i < p.len() { assert(q[i] == p[i]); assert(t[p[i]] == s[p[i]]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] < #[trigger] q[j] by {
            assert(q[i] == p[i]);
            if j < p.len() { assert(q[j] == p[j]); }
        }
    }
}
pub proof fn lemma_keep_keep<E>(s: Seq<E>, f: spec_fn(E) -> bool, g: spec_fn(E) -> bool)
    ensures keep(keep(s, f), g) == keep(s, |e: E| f(e) || g(e))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_keep(s.drop_last(), f, g);
        let p = keep(s.drop_last(), f);
        if !f(s.last()) { assert(p.push(s.last()).drop_last() =~= p); }
    }
}
pub proof fn lemma_mo_kept(d: Seq<Entry>)
    ensures
        all_distinct(mo_kept(true, d)),
        forall|i: int| 0 <= i < mo_kept(true, d).len() ==> has_message(d, #[trigger] mo_kept(true, d)[i]),
        forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) ==> has_key(mo_kept(true, d), uid(d[k])),
{
    let f = |x: Entry| fuzzy(x);
    let g = |x: Entry| x.Obsolete;
    let h = |x: Entry| f(x) || g(x);
    lemma_keep_keep(d, f, g);
    let a = keep(d, h);
    let m = mo_kept(true, d);
    assert(m == dedup(a));
    lemma_kept_at(d, h);
    lemma_dedup(a);
    lemma_sk(a);
    let q = kept_at(d, h);
    assert forall|i: int| 0 <= i < m.len() implies has_message(d, #[trigger] m[i]) by {
        assert(has_origin(a, i));
        let o = choose|o: int| stands_for(a, i, o);
        let k = q[o];
        assert(a[o] == d[k]);
        assert(m[i] == with_locs(d[k], locs_of(a, sk(a)[i])));
        assert forall|j: int| 0 <= j < k && active(#[trigger] d[j]) implies uid(d[j]) != uid(d[k]) by {
            assert(q.contains(j));
            let x = q.index_of(j);
            if x >= o { if x > o { assert(q[o] < q[x]); } }
            assert(a[x] == d[j]);
        }
        assert(first_active(d, k));
        assert(is_message(d, m[i], k));
    }
    assert forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) implies has_key(m, uid(d[k])) by {
        assert(q.contains(k));
        let x = q.index_of(k);
        assert(a[x] == d[k]);
        assert(sk(a).contains(uid(a[x])));
        let i = sk(a).index_of(uid(a[x]));
        assert(uid(m[i]) == uid(d[k]));
    }
}
pub proof fn lemma_sorted_distinct(cmp: spec_fn(Entry, Entry) -> i64, s: Seq<Entry>)
    requires all_distinct(s)
    ensures
        forall|i: int| 0 <= i < sort_by(cmp, s).len() ==> s.contains(#[trigger] sort_by(cmp, s)[i]),
        forall|i: int| 0 <= i < s.len() ==> sort_by(cmp, s).contains(#[trigger] s[i]),
        all_distinct(sort_by(cmp, s)),
{
    broadcast use prelude_axioms;
    let t = sort_by(cmp, s);
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(uid(s[i]) != uid(s[j])); } else { assert(uid(s[j]) != uid(s[i])); } } }
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); assert(s.to_multiset().count(t[i]) > 0); }
    assert forall|i: int| 0 <= i < s.len() implies t.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); assert(s.to_multiset().count(s[i]) > 0); assert(t.to_multiset().count(s[i]) > 0); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies uid(#[trigger] t[i]) != uid(#[trigger] t[j]) by {
        let (x, y) = (s.index_of(t[i]), s.index_of(t[j]));
        assert(s.contains(t[i]) && s.contains(t[j]));
        assert(t[i] != t[j]);
        if x < y { assert(uid(s[x]) != uid(s[y])); } else { assert(uid(s[y]) != uid(s[x])); }
    }
}
pub proof fn lemma_mo_messages(d: Seq<Entry>)
    ensures ({ let es = mo_entries(true, true, d);
        // strictly ascending keys
        &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> str_cmp(uid(#[trigger] es[i]), uid(#[trigger] es[j])) < 0
        // every message is that of the first active entry with its key
        &&& forall|i: int| 0 <= i < es.len() ==> has_message(d, #[trigger] es[i])
        // no active entry's key is missing
        &&& forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) ==> has_key(es, uid(d[k])) })
{
    broadcast use prelude_axioms;
    let m = mo_kept(true, d);
    let cmp = fv_po_CompareEntryByID_s();
    let es = sort_by(cmp, m);
    lemma_mo_kept(d);
    lemma_sorted_distinct(cmp, m);
    lemma_entry_by_id();
    assert(sorted_by(cmp, es));
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies str_cmp(uid(#[trigger] es[i]), uid(#[trigger] es[j])) < 0 by {
        assert(cmp(es[i], es[j]) <= 0);
        assert(sgn(po_CompareEntryByID_s(es[i], es[j]) as int) == sgn(str_cmp(uid(es[i]), uid(es[j])) as int));
        assert(uid(es[i]) != uid(es[j]));
    }
    assert forall|i: int| 0 <= i < es.len() implies has_message(d, #[trigger] es[i]) by { assert(m.contains(es[i])); let x = m.index_of(es[i]); assert(has_message(d, m[x])); }
    assert forall|k: int| 0 <= k < d.len() && active(#[trigger] d[k]) implies has_key(es, uid(d[k])) by {
        let x = choose|x: int| 0 <= x < m.len() && uid(#[trigger] m[x]) == uid(d[k]);
        assert(es.contains(m[x]));
        let y = es.index_of(m[x]);
        assert(uid(es[y]) == uid(d[k]));
    }
}
// strictly ascending as a reader compares them: whole original strings
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 }
pub proof fn lemma_full_order(a: Entry, b: Entry, i: int)
    requires no_nul(uid(a)), no_nul(uid(b)), 0 <= i, i <= uid(a).len(), i <= uid(b).len(), str_cmp_from(uid(a), uid(b), i) < 0
    ensures str_cmp_from(full_uid(a), full_uid(b), i) < 0
    decreases uid(a).len() - i
{
    let (x, y) = (uid(a), uid(b));
    let (p, q) = (full_uid(a), full_uid(b));
    assert(forall|j: int| 0 <= j < x.len() ==> p[j] == x[j]);
    assert(forall|j: int| 0 <= j < y.len() ==> q[j] == y[j]);
    if i < x.len() && i < y.len() { if x[i] == y[i] { lemma_full_order(a, b, i + 1); } }
    else { assert(i == x.len() && i < y.len()); if a.Plural.len() > 0 { assert(p[i] == 0); assert(q[i] == y[i]); assert(y[i] != 0); } }
}
pub proof fn lemma_least_prime_exists(n: int, p: int)
    requires is_prime(p), p >= n
    ensures least_prime(n, next_prime(n))
    decreases p - n
{
    if forall|q: int| n <= q < p ==> !#[trigger] is_prime(q) { assert(least_prime(n, p)); }
    else { let q = choose|q: int| n <= q < p && #[trigger] is_prime(q); lemma_least_prime_exists(n, q); }
}
pub open spec fn mo_tab(c: Compile_MoConfig, es: Seq<Entry>) -> Seq<u32> { if c.HashTable { mo_table(keys_of(es), mo_hash_size(es.len() as int), es.len() as int) } else { Seq::empty() } }
pub proof fn lemma_mo_table_len(keys: Seq<Seq<u8>>, size: int, n: int)
    requires size >= 0
    ensures mo_table(keys, size, n).len() == size
    decreases n
{ if n > 0 { lemma_mo_table_len(keys, size, n - 1); } }
// C01 and C02 together: the file the compiler writes
pub proof fn lemma_mo_file(c: Compile_MoConfig, d: Seq<Entry>)
    requires mo_file(c, d).len() <= 0xffff_ffff, d.len() < 0xfff_fff0
    ensures ({ let es = mo_entries(c.DepureEntries, c.SortEntries, d);
        &&& mo_valid(mo_file(c, d), util_Endianness_Order_s(c.Endianness), origs_of(es), trans_of(es), mo_tab(c, es))
        &&& c.HashTable ==> is_prime(mo_tab(c, es).len() as int) && mo_tab(c, es).len() > es.len() && hash_table_for(mo_tab(c, es), keys_of(es), mo_tab(c, es).len() as int)
    })
{
    broadcast use prelude_axioms;
    let es = mo_entries(c.DepureEntries, c.SortEntries, d);
    let n = es.len() as int;
    lemma_mo_valid(util_Endianness_Order_s(c.Endianness), origs_of(es), trans_of(es), mo_tab(c, es));
    if c.HashTable {
        lemma_mo_kept_len(c.DepureEntries, d);
        lemma_top_prime();
        lemma_least_prime_exists((4 * n) / 3, 4294967291);
        lemma_prime_3();
        lemma_mo_table_len(keys_of(es), mo_hash_size(n), n);
        let p = next_prime((4 * n) / 3);
        assert(p >= (4 * n) / 3);
        if p == n && n >= 3 { }
        lemma_mo_table_reaches(keys_of(es), mo_hash_size(n), n);
    }
}

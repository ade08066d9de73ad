// include powrite.rs

// --- a quoted text says what was written ---
// what a string between quotes says (the escapes of the writer; strconv.Unquote)
pub open spec fn hexval(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else { -1 } }
pub open spec fn unesc1(s: Seq<u8>) -> (int, int) {
    if s.len() == 0 { (-1, 0) }
    else if s[0] == 34 || s[0] == 10 { (-1, 0) }
    else if s[0] != 92 { (s[0] as int, 1) }
    else if s.len() == 1 { (-1, 0) }
    else if s[1] == 34 { (34, 2) }
    else if s[1] == 92 { (92, 2) }
    else if s[1] == 110 { (10, 2) }
    else if s[1] == 116 { (9, 2) }
    else if s[1] == 114 { (13, 2) }
    else if s[1] == 120 && s.len() >= 4 && hexval(s[2]) >= 0 && hexval(s[3]) >= 0 { (hexval(s[2]) * 16 + hexval(s[3]), 4) }
    else { (-1, 0) }
}
pub open spec fn unesc(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        let (c, n) = unesc1(s);
        if n <= 0 { None } else { match unesc(s.subrange(n, s.len() as int)) { None => None, Some(t) => Some(seq![c as u8].add(t)) } }
    }
}
pub proof fn lemma_unesc1(c: u8, t: Seq<u8>)
    ensures unesc1(esc1(c).add(t)).0 == c as int, unesc1(esc1(c).add(t)).1 == esc1(c).len(), esc1(c).add(t).subrange(esc1(c).len() as int, esc1(c).add(t).len() as int) == t
{
    assert(esc1(c).add(t).subrange(esc1(c).len() as int, esc1(c).add(t).len() as int) =~= t);
}
pub proof fn lemma_esc_front(s: Seq<u8>)
    requires s.len() > 0
    ensures esc(s) == esc1(s[0]).add(esc(s.subrange(1, s.len() as int)))
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    if t.len() == 0 {
        assert(s.drop_last() =~= Seq::empty()); assert(t =~= Seq::empty()); assert(esc(Seq::<u8>::empty()) =~= Seq::empty()); assert(esc(s) == esc(s.drop_last()).add(esc1(s.last())));
        assert(esc(s) =~= esc1(s[0]).add(esc(t)));
    } else {
        lemma_esc_front(s.drop_last());
        assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last());
        assert(esc(s) =~= esc1(s[0]).add(esc(t)));
    }
}
// every text is read back from its quoted form
pub proof fn lemma_unesc(s: Seq<u8>)
    ensures unesc(esc(s)) == Some(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lemma_esc_front(s);
        lemma_unesc(t);
        lemma_unesc1(s[0], esc(t));
        assert(esc(s).len() > 0);
        assert(seq![s[0]].add(t) =~= s);
    }
}
// no byte of a quoted text ends its line or its quotes
pub open spec fn in_quotes(s: Seq<u8>) -> bool
    decreases s.len()
{
    if s.len() == 0 { true }
    else if s[0] < 32 || s[0] == 127 || s[0] == 34 { false }
    else if s[0] == 92 { s.len() >= 2 && 32 < s[1] < 127 && in_quotes(s.subrange(2, s.len() as int)) }
    else { in_quotes(s.subrange(1, s.len() as int)) }
}
pub proof fn lemma_in_quotes1(c: u8, t: Seq<u8>)
    requires in_quotes(t)
    ensures in_quotes(esc1(c).add(t))
{
    reveal_with_fuel(in_quotes, 4);
    let e = esc1(c);
    let s = e.add(t);
    if e.len() == 1 { assert(s.subrange(1, s.len() as int) =~= t); }
    else if e.len() == 2 { assert(s.subrange(2, s.len() as int) =~= t); }
    else {
        assert(e.len() == 4);
        let u = s.subrange(2, s.len() as int);
        assert(s[2] == hex02(c as int)[0] && s[3] == hex02(c as int)[1]);
        assert(u[0] == s[2] && u.subrange(1, u.len() as int)[0] == s[3]);
        assert(u.subrange(1, u.len() as int).subrange(1, u.len() - 1) =~= t);
    }
}
pub proof fn lemma_esc_safe(s: Seq<u8>)
    ensures in_quotes(esc(s))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lemma_esc_front(s);
        lemma_esc_safe(t);
        lemma_in_quotes1(s[0], esc(t));
    }
}

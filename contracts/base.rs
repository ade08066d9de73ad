// Specification functions shared by all contracts.
pub open spec fn first_index<E>(s: Seq<E>, f: spec_fn(E) -> bool, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if f(s[i]) { i } else { first_index(s, f, i + 1) } }
pub open spec fn first_equal<E>(s: Seq<E>, v: E, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if v == s[i] { i } else { first_equal(s, v, i + 1) } }
pub open spec fn keep<E>(s: Seq<E>, del: spec_fn(E) -> bool) -> Seq<E>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = keep(s.drop_last(), del); if del(s.last()) { p } else { p.push(s.last()) } } }
pub open spec fn sorted_adj<E>(cmp: spec_fn(E, E) -> i64, s: Seq<E>) -> bool {
    forall|k: int| 0 < k < s.len() ==> !((#[trigger] cmp(s[k], s[k - 1])) < 0)
}
pub open spec fn lexcmp<A, B>(a: Seq<A>, b: Seq<B>, cmp: spec_fn(A, B) -> i64, i: int) -> i64
    decreases a.len() - i
{
    if i < 0 || i >= a.len() { if a.len() < b.len() { -1i64 as i64 } else { 0i64 } }
    else if i >= b.len() { 1i64 }
    else if cmp(a[i], b[i]) != 0 { cmp(a[i], b[i]) }
    else { lexcmp(a, b, cmp, i + 1) }
}

// predicates and comparisons are compared by what they answer
pub broadcast proof fn lemma_first_index_ext<E>(s: Seq<E>, f: spec_fn(E) -> bool, g: spec_fn(E) -> bool, i: int)
    requires forall|e: E| #![trigger f(e)] #![trigger g(e)] f(e) == g(e)
    ensures #[trigger] first_index(s, f, i) == #[trigger] first_index(s, g, i)
    decreases s.len() - i
{ if 0 <= i < s.len() { lemma_first_index_ext(s, f, g, i + 1); } }
pub broadcast proof fn lemma_keep_ext<E>(s: Seq<E>, f: spec_fn(E) -> bool, g: spec_fn(E) -> bool)
    requires forall|e: E| #![trigger f(e)] #![trigger g(e)] f(e) == g(e)
    ensures #[trigger] keep(s, f) == #[trigger] keep(s, g)
    decreases s.len()
{ if s.len() > 0 { lemma_keep_ext(s.drop_last(), f, g); } }
pub proof fn lemma_first_equal<E>(s: Seq<E>, v: E, i: int)
    requires 0 <= i, i <= s.len()
    ensures
        (first_equal(s, v, i) >= 0) == (exists|j: int| i <= j < s.len() && s[j] == v), first_equal(s, v, i) >= -1,
        first_equal(s, v, i) < s.len(),
        first_equal(s, v, i) >= 0 ==> first_equal(s, v, i) < s.len() && s[first_equal(s, v, i) as int] == v && forall|j: int| i <= j < first_equal(s, v, i) ==> s[j] != v,
    decreases s.len() - i
{ if i < s.len() { if s[i] != v { lemma_first_equal(s, v, i + 1); } } }
pub proof fn lemma_first_index<E>(s: Seq<E>, f: spec_fn(E) -> bool, i: int)
    requires 0 <= i, i <= s.len()
    ensures
        (first_index(s, f, i) >= 0) == (exists|j: int| i <= j < s.len() && #[trigger] f(s[j])),
        first_index(s, f, i) == -1 || i <= first_index(s, f, i) < s.len(),
        first_index(s, f, i) >= 0 ==> f(s[first_index(s, f, i) as int]) && forall|j: int| i <= j < first_index(s, f, i) ==> !#[trigger] f(s[j]),
    decreases s.len() - i
{ if i < s.len() { if !f(s[i]) { lemma_first_index(s, f, i + 1); } } }
pub broadcast proof fn lemma_first_index_range<E>(s: Seq<E>, f: spec_fn(E) -> bool)
    ensures (#[trigger] first_index(s, f, 0)) == -1 || 0 <= first_index(s, f, 0) < s.len(),
        first_index(s, f, 0) >= 0 ==> f(s[first_index(s, f, 0) as int])
{ lemma_first_index(s, f, 0); }
pub broadcast proof fn lemma_contains<E>(s: Seq<E>, v: E)
    ensures (#[trigger] first_equal(s, v, 0) >= 0) == s.contains(v), first_equal(s, v, 0) >= -1, first_equal(s, v, 0) < s.len()
{ lemma_first_equal(s, v, 0); }
pub broadcast group base_facts { lemma_first_index_ext, lemma_keep_ext, lemma_first_index_range, lemma_contains }

// the integer average of a list (0 for an empty list)
pub open spec fn sum_i64(v: Seq<i64>, n: int) -> i64
    decreases n
{ if n <= 0 { 0i64 } else { w_i64(sum_i64(v, n - 1) + v[n - 1]) } }
pub open spec fn avg_i64(v: Seq<i64>) -> i64 { if v.len() == 0 { 0i64 } else { w_i64(go_div(sum_i64(v, v.len() as int) as int, v.len() as int)) } }

// --- decimal numbers ---
pub proof fn lemma_dec_nat(n: int)
    requires 0 <= n
    ensures dec_nat(n).len() > 0, forall|i: int| 0 <= i < dec_nat(n).len() ==> 48 <= #[trigger] dec_nat(n)[i] <= 57
    decreases n
{ if n >= 10 { lemma_dec_nat(n / 10); } }
pub proof fn lemma_digit(a: int, b: int)
    requires 0 <= a < 10, 0 <= b < 10, (48 + a) as u8 == (48 + b) as u8
    ensures a == b
{}
pub proof fn lemma_div10(a: int)
    requires 0 <= a
    ensures a == 10 * (a / 10) + a % 10, 0 <= a % 10 < 10, a / 10 >= 0, a >= 10 ==> a / 10 < a
{}
pub proof fn lemma_dec_nat_inj(a: int, b: int)
    requires 0 <= a, 0 <= b, dec_nat(a) == dec_nat(b)
    ensures a == b
    decreases a
{
    lemma_div10(a);
    lemma_div10(b);
    let (p, q) = (dec_nat(a), dec_nat(b));
    if a >= 10 { lemma_dec_nat(a / 10); assert(p.len() >= 2); } else { assert(p.len() == 1); }
    if b >= 10 { lemma_dec_nat(b / 10); assert(q.len() >= 2); } else { assert(q.len() == 1); }
    if a >= 10 {
        assert(b >= 10);
        assert(p.drop_last() =~= dec_nat(a / 10));
        assert(q.drop_last() =~= dec_nat(b / 10));
        assert(p.last() == (48 + a % 10) as u8);
        assert(q.last() == (48 + b % 10) as u8);
        lemma_digit(a % 10, b % 10);
        lemma_dec_nat_inj(a / 10, b / 10);
    } else {
        assert(b < 10);
        assert(p[0] == (48 + a) as u8);
        assert(q[0] == (48 + b) as u8);
        lemma_digit(a, b);
    }
}
pub proof fn lemma_itoa(n: int)
    ensures itoa(n).len() > 0, forall|i: int| 0 <= i < itoa(n).len() ==> 45 <= #[trigger] itoa(n)[i] <= 57
{ if n < 0 { lemma_dec_nat(-n); } else { lemma_dec_nat(n); } }
pub proof fn lemma_itoa_inj(a: int, b: int)
    requires itoa(a) == itoa(b)
    ensures a == b
{
    let (p, q) = (itoa(a), itoa(b));
    if a < 0 { lemma_dec_nat(-a); } else { lemma_dec_nat(a); }
    if b < 0 { lemma_dec_nat(-b); } else { lemma_dec_nat(b); }
    if a < 0 && b < 0 {
        assert(p.skip(1) =~= dec_nat(-a));
        assert(q.skip(1) =~= dec_nat(-b));
        lemma_dec_nat_inj(-a, -b);
    } else if a >= 0 && b >= 0 { lemma_dec_nat_inj(a, b); }
    else { assert(p[0] == q[0]); }
}

pub proof fn lemma_push_contains<E>(s: Seq<E>, v: E)
    ensures forall|q: E| #[trigger] s.push(v).contains(q) == (s.contains(q) || q == v)
{
    assert forall|q: E| #[trigger] s.push(v).contains(q) == (s.contains(q) || q == v) by {
        if s.contains(q) { assert(s.push(v)[s.index_of(q)] == q); }
        assert(s.push(v)[s.len() as int] == v);
    }
}

// the first of the errors found is one
pub open spec fn errs_ok(e: Seq<GoErr>) -> bool { e.len() > 0 ==> !(e[0] is Nil) }

// the flags files are opened with to write them
pub proof fn lemma_open_flags()
    ensures
        577i64 & 512i64 != 0, 577i64 & 128i64 == 0, (577i64 | 128i64) & 512i64 != 0, (577i64 | 128i64) & 128i64 != 0,
        705i64 & 512i64 != 0, 705i64 & 128i64 != 0, 513i64 & 512i64 != 0, 513i64 & 128i64 == 0,
        578i64 & 512i64 != 0, 66i64 & 512i64 == 0, 2i64 & 512i64 == 0,
{
    assert(577i64 & 512i64 != 0 && 577i64 & 128i64 == 0 && (577i64 | 128i64) & 512i64 != 0 && (577i64 | 128i64) & 128i64 != 0 && 705i64 & 512i64 != 0 && 705i64 & 128i64 != 0 && 513i64 & 512i64 != 0 && 513i64 & 128i64 == 0 && 578i64 & 512i64 != 0 && 66i64 & 512i64 == 0 && 2i64 & 512i64 == 0) by (bit_vector);
}

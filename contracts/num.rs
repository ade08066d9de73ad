// Prime numbers and double-hash probing.
pub open spec fn divides(d: int, n: int) -> bool { n % d == 0 }
pub open spec fn is_prime(n: int) -> bool { n >= 2 && forall|d: int| 2 <= d < n ==> !#[trigger] divides(d, n) }

// no divisor of n in lo..hi (by halves, so that it can be computed)
pub open spec fn no_divisor(n: int, lo: int, hi: int) -> bool
    decreases hi - lo
{
    if hi <= lo { true }
    else if hi - lo == 1 { n % lo != 0 }
    else { no_divisor(n, lo, lo + (hi - lo) / 2) && no_divisor(n, lo + (hi - lo) / 2, hi) }
}
pub proof fn lemma_no_divisor(n: int, lo: int, hi: int)
    requires no_divisor(n, lo, hi)
    ensures forall|d: int| lo <= d < hi ==> !#[trigger] divides(d, n)
    decreases hi - lo
{
    if hi - lo > 1 {
        lemma_no_divisor(n, lo, lo + (hi - lo) / 2);
        lemma_no_divisor(n, lo + (hi - lo) / 2, hi);
    }
}
// a number without divisors up to its square root is prime
pub proof fn lemma_prime_sqrt(n: int, k: int)
    requires 2 <= n, 2 <= k, n < k * k, forall|d: int| 2 <= d < k && d < n ==> !#[trigger] divides(d, n)
    ensures is_prime(n)
{
    assert forall|d: int| 2 <= d < n implies !#[trigger] divides(d, n) by {
        if divides(d, n) {
            let e = n / d;
            assert(n == d * e) by (nonlinear_arith) requires n % d == 0, e == n / d, d >= 2;
            assert(1 < e) by (nonlinear_arith) requires n == d * e, d < n, d >= 2;
            assert(e < n) by (nonlinear_arith) requires n == d * e, d >= 2, e > 1;
            if d >= k {
                assert(e < k) by (nonlinear_arith) requires n == d * e, d >= k, n < k * k, k >= 2;
                vstd::arithmetic::div_mod::lemma_mod_multiples_basic(d, e);
                assert(divides(e, n));
            }
        }
    }
}
// the greatest prime below 2^32
pub proof fn lemma_top_prime()
    ensures is_prime(4294967291)
{
    assert(no_divisor(4294967291, 2, 65536)) by (compute_only);
    lemma_no_divisor(4294967291, 2, 65536);
    lemma_prime_sqrt(4294967291, 65536);
}
pub proof fn lemma_even(n: int)
    requires n > 2, n % 2 == 0
    ensures !is_prime(n)
{ assert(divides(2, n)); }

// Euclid: a prime that divides a product divides a factor
pub proof fn lemma_euclid(p: int, a: int, b: int)
    requires is_prime(p), 0 < a < p, 0 <= b, divides(p, a * b)
    ensures divides(p, b)
    decreases a
{
    if a == 1 { assert(a * b == b) by (nonlinear_arith) requires a == 1; }
    else {
        let q = p / a;
        let r = p % a;
        assert(!divides(a, p));
        assert(p == q * a + r && 0 < r < a) by (nonlinear_arith) requires q == p / a, r == p % a, a >= 2, r != 0;
        let m = (a * b) / p;
        assert(a * b == m * p) by (nonlinear_arith) requires (a * b) % p == 0, m == (a * b) / p, p > 0;
        assert(r * b == (b - q * m) * p) by (nonlinear_arith) requires a * b == m * p, p == q * a + r;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(b - q * m, p);
        lemma_euclid(p, r, b);
    }
}

// --- the probe sequence of gettext's hash tables ---
pub open spec fn probe_incr(h: int, size: int) -> int { 1 + h % (size - 2) }
pub open spec fn probe(h: int, size: int, k: int) -> int { (h % size + k * probe_incr(h, size)) % size }
pub proof fn lemma_probe_range(h: int, size: int, k: int)
    requires size >= 3, h >= 0, k >= 0
    ensures 0 <= probe(h, size, k) < size, 1 <= probe_incr(h, size) < size
{
    assert(0 <= h % (size - 2) < size - 2) by (nonlinear_arith) requires size >= 3;
    assert(0 <= h % size < size) by (nonlinear_arith) requires size >= 3;
    let x = h % size + k * probe_incr(h, size);
    assert(0 <= x % size < size) by (nonlinear_arith) requires size >= 3;
}
pub proof fn lemma_probe_zero(h: int, size: int)
    requires size >= 3, h >= 0
    ensures probe(h, size, 0) == h % size
{
    assert(0 <= h % size < size) by (nonlinear_arith) requires size >= 3;
    assert(0 * probe_incr(h, size) == 0);
    vstd::arithmetic::div_mod::lemma_small_mod((h % size) as nat, size as nat);
}
// one step: subtract size - incr, or add incr
pub proof fn lemma_probe_step(h: int, size: int, k: int)
    requires size >= 3, h >= 0, k >= 0
    ensures probe(h, size, k + 1) == (if probe(h, size, k) >= size - probe_incr(h, size) { probe(h, size, k) - (size - probe_incr(h, size)) } else { probe(h, size, k) + probe_incr(h, size) })
{
    lemma_probe_range(h, size, k);
    lemma_probe_range(h, size, k + 1);
    let i = probe_incr(h, size);
    let x = h % size + k * i;
    let y = h % size + (k + 1) * i;
    assert(y == x + i) by (nonlinear_arith) requires x == h % size + k * i, y == h % size + (k + 1) * i;
    let q = x / size;
    assert(x == q * size + x % size) by (nonlinear_arith) requires q == x / size, size > 0;
    if x % size >= size - i {
        let r = x % size - (size - i);
        assert(y == (q + 1) * size + r) by (nonlinear_arith) requires y == x + i, x == q * size + x % size, r == x % size - (size - i);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, size, q + 1, r);
    } else {
        let r = x % size + i;
        assert(y == q * size + r);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, size, q, r);
    }
}
// a prime table is walked completely before a slot is seen twice
pub proof fn lemma_probe_distinct(h: int, size: int, i: int, j: int)
    requires is_prime(size), size >= 3, h >= 0, 0 <= i < j < size
    ensures probe(h, size, i) != probe(h, size, j)
{
    if probe(h, size, i) == probe(h, size, j) {
        lemma_probe_range(h, size, i);
        let c = probe_incr(h, size);
        let x = h % size + i * c;
        let y = h % size + j * c;
        let (p, q) = (x / size, y / size);
        assert(x == p * size + x % size) by (nonlinear_arith) requires p == x / size, size > 0;
        assert(y == q * size + y % size) by (nonlinear_arith) requires q == y / size, size > 0;
        let d = j - i;
        assert(c * d == (q - p) * size) by (nonlinear_arith)
            requires x == h % size + i * c, y == h % size + j * c, x == p * size + x % size, y == q * size + y % size, x % size == y % size, d == j - i;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q - p, size);
        lemma_euclid(size, c, d);
        vstd::arithmetic::div_mod::lemma_small_mod(d as nat, size as nat);
    }
}

// --- the hash of gettext's catalogues (P. J. Weinberger's hash) ---
pub open spec fn pjw_step(h: u32, c: u8) -> u32 {
    let x = w_u32((h << 4) + c);
    let g = x & 0xf000_0000u32;
    x ^ (g >> 24) ^ g
}
pub open spec fn pjw(s: Seq<u8>, n: int) -> u32
    decreases n
{ if n <= 0 { 0u32 } else { pjw_step(pjw(s, n - 1), s[n - 1]) } }
pub proof fn lemma_pjw_bits(x: u32)
    ensures ({ let g = x & 0xf000_0000u32; let y = x ^ (g >> 24); (y & !g) == (y ^ g) && (g == 0 ==> y ^ g == x) })
{
    assert(({ let g = x & 0xf000_0000u32; let y = x ^ (g >> 24); (y & !g) == (y ^ g) && (g == 0 ==> y ^ g == x) })) by (bit_vector);
}
pub proof fn lemma_odd_step(n: int, i: int)
    requires n % 2 == 1, i % 2 == 1, i >= 3, n > 3, n % i != 0, forall|d: int| 2 <= d < i ==> !#[trigger] divides(d, n)
    ensures forall|d: int| 2 <= d < i + 2 ==> !#[trigger] divides(d, n)
{
    assert forall|d: int| 2 <= d < i + 2 implies !#[trigger] divides(d, n) by {
        if d == i + 1 && divides(d, n) {
            let q = n / d;
            let m = d / 2;
            assert(n == 2 * (m * q)) by (nonlinear_arith) requires n % d == 0, q == n / d, m == d / 2, d % 2 == 0, d > 0;
            assert(divides(2, n));
        }
    }
}
pub proof fn lemma_below_square(n: u32, i: u32)
    requires i >= 3
    ensures (i <= n / i) == (i * i <= n)
{
    let q = n / i;
    assert(n == q * i + n % i && 0 <= n % i < i) by (nonlinear_arith) requires q == n / i, i >= 3;
    assert((i <= q) == (i * i <= n)) by (nonlinear_arith) requires n == q * i + n % i, 0 <= n % i < i, i >= 3;
}

// --- hash tables ---
pub open spec fn used_count(tab: Seq<u32>) -> int
    decreases tab.len()
{ if tab.len() == 0 { 0 } else { used_count(tab.drop_last()) + (if tab.last() != 0 { 1int } else { 0 }) } }
pub proof fn lemma_used_none(tab: Seq<u32>)
    requires forall|i: int| 0 <= i < tab.len() ==> tab[i] == 0
    ensures used_count(tab) == 0
    decreases tab.len()
{ if tab.len() > 0 { lemma_used_none(tab.drop_last()); } }
pub proof fn lemma_used_nat(tab: Seq<u32>)
    ensures used_count(tab) >= 0
    decreases tab.len()
{ if tab.len() > 0 { lemma_used_nat(tab.drop_last()); } }
pub proof fn lemma_used_update(tab: Seq<u32>, i: int, v: u32)
    requires 0 <= i < tab.len()
    ensures used_count(tab.update(i, v)) == used_count(tab) - (if tab[i] != 0 { 1int } else { 0 }) + (if v != 0 { 1int } else { 0 })
    decreases tab.len()
{
    let t = tab.update(i, v);
    if i == tab.len() - 1 { assert(t.drop_last() =~= tab.drop_last()); }
    else { assert(t.drop_last() =~= tab.drop_last().update(i, v)); lemma_used_update(tab.drop_last(), i, v); }
}
// pairwise different taken slots are no more than the taken slots
pub proof fn lemma_pigeon(tab: Seq<u32>, p: Seq<int>)
    requires
        forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j],
        forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < tab.len() && tab[p[i]] != 0
    ensures p.len() <= used_count(tab)
    decreases p.len()
{
    lemma_used_nat(tab);
    if p.len() > 0 {
        let x = p.last();
        assert(x == p[p.len() - 1]);
        let q = p.drop_last();
        lemma_used_update(tab, x, 0u32);
        assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < tab.len() && tab.update(x, 0u32)[q[i]] != 0 by { assert(q[i] == p[i]); assert(p[i] != p[p.len() - 1]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] != #[trigger] q[j] by { assert(q[i] == p[i] && q[j] == p[j]); }
        lemma_pigeon(tab.update(x, 0u32), q);
    }
}
// as long as every slot seen is taken, fewer slots were seen than are taken
pub proof fn lemma_probe_bound(tab: Seq<u32>, h: int, size: int, k: int)
    requires is_prime(size), size >= 3, h >= 0, 0 <= k < size, tab.len() == size,
        forall|i: int| 0 <= i <= k ==> tab[#[trigger] probe(h, size, i)] != 0
    ensures k + 1 <= used_count(tab)
{
    let p = Seq::new((k + 1) as nat, |i: int| probe(h, size, i));
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by { lemma_probe_distinct(h, size, i, j); }
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < tab.len() && tab[p[i]] != 0 by { lemma_probe_range(h, size, i); assert(tab[probe(h, size, i)] != 0); }
    lemma_pigeon(tab, p);
}
// probing for hash h meets value v before any empty slot
pub open spec fn found_at(tab: Seq<u32>, h: int, size: int, v: u32, k: int) -> bool {
    0 <= k < size && tab[probe(h, size, k)] == v && forall|i: int| 0 <= i < k ==> tab[#[trigger] probe(h, size, i)] != 0
}
pub open spec fn reaches(tab: Seq<u32>, h: int, size: int, v: u32) -> bool { exists|k: int| found_at(tab, h, size, v, k) }
pub proof fn lemma_reaches_update(tab: Seq<u32>, h: int, size: int, v: u32, at: int, w: u32)
    requires reaches(tab, h, size, v), size >= 3, tab.len() == size, h >= 0, 0 <= at < size, tab[at] == 0, v != 0, w != 0
    ensures reaches(tab.update(at, w), h, size, v)
{
    let k = choose|k: int| found_at(tab, h, size, v, k);
    let t = tab.update(at, w);
    lemma_probe_range(h, size, k);
    assert forall|i: int| 0 <= i < k implies t[#[trigger] probe(h, size, i)] != 0 by { lemma_probe_range(h, size, i); assert(tab[probe(h, size, i)] != 0); }
    assert(found_at(t, h, size, v, k));
}
pub open spec fn hash_of(s: Seq<u8>) -> int { pjw(s, s.len() as int) as int }
// a table of the given size in which the keys, numbered from 1, are all found
pub open spec fn hash_table_for(tab: Seq<u32>, keys: Seq<Seq<u8>>, size: int) -> bool {
    &&& tab.len() == size
    &&& forall|i: int| 0 <= i < size ==> #[trigger] tab[i] <= keys.len()
    &&& forall|j: int| 0 <= j < keys.len() ==> reaches(tab, hash_of(#[trigger] keys[j]), size, (j + 1) as u32)
}
// the least prime from n on
pub open spec fn least_prime(n: int, p: int) -> bool { p >= n && is_prime(p) && forall|q: int| n <= q < p ==> !#[trigger] is_prime(q) }
pub open spec fn next_prime(n: int) -> int { choose|p: int| least_prime(n, p) }
pub proof fn lemma_next_prime(n: int, p: int)
    requires least_prime(n, p)
    ensures next_prime(n) == p
{
    let c = choose|c: int| least_prime(n, c);
    if c < p { assert(!is_prime(c)); }
    if p < c { assert(!is_prime(p)); }
}

pub proof fn lemma_prime_3()
    ensures is_prime(3)
{ assert forall|d: int| 2 <= d < 3 implies !#[trigger] divides(d, 3) by { assert(d == 2); } }

# Contracts of internal/util.

func util.Average(values) -> (r)
  returns avg_i64(values)
  entry lemma_go_len(values);
  loop 1
  invariant total == sum_i64(values, IDX)

func util.PJWHash(str) -> (r)
  returns pjw(str, str.len() as int)
  entry lemma_go_len(str);
  loop 1
  invariant 0 <= i <= str.len() && h == pjw(str, i as int)
  begin let k = i as int; let h0 = h; lemma_pjw_bits(w_u32((h0 << 4) + str[k])); 

func util.IsPrime(n) -> (r)
  returns is_prime(n as int)
  entry if n > 3 && n % 2 == 0 { lemma_even(n as int); } if n == 2 || n == 3 { assert forall|d: int| 2 <= d < n implies !#[trigger] divides(d, n as int) by {} }
  loop 1
  pre assert forall|d: int| 2 <= d < 3 implies !#[trigger] divides(d, n as int) by {} lemma_below_square(n, 3u32);
  invariant n > 3 && n % 2 == 1 && 3 <= i <= 65537 && i % 2 == 1 && n == old_n
  invariant forall|d: int| 2 <= d < i ==> !#[trigger] divides(d, n as int)
  decreases 65539 - i
  begin lemma_below_square(n, i); let i0 = i as int; assert(i0 < 65536) by (nonlinear_arith) requires i0 * i0 <= n, n <= 4294967295, i0 >= 3; assert(i0 < n) by (nonlinear_arith) requires i0 * i0 <= n, i0 >= 3;
    if n as int % i0 == 0 { assert(divides(i0, n as int)); } else { lemma_odd_step(n as int, i0); }
  after if n > 3 && n % 2 == 1 && i <= 65537 { lemma_below_square(n, i); lemma_prime_sqrt(n as int, i as int); }

func util.NextPrime(n) -> (r)
  requires n <= 4294967291
  ensures r >= n && is_prime(r as int)
  ensures r as int == next_prime(n as int)
  exit assert(least_prime(old_n as int, r as int)); lemma_next_prime(old_n as int, r as int);
  entry lemma_top_prime(); assert forall|d: int| 2 <= d < 2 implies !#[trigger] divides(d, 2) by {}
  loop 1
  pre if n != old_n { lemma_even(old_n as int); }
  begin lemma_even(n + 1);
  invariant forall|q: int| old_n <= q < n ==> !#[trigger] is_prime(q)
  invariant old_n <= n <= 4294967291 && n % 2 == 1 && is_prime(4294967291)
  decreases 4294967291 - n

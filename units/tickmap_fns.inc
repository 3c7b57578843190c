//@if sdk
//@const sdk/src/wasm/consts.rs TICK_SEARCH_RANGE
//@const sdk/src/wasm/consts.rs CHUNK_SIZE
//@else
//@const src/contracts/collections/tickmap.rs TICK_SEARCH_RANGE
//@const src/contracts/collections/tickmap.rs CHUNK_SIZE
//@fi
//@struct src/contracts/collections/tickmap.rs Tickmap
// ---- what the map stands for: one flag per pool and tick index; index i belongs to tick (i - MAX_TICK/s)*s
//@if sdk
pub type BM = Map<u64, u64>;
pub type BK = int;
pub open spec fn word(m: BM, k: BK, c: int) -> u64 { if k == 0 && 0 <= c <= 65535 && m.dom().contains(c as u64) { m[c as u64] } else { 0 } }
//@subst pool_key => 0int
//@else
pub type BM = Map<(u16, PoolKey), u64>;
pub type BK = PoolKey;
pub open spec fn word(m: BM, k: BK, c: int) -> u64 { if 0 <= c <= 65535 && m.dom().contains((c as u16, k)) { m[(c as u16, k)] } else { 0 } }
//@fi
pub open spec fn bitof(w: u64, b: int) -> bool { (w >> (b as u64)) & 1u64 == 1u64 }
pub open spec fn set_at(m: BM, k: BK, i: int) -> bool { bitof(word(m, k, i / 64), i % 64) }
pub open spec fn half(s: int) -> int { MAX_TICK as int / s }
pub open spec fn idx(t: int, s: int) -> int { t / s + half(s) }
pub open spec fn tick_at(i: int, s: int) -> int { (i - half(s)) * s }
/// the tick is initialised for the pool
pub open spec fn inited(m: BM, k: BK, t: int, s: int) -> bool { set_at(m, k, idx(t, s)) }
pub open spec fn limit_up(t: int, s: int) -> int { if tdiv(t, s) + 256 <= half(s) { (tdiv(t, s) + 256) * s } else { half(s) * s } }
pub open spec fn limit_down(t: int, s: int) -> int { if tdiv(t, s) - 256 >= -half(s) { (tdiv(t, s) - 256) * s } else { -(half(s) * s) } }
pub proof fn l_idx(t: int, s: int) requires 0 < s <= 65535, tick_ok(t), t % s == 0 ensures tdiv(t, s) == t / s, t / s * s == t, tdiv(t + MAX_TICK, s) == idx(t, s), 0 <= idx(t, s) <= 2 * half(s), 0 <= half(s) <= MAX_TICK, tick_at(idx(t, s), s) == t {
    l_fdiv(MAX_TICK as int, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, s); let q = t / s; let m = half(s); assert(s * q == q * s) by (nonlinear_arith); l_aligned(t, s);
    assert(-m <= q <= m) by (nonlinear_arith) requires -(m * s) <= q * s <= m * s, s > 0;
    let r = MAX_TICK - m * s; assert((q + m) * s == q * s + m * s) by (nonlinear_arith);
    l_fdiv_unique(t + MAX_TICK, s, q + m);
    assert(m * s >= m) by (nonlinear_arith) requires m >= 0, s >= 1;
    if t < 0 { assert((-q) * s == -t) by (nonlinear_arith) requires q * s == t; l_fdiv_unique(-t, s, -q); }
}
/// distinct aligned ticks have distinct indices, in the same order
pub proof fn l_idx_order(t: int, u: int, s: int) requires 0 < s, t % s == 0, u % s == 0 ensures t < u <==> idx(t, s) < idx(u, s) {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, s); let (a, b) = (t / s, u / s);
    assert(t < u <==> a < b) by (nonlinear_arith) requires t == s * a, u == s * b, s > 0;
}
pub proof fn l_limits(t: int, s: int) requires 0 < s <= 65535, tick_ok(t) ensures -half(s) <= tdiv(t, s) <= half(s), tdiv(-MAX_TICK, s) == -half(s), -(half(s) * s) == (-half(s)) * s, half(s) * s <= MAX_TICK,
    forall|q: int| -half(s) <= q <= half(s) ==> -MAX_TICK <= #[trigger] (q * s) <= MAX_TICK, limit_down(t, s) % s == 0, limit_up(t, s) % s == 0, tick_ok(limit_up(t, s)), tick_ok(limit_down(t, s)),
    t % s == 0 ==> limit_down(t, s) <= t <= limit_up(t, s)
{
    l_fdiv(MAX_TICK as int, s); let h = half(s); assert((-h) * s == -(h * s)) by (nonlinear_arith);
    let q = tdiv(t, s); let a = if t >= 0 { t } else { -t }; l_fdiv(a, s); let b = a / s;
    assert(b <= h) by (nonlinear_arith) requires b * s <= a, a <= 221818, 221818 < h * s + s, s > 0;
    assert(b >= 0) by (nonlinear_arith) requires a < b * s + s, a >= 0, s > 0;
    assert forall|q: int| -h <= q <= h implies -MAX_TICK <= #[trigger] (q * s) <= MAX_TICK by { assert(-(h * s) <= q * s <= h * s) by (nonlinear_arith) requires -h <= q <= h, s > 0; }
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(h, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-h, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 256, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q - 256, s);
    if t % s == 0 { l_idx(t, s); l_aligned(t, s); assert((q + 256) * s >= q * s && (q - 256) * s <= q * s) by (nonlinear_arith) requires s > 0; }
}
// ---- bits of a word
pub proof fn l_bits_up(w: u64, b: u8) requires b < 64 ensures
    (w >> b) != 0 && (w >> b) % 2 == 0 ==> b < 63 && (w >> b) >> 1 == w >> ((b + 1) as u8) && (w >> b) >> 1 != 0 && !bitof(w, b as int),
    (w >> b) % 2 == 1 ==> bitof(w, b as int),
    (w >> b) == 0 ==> forall|c: int| b <= c < 64 ==> !#[trigger] bitof(w, c)
{
    let q = b as u64; let z = w >> b; assert(z == w >> q) by (bit_vector) requires q == b as u64, z == w >> b;
    if z != 0 && z % 2 == 0 {
        assert(q < 63) by (bit_vector) requires z == w >> q, z != 0, z % 2 == 0, q < 64;
        let n = (b + 1) as u8; assert(z >> 1 == w >> n) by (bit_vector) requires z == w >> b, b < 63, n == (b + 1) as u8;
        assert(z >> 1 != 0) by (bit_vector) requires z != 0, z % 2 == 0;
        assert((w >> q) & 1u64 != 1u64) by (bit_vector) requires z == w >> q, z % 2 == 0;
    }
    if z % 2 == 1 { assert((w >> q) & 1u64 == 1u64) by (bit_vector) requires z == w >> q, z % 2 == 1; }
    if z == 0 { assert forall|c: int| b <= c < 64 implies !#[trigger] bitof(w, c) by { let d = c as u64; assert((w >> d) & 1u64 != 1u64) by (bit_vector) requires w >> q == 0, q <= d, d < 64; } }
}
pub open spec fn lo(w: u64, n: int) -> int { w as int % (vstd::arithmetic::power2::pow2(n as nat) as int) }
pub proof fn l_lo(w: u64, n: int) requires 0 <= n < 64 ensures lo(w, 0) == 0, lo(w, n) >= 0, lo(w, n + 1) > 0 <==> (lo(w, n) > 0 || bitof(w, n)) {
    let p = vstd::arithmetic::power2::pow2(n as nat) as int; vstd::arithmetic::power2::lemma_pow2_pos(n as nat); vstd::arithmetic::power2::lemma_pow2_unfold((n + 1) as nat); vstd::arithmetic::power2::lemma2_to64();
    let x = w as int; vstd::arithmetic::div_mod::lemma_mod_breakdown(x, p, 2); assert(p * 2 == 2 * p); vstd::arithmetic::div_mod::lemma_mod_bound(x, p);
    vstd::bits::lemma_u64_shr_is_div(w, n as u64); let y = w >> (n as u64); assert(y & 1u64 == y % 2) by (bit_vector);
    assert(p * ((x / p) % 2) > 0 <==> (x / p) % 2 == 1) by (nonlinear_arith) requires p > 0, (x / p) % 2 == 0 || (x / p) % 2 == 1;
    assert(p * ((x / p) % 2) >= 0) by (nonlinear_arith) requires p > 0, (x / p) % 2 == 0 || (x / p) % 2 == 1;
}
pub proof fn l_lo_zero(w: u64, n: int, c: int) requires 0 <= c < n <= 64, lo(w, n) == 0 ensures !bitof(w, c) decreases n { l_lo(w, n - 1); if c < n - 1 { l_lo_zero(w, n - 1, c); } }
pub proof fn l_shl(n: u64) requires n <= 64 ensures (1u128 << n) as int == vstd::arithmetic::power2::pow2(n as nat) decreases n {
    vstd::arithmetic::power2::lemma2_to64();
    if n == 0 { assert(1u128 << 0u64 == 1) by (bit_vector); } else { let m = (n - 1) as u64; l_shl(m); vstd::arithmetic::power2::lemma_pow2_unfold(n as nat); assert(1u128 << n == 2 * (1u128 << m)) by (bit_vector) requires n == m + 1, m < 64; }
}
/// the test and the mask of the downward search
pub proof fn l_mask(w: u64, b: u8) requires b < 64 ensures ({ let k = 1u128 << b; &&& k << 1 == 1u128 << ((b + 1) as u64) &&& k << 1 != 0 &&& (w as u128) % ((k << 1) as u128) == lo(w, b as int + 1)
    &&& ((w as u128) & k == 0) == !bitof(w, b as int) &&& (b > 0 ==> k >> 1 == 1u128 << ((b - 1) as u8)) })
{
    let k = 1u128 << b; let n = (b + 1) as u64; let q = b as u64; assert(k << 1 == 1u128 << n && k << 1 != 0) by (bit_vector) requires k == 1u128 << b, n == (b + 1) as u64, b < 64;
    l_shl(n); let v = w as u128; assert((v & k == 0) == ((w >> q) & 1u64 != 1u64)) by (bit_vector) requires k == 1u128 << b, q == b as u64, b < 64, v == w as u128;
    if b > 0 { let m = (b - 1) as u8; assert(k >> 1 == 1u128 << m) by (bit_vector) requires k == 1u128 << b, m == (b - 1) as u8, 0 < b, b < 64; }
}
// ---- the search results
pub open spec fn between_unset(m: BM, k: BK, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> !#[trigger] set_at(m, k, j) }
/// x is the nearest initialised tick in the direction within the search range: strictly above, or at or below
pub open spec fn nearest(m: BM, k: BK, t: int, s: int, up: bool, x: int) -> bool {
    x % s == 0 && inited(m, k, x, s) && (if up { t < x <= limit_up(t, s) && between_unset(m, k, idx(t, s) + 1, idx(x, s)) } else { limit_down(t, s) <= x <= t && between_unset(m, k, idx(x, s) + 1, idx(t, s) + 1) })
}
pub open spec fn none_near(m: BM, k: BK, t: int, s: int, up: bool) -> bool {
    if up { between_unset(m, k, idx(t, s) + 1, idx(limit_up(t, s), s) + 1) } else { between_unset(m, k, idx(limit_down(t, s), s), idx(t, s) + 1) }
}
/// the same, tick by tick
pub proof fn l_nearest(m: BM, k: BK, t: int, s: int, up: bool, x: int, y: int)
    requires s > 0, t % s == 0, y % s == 0, inited(m, k, y, s), if up { t < y <= limit_up(t, s) } else { limit_down(t, s) <= y <= t }, 0 < s <= 65535, tick_ok(t)
    ensures !none_near(m, k, t, s, up), nearest(m, k, t, s, up, x) ==> (if up { x <= y } else { x >= y })
{ l_limits(t, s); l_idx_order(t, y, s); l_idx_order(y, t, s); l_idx_order(y, limit_up(t, s), s); l_idx_order(limit_up(t, s), y, s); l_idx_order(limit_down(t, s), y, s); l_idx_order(y, limit_down(t, s), s);
  if nearest(m, k, t, s, up, x) { l_idx_order(x, y, s); l_idx_order(y, x, s); } }
pub proof fn l_tick_at(i: int, s: int) requires s > 0 ensures tick_at(i, s) % s == 0, idx(tick_at(i, s), s) == i { let q = i - half(s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, s); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q, s); assert(s * q == q * s) by (nonlinear_arith); }
pub proof fn l_up_end(t: int, s: int) requires 0 < s <= 65535, tick_ok(t), t % s == 0, t + s > MAX_TICK ensures limit_up(t, s) == t {
    l_idx(t, s); l_limits(t, s); let (q, h) = (t / s, half(s)); l_fdiv(MAX_TICK as int, s); assert(q == h) by (nonlinear_arith) requires q * s + s > 221818, h * s <= 221818, q <= h, s > 0;
}
pub proof fn l_next(t: int, s: int) requires 0 < s <= 65535, tick_ok(t), tick_ok(t + s), (t + s) % s == 0 ensures t % s == 0, idx(t + s, s) == idx(t, s) + 1, idx(t, s) >= 0 {
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(t, s); l_idx(t, s); vstd::arithmetic::div_mod::lemma_div_plus_one(t, s);
}
/// the tick of an index between the ends
pub proof fn l_found(j: int, t: int, s: int) requires 0 < s <= 65535, tick_ok(t), t % s == 0, 0 <= j <= 2 * half(s)
    ensures -half(s) <= j - half(s) <= half(s), tick_ok(tick_at(j, s)), tick_at(j, s) % s == 0, idx(tick_at(j, s), s) == j, tick_at(j, s) == (j - half(s)) * s, j <= idx(limit_up(t, s), s) <==> tick_at(j, s) <= limit_up(t, s), j > idx(t, s) <==> tick_at(j, s) > t, j >= idx(limit_down(t, s), s) <==> tick_at(j, s) >= limit_down(t, s)
{ l_limits(t, s); l_tick_at(j, s); let x = tick_at(j, s); let q = j - half(s); assert(-MAX_TICK <= q * s <= MAX_TICK); l_idx_order(limit_up(t, s), x, s); l_idx_order(t, x, s); l_idx_order(x, limit_down(t, s), s); }
pub proof fn l_word(m: BM, k: BK, c: int) ensures forall|j: int| c * 64 <= j < c * 64 + 64 ==> #[trigger] set_at(m, k, j) == bitof(word(m, k, c), j - c * 64) {
    assert forall|j: int| c * 64 <= j < c * 64 + 64 implies #[trigger] set_at(m, k, j) == bitof(word(m, k, c), j - c * 64) by { assert(j / 64 == c && j % 64 == j - c * 64); }
}
pub proof fn l_bits_all(w: u64) ensures forall|b: u8| b < 64 ==> ((#[trigger] (w >> b)) % 2 == 1 ==> bitof(w, b as int)) { assert forall|b: u8| b < 64 implies ((#[trigger] (w >> b)) % 2 == 1 ==> bitof(w, b as int)) by { l_bits_up(w, b); } }
pub proof fn l_lo_all(w: u64) ensures forall|n: int, c: int| 0 <= c < n <= 64 && #[trigger] lo(w, n) == 0 ==> !#[trigger] bitof(w, c) { assert forall|n: int, c: int| 0 <= c < n <= 64 && #[trigger] lo(w, n) == 0 implies !#[trigger] bitof(w, c) by { l_lo_zero(w, n, c); } }
pub proof fn l_masks(w: u64) ensures forall|b: u8| b < 64 ==> (((w as u128) & #[trigger] (1u128 << b)) == 0) == !bitof(w, b as int) { assert forall|b: u8| b < 64 implies (((w as u128) & #[trigger] (1u128 << b)) == 0) == !bitof(w, b as int) by { l_mask(w, b); } }
//@if sdk
//@fn sdk/src/wasm/consts.rs get_max_chunk -> r divrem
    ensures match r { Ok(v) => tick_spacing != 0 && v as int == idx(max_tick_of(tick_spacing as int), tick_spacing as int) / 64, Err(_) => false }
//@pre
    proof { if tick_spacing != 0 { let s = tick_spacing as int; l_fdiv(MAX_TICK as int, s); assert(half(s) * s % s == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(half(s), s); } 
        assert(half(s) * s >= 0) by (nonlinear_arith) requires half(s) >= 0, s > 0; l_idx(max_tick_of(s), s); } }
//@end
//@else
//@fn src/contracts/collections/tickmap.rs get_max_chunk -> r divrem
    ensures tick_spacing != 0, r as int == idx(max_tick_of(tick_spacing as int), tick_spacing as int) / 64, r <= 6931
//@pre
    proof { if tick_spacing != 0 { let s = tick_spacing as int; l_fdiv(MAX_TICK as int, s); assert(half(s) * s % s == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(half(s), s); } 
        assert(half(s) * s >= 0) by (nonlinear_arith) requires half(s) >= 0, s > 0; l_idx(max_tick_of(s), s); } }
//@end
//@fi
//@fn src/contracts/collections/tickmap.rs tick_to_position -> r divrem cdivrem
    ensures tick_spacing != 0, tick_ok(tick as int), tick as int % tick_spacing as int == 0, r.0 as int == idx(tick as int, tick_spacing as int) / 64, r.1 as int == idx(tick as int, tick_spacing as int) % 64
//@pre
    proof { if tick_spacing != 0 && tick_ok(tick as int) { l_trem0(tick as int, tick_spacing as int); if tick as int % tick_spacing as int == 0 { l_idx(tick as int, tick_spacing as int); } } }
//@end
//@fn src/contracts/collections/tickmap.rs position_to_tick -> r cdivrem
    requires tick_spacing != 0 ==> chunk as int * 64 + bit as int <= 2 * half(tick_spacing as int)
//@if sdk
    ensures match r { Ok(x) => tick_spacing != 0 && x as int == tick_at(chunk as int * 64 + bit as int, tick_spacing as int), Err(_) => tick_spacing == 0 }
//@else
    ensures tick_spacing != 0, r as int == tick_at(chunk as int * 64 + bit as int, tick_spacing as int)
//@fi
//@pre
    proof { if tick_spacing != 0 { let s = tick_spacing as int; l_trem0(MAX_TICK as int, s); l_fdiv(MAX_TICK as int, s); assert(half(s) * s >= 0) by (nonlinear_arith) requires half(s) >= 0, s > 0; } }
//@after tick_range_limit
    proof { let (s, i) = (tick_spacing as int, chunk as int * 64 + bit as int); let h = half(s); l_fdiv(MAX_TICK as int, s);
        assert(0 <= chunk * 64 * s && 0 <= bit * s && chunk * 64 * s + bit * s == i * s && i * s <= 2 * (h * s) && (i - h) * s == i * s - h * s) by (nonlinear_arith) requires 0 <= i <= 2 * h, i == chunk * 64 + bit, chunk >= 0, bit >= 0, s > 0; }
//@end
//@fn src/contracts/collections/tickmap.rs get_bit_at_position -> r
    requires position < 64
    ensures r == (if bitof(value, position as int) { 1u64 } else { 0u64 })
//@pre
    proof { let p = position as u64; assert((value >> p) & 1 == 0 || (value >> p) & 1 == 1) by (bit_vector); assert(value >> position == value >> p) by (bit_vector) requires p == position as u64; }
//@end
//@fn src/contracts/collections/tickmap.rs flip_bit_at_position -> r
    requires position < 64
    ensures forall|j: int| 0 <= j < 64 ==> #[trigger] bitof(r, j) == (if j == position { !bitof(value, j) } else { bitof(value, j) })
//@pre
    proof { let p = position as u64; let r = value ^ (1u64 << position); assert(r == value ^ (1u64 << p)) by (bit_vector) requires p == position as u64, r == value ^ (1u64 << position);
        assert forall|j: int| 0 <= j < 64 implies #[trigger] bitof(r, j) == (if j == position { !bitof(value, j) } else { bitof(value, j) }) by { let q = j as u64;
            assert(((r >> q) & 1u64 == 1u64) == (if q == p { !((value >> q) & 1u64 == 1u64) } else { (value >> q) & 1u64 == 1u64 })) by (bit_vector) requires p < 64, q < 64, r == value ^ (1u64 << p); } }
//@end
//@fn src/contracts/collections/tickmap.rs get_search_limit -> r divrem cdivrem
    requires tick_ok(tick as int)
    ensures tick_spacing != 0, r as int == (if up { limit_up(tick as int, tick_spacing as int) } else { limit_down(tick as int, tick_spacing as int) })
//@pre
    proof { if tick_spacing != 0 { let s = tick_spacing as int; l_fdiv(MAX_TICK as int, s); l_limits(tick as int, s); } }
//@end
//@fn src/contracts/collections/tickmap.rs Tickmap::get -> r
    ensures tick_spacing != 0, tick_ok(tick as int), r == inited(self.bitmap.m(), pool_key, tick as int, tick_spacing as int)
//@end
//@fn src/contracts/collections/tickmap.rs Tickmap::flip
    ensures tick_spacing != 0, tick_ok(tick as int), tick as int % tick_spacing as int == 0,
        inited(old(self).bitmap.m(), pool_key, tick as int, tick_spacing as int) == !value,
        forall|k: BK, i: int| 0 <= i < 64 * 65536 ==> #[trigger] set_at(final(self).bitmap.m(), k, i) == (if k == pool_key && i == idx(tick as int, tick_spacing as int) { value } else { set_at(old(self).bitmap.m(), k, i) })
//@end
//@fn src/contracts/collections/tickmap.rs Tickmap::next_initialized -> r divrem
    requires tick_ok(tick as int)
    ensures tick_spacing != 0, tick as int % tick_spacing as int == 0 ==> (match r { Some(x) => nearest(self.bitmap.m(), pool_key, tick as int, tick_spacing as int, true, x as int), None => none_near(self.bitmap.m(), pool_key, tick as int, tick_spacing as int, true) })
//@pre
    let ghost (m, k, s, t) = (self.bitmap.m(), pool_key, tick_spacing as int, tick as int);
    let ghost (i0, li, h) = (idx(t, s) + 1, idx(limit_up(t, s), s), half(s));
    proof { if tick_spacing != 0 { l_limits(t, s); l_idx(limit_up(t, s), s); l_fdiv(MAX_TICK as int, s); if t % s == 0 { l_idx(t, s); } } }
    proof { if tick_spacing != 0 && t % s == 0 && t + s > MAX_TICK { l_up_end(t, s); } }
//@after limiting_chunk
    proof { l_next(t, s); }
//@loop 0
    invariant s == tick_spacing, s > 0, h == half(s), k == pool_key, m == self.bitmap.m(), t == tick, bit < 64, limiting_bit < 64, limiting_chunk as int * 64 + limiting_bit as int == li, li <= 2 * h, h <= MAX_TICK, i0 <= chunk as int * 64 + bit as int, i0 >= 1,
        i0 == idx(t, s) + 1, li == idx(limit_up(t, s), s), t % s == 0, tick_ok(t), between_unset(m, k, i0, chunk as int * 64 + bit as int)
    decreases 65536 - chunk
//@loopin 0
    let ghost b0 = bit; let ghost w = word(m, k, chunk as int);
    proof { l_word(m, k, chunk as int); l_bits_all(w); l_bits_up(w, bit); }
//@loop 1
    invariant b0 <= bit < 64, shifted == w >> bit, shifted != 0, forall|c: int| b0 <= c < bit ==> !#[trigger] bitof(w, c)
    decreases 64 - bit
//@loopin 1
    proof { l_bits_up(w, bit); }
//@after index
    proof { assert(index as int <= li); l_found(index as int, t, s); assert(set_at(m, k, index as int)); }
//@end
//@fn src/contracts/collections/tickmap.rs Tickmap::prev_initialized -> r divrem
    requires tick_ok(tick as int)
    ensures tick_spacing != 0, tick as int % tick_spacing as int == 0, match r { Some(x) => nearest(self.bitmap.m(), pool_key, tick as int, tick_spacing as int, false, x as int), None => none_near(self.bitmap.m(), pool_key, tick as int, tick_spacing as int, false) }
//@pre
    let ghost (m, k, s, t) = (self.bitmap.m(), pool_key, tick_spacing as int, tick as int);
    let ghost (n, li, h) = (idx(t, s), idx(limit_down(t, s), s), half(s));
    proof { if tick_spacing != 0 { l_limits(t, s); l_idx(limit_down(t, s), s); l_fdiv(MAX_TICK as int, s); if t % s == 0 { l_idx(t, s); } } }
//@loop 0
    invariant s == tick_spacing, s > 0, h == half(s), k == pool_key, m == self.bitmap.m(), t == tick, bit < 64, limiting_bit < 64, limiting_chunk as int * 64 + limiting_bit as int == li, n <= 2 * h, h <= MAX_TICK, chunk as int * 64 + bit as int <= n, li >= 0,
        n == idx(t, s), li == idx(limit_down(t, s), s), t % s == 0, tick_ok(t), between_unset(m, k, chunk as int * 64 + bit as int + 1, n + 1)
    decreases chunk
//@loopin 0
    let ghost b0 = bit; let ghost w = word(m, k, chunk as int);
    proof { l_word(m, k, chunk as int); l_masks(w); l_mask(w, bit); l_lo_all(w); l_lo(w, 0); }
//@loop 1
    invariant bit <= b0 < 64, value == w as u128, mask == 1u128 << bit, lo(w, bit as int + 1) > 0, forall|c: int| bit < c <= b0 ==> !#[trigger] bitof(w, c)
    decreases bit
//@loopin 1
    proof { l_mask(w, bit); l_lo(w, bit as int); l_lo(w, 0); }
//@after index
    proof { assert(index as int >= li); l_found(index as int, t, s); assert(set_at(m, k, index as int)); }
//@end
pub open spec fn tnear(m: BM, k: BK, t: int, s: int, xy: bool, x: int) -> bool { nearest(m, k, t, s, !xy, x) }
/// the price at which the next step of a swap has to stop, with the tick it belongs to
pub open spec fn closer(xy: bool, limit: int, x: int, has: bool) -> bool { if xy { tick_price(x) > limit } else if has { tick_price(x) <= limit } else { tick_price(x) < limit } }
//@fn src/contracts/collections/tickmap.rs Tickmap::get_closer_limit -> r
    requires tick_ok(current_tick as int)
    ensures tick_spacing != 0, current_tick as int % tick_spacing as int == 0 ==> ({ let (m, s, t, lim) = (self.bitmap.m(), tick_spacing as int, current_tick as int, sqrt_price_limit.d());
        let end = if x_to_y { limit_down(t, s) } else { limit_up(t, s) };
        match r {
            Ok((p, Some((x, true)))) => nearest(m, pool_key, t, s, !x_to_y, x as int) && p.d() == tick_price(x as int) && closer(x_to_y, lim, x as int, true),
            Ok((p, Some((x, false)))) => none_near(m, pool_key, t, s, !x_to_y) && x as int == end && x != current_tick && p.d() == tick_price(x as int) && closer(x_to_y, lim, x as int, false),
            Ok((p, None)) => p.d() == lim && ((exists|x: int| #[trigger] tnear(m, pool_key, t, s, x_to_y, x) && !closer(x_to_y, lim, x, true)) || (none_near(m, pool_key, t, s, !x_to_y) && end != t && !closer(x_to_y, lim, end, false))),
            Err(_) => none_near(m, pool_key, t, s, !x_to_y) && end == t } })
//@pre
    proof { if tick_spacing != 0 { l_limits(current_tick as int, tick_spacing as int); } }
//@after sqrt_price
    proof { if current_tick as int % tick_spacing as int == 0 { assert(tnear(self.bitmap.m(), pool_key, current_tick as int, tick_spacing as int, x_to_y, index as int)); } }
//@end

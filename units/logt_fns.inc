pub assume_specification [ i32::rem_euclid ] (a: i32, b: i32) -> (r: i32) ensures b != 0, b > 0 ==> r as int == a as int % b as int;
//@const calc/math/log.rs LOG2_SCALE
//@const calc/math/log.rs LOG2_DOUBLE_SCALE
//@const calc/math/log.rs LOG2_ONE
//@const calc/math/log.rs LOG2_HALF
//@const calc/math/log.rs LOG2_TWO
//@const calc/math/log.rs LOG2_DOUBLE_ONE
//@const calc/math/log.rs LOG2_SQRT_10001
//@const calc/math/log.rs LOG2_NEGATIVE_MAX_LOSE
//@const calc/math/log.rs LOG2_MIN_BINARY_POSITION
//@const calc/math/log.rs LOG2_ACCURACY
//@const calc/math/log.rs SQRT_PRICE_DENOMINATOR
pub proof fn l_log_consts() ensures LOG2_SCALE == 32, LOG2_ONE == ONE32, LOG2_TWO == TWO32, LOG2_HALF == 2147483648, LOG2_DOUBLE_ONE == ONE64, LOG2_ACCURACY == 65536, LOG2_SQRT_10001 == 309801, LOG2_NEGATIVE_MAX_LOSE == 300000, SQRT_PRICE_DENOMINATOR == E24 {
    assert(1u128 << 32u8 == 4294967296u128) by (bit_vector); assert(1u128 << 64u8 == 18446744073709551616u128) by (bit_vector); assert(4294967296u128 << 1 == 8589934592u128) by (bit_vector);
    assert(4294967296u128 >> 1 == 2147483648u128) by (bit_vector); assert(1u64 << 16 == 65536u64) by (bit_vector); assert(1u64 << 16i32 == 65536u64) by (bit_vector);
}
//@fn calc/math/log.rs sqrt_price_to_x32 -> r
    requires in_range(decimal.d())
    ensures r as int == x32(decimal.d())
//@pre
    proof { l_log_consts(); l_x32(decimal.d()); l_mul_mono(decimal.d(), MAX_SQRT_PRICE as int, ONE32); assert(65535383934512647000000000000int * 4294967296int < 340282366920938463463374607431768211456int) by (compute); }
//@end
//@fn calc/math/log.rs align_tick_to_spacing -> r divrem
    requires -2000000 <= accurate_tick <= 2000000, 0 <= tick_spacing <= 65535
    ensures tick_spacing > 0 ==> r as int == falign(accurate_tick as int, tick_spacing as int), tick_spacing != 0
//@pre
    proof { if tick_spacing > 0 { l_trem0(accurate_tick as int, tick_spacing as int); vstd::arithmetic::div_mod::lemma_mod_bound(accurate_tick as int, tick_spacing as int); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(accurate_tick as int, tick_spacing as int); let q = accurate_tick as int / tick_spacing as int; assert(q * tick_spacing as int == tick_spacing as int * q) by (nonlinear_arith); } }
//@end
//@fn calc/math/log.rs log2_floor_x32 -> r
    ensures r as int == flog(sqrt_price_x32 as int), r < 64
//@pre
    let ghost v0 = sqrt_price_x32; proof { assert(0u64 & 63u64 == 0) by (bit_vector); }
//@afterif 0
    let ghost (v1, m1) = (sqrt_price_x32, msb); proof { l_fl_32(v0, 0, v1, m1); }
//@afterif 1
    let ghost (v2, m2) = (sqrt_price_x32, msb); proof { l_fl_16(v1, m1, v2, m2); }
//@afterif 2
    let ghost (v3, m3) = (sqrt_price_x32, msb); proof { l_fl_8(v2, m2, v3, m3); }
//@afterif 3
    let ghost (v4, m4) = (sqrt_price_x32, msb); proof { l_fl_4(v3, m3, v4, m4); }
//@afterif 4
    let ghost (v5, m5) = (sqrt_price_x32, msb); proof { l_fl_2(v4, m4, v5, m5); }
//@afterif 5
    proof { l_fl_1(v5, m5, msb); }
//@end
//@fn calc/math/log.rs log2_iterative_approximation_x32 -> r
    requires 1 <= sqrt_price_x32
    ensures r.0 == (sqrt_price_x32 as int >= ONE32), r.1 as int == lg(if r.0 { sqrt_price_x32 as int } else { ONE64 / (sqrt_price_x32 as int + 1) }), r.1 as int <= 32 * ONE32
//@pre
    let ghost x0 = sqrt_price_x32 as int;
    proof { l_log_consts(); if x0 < ONE32 { l_x32_inv(x0); } }
//@afterif 0
    let ghost v = sqrt_price_x32 as int;
    proof { let n = sqrt_price_x32; if x0 < ONE32 { l_x32_inv(x0); } assert(n >> 32u8 == n / 4294967296u64) by (bit_vector); l_mant(v); l_lg_bound(v); }
//@after y
    proof { let (n, k) = (sqrt_price_x32 as u128, log2_floor); l_shr(n, k); assert(y as int == v / p2(k as int)); assert(log2_floor < 32);
        assert((log2_floor << 32u8) == mul(log2_floor, 4294967296) && mul(log2_floor, 4294967296) & sub(mul(2, 2147483648), 1) == 0 && mul(log2_floor, 4294967296) <= 0x1f_0000_0000) by (bit_vector) requires log2_floor < 32;
        assert(result as int == flog(v / ONE32) * ONE32); l_frac_one(2147483648); assert(2147483648u64 & sub(2147483648u64, 1) == 0) by (bit_vector); }
//@loop 0
    invariant mant(y as int), result & sub(mul(2, delta), 1) == 0, delta & sub(delta, 1) == 0, 65536 <= delta <= 0x8000_0000, LOG2_ACCURACY == 65536, LOG2_ONE == ONE32, LOG2_TWO == TWO32, lg(v) < 32 * ONE32,
        result as int + frac(y as int, delta as int) == lg(v), result as int <= 32 * ONE32
    decreases delta
//@loopin 0
    let ghost (y0, r0, d0) = (y as int, result, delta);
    proof { l_sq(y0); l_bit(result, delta); l_frac_lt(y0, d0 as int); assert(d0 & sub(d0, 1) == 0 && d0 > 65536 ==> d0 >> 1 >= 65536) by (bit_vector); assert(LOG2_ACCURACY == 65536); let qq = (y0 * y0) as u128; assert(qq >> 32u8 == qq / 0x1_0000_0000u128) by (bit_vector); assert(qq >> 32i32 == qq / 0x1_0000_0000u128) by (bit_vector); assert(d0 >> 1 == d0 / 2) by (bit_vector); }
//@loopend 0
    proof { let z = y0 * y0 / ONE32; let zz = z as u128; assert(zz >> 1 == zz / 2) by (bit_vector); assert(d0 >> 1u64 == d0 >> 1i32) by (bit_vector); l_frac_bound(y as int, delta as int); }
//@end
//@fn calc/math/log.rs get_tick_at_sqrt_price -> r
    ensures match r { Ok(t) => in_range(sqrt_price.d()) && tick_spacing != 0 && t as int == falign(sel(sqrt_price.d()), tick_spacing as int),
        Err(_) => !in_range(sqrt_price.d()) || !tick_ok(near(sqrt_price.d())) || !tick_ok(far(sqrt_price.d())) },
        r.is_err() <==> sel_err(sqrt_price.d(), tick_spacing as int)
//@pre
    hide(lg); hide(tick_price); let ghost p = sqrt_price.d();
    proof { l_log_consts(); if in_range(p) { l_x32(p); l_mag(p); if up_side(p) { l_lg_bound(x32(p)); } else { l_lg_bound(ONE64 / (x32(p) + 1)); } }
        if tick_spacing > 0 { let s = tick_spacing as int; l_falign2(near(p), s); l_falign2(far(p), s); } }
//@end

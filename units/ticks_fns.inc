pub assume_specification [ i32::abs ] (a: i32) -> (r: i32) requires a > i32::MIN ensures r as int == (if a >= 0 { a as int } else { -(a as int) });
pub assume_specification [ i32::checked_abs ] (a: i32) -> (r: Option<i32>) ensures match r { Some(x) => x as int == (if a >= 0 { a as int } else { -(a as int) }), None => a == i32::MIN };
//@fn calc/math/types/sqrt_price.rs calculate_sqrt_price -> r
    ensures match r { Ok(p) => tick_ok(tick_index as int) && p.d() == tick_price(tick_index as int), Err(_) => !tick_ok(tick_index as int) }
//@pre
    hide(chain); hide(tick_fixed); hide(cs); hide(tick_price); hide(fmul);
//@afterif 1
    let ghost g1 = sqrt_price.d(); proof { l_code_0(tick, E12, g1); }
//@afterif 2
    let ghost g2 = sqrt_price.d(); proof { l_code_1(tick, g1, g2); }
//@afterif 3
    let ghost g3 = sqrt_price.d(); proof { l_code_2(tick, g2, g3); }
//@afterif 4
    let ghost g4 = sqrt_price.d(); proof { l_code_3(tick, g3, g4); }
//@afterif 5
    let ghost g5 = sqrt_price.d(); proof { l_code_4(tick, g4, g5); }
//@afterif 6
    let ghost g6 = sqrt_price.d(); proof { l_code_5(tick, g5, g6); }
//@afterif 7
    let ghost g7 = sqrt_price.d(); proof { l_code_6(tick, g6, g7); }
//@afterif 8
    let ghost g8 = sqrt_price.d(); proof { l_code_7(tick, g7, g8); }
//@afterif 9
    let ghost g9 = sqrt_price.d(); proof { l_code_8(tick, g8, g9); }
//@afterif 10
    let ghost g10 = sqrt_price.d(); proof { l_code_9(tick, g9, g10); }
//@afterif 11
    let ghost g11 = sqrt_price.d(); proof { l_code_10(tick, g10, g11); }
//@afterif 12
    let ghost g12 = sqrt_price.d(); proof { l_code_11(tick, g11, g12); }
//@afterif 13
    let ghost g13 = sqrt_price.d(); proof { l_code_12(tick, g12, g13); }
//@afterif 14
    let ghost g14 = sqrt_price.d(); proof { l_code_13(tick, g13, g14); }
//@afterif 15
    let ghost g15 = sqrt_price.d(); proof { l_code_14(tick, g14, g15); }
//@afterif 16
    let ghost g16 = sqrt_price.d(); proof { l_code_15(tick, g15, g16); }
//@afterif 17
    let ghost g17 = sqrt_price.d(); proof { l_code_16(tick, g16, g17); }
//@afterif 18
    let ghost g18 = sqrt_price.d(); proof { l_code_17(tick, g17, g18); }
    proof { l_code_ends(tick, g18); l_price_dec(tick_index as int); }
//@end
//@fn calc/math/types/sqrt_price.rs SqrtPrice::from_tick -> r
    ensures match r { Ok(p) => tick_ok(i as int) && p.d() == tick_price(i as int), Err(_) => !tick_ok(i as int) }
//@end
/// greatest / least multiple of the spacing inside the range
pub open spec fn max_tick_of(s: int) -> int { MAX_TICK as int / s * s }
pub open spec fn min_tick_of(s: int) -> int { -(MAX_TICK as int / s * s) }
pub proof fn l_aligned(t: int, s: int) requires s > 0, t % s == 0 ensures tick_ok(t) <==> min_tick_of(s) <= t <= max_tick_of(s) {
    let m = MAX_TICK as int / s; l_fdiv(MAX_TICK as int, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, s); let q = t / s; assert(s * q == q * s) by (nonlinear_arith);
    if t <= MAX_TICK { assert(q <= m) by (nonlinear_arith) requires q * s <= 221818, 221818 < m * s + s, s > 0; assert(q * s <= m * s) by (nonlinear_arith) requires q <= m, s > 0; }
    if t >= MIN_TICK { assert(-q <= m) by (nonlinear_arith) requires q * s >= -221818, 221818 < m * s + s, s > 0; assert(q * s >= -(m * s)) by (nonlinear_arith) requires -q <= m, s > 0; }
}
//@fn calc/math/types/sqrt_price.rs get_max_tick -> r divrem
//@if sdk
    ensures tick_spacing != 0, r.is_ok() && r->Ok_0 as int == max_tick_of(tick_spacing as int) && tick_ok(r->Ok_0 as int)
//@else
    ensures tick_spacing != 0 && r as int == max_tick_of(tick_spacing as int) && tick_ok(r as int)
//@fi
//@pre
    proof { if tick_spacing != 0 { l_fdiv(MAX_TICK as int, tick_spacing as int); assert((-(MAX_TICK as int / tick_spacing as int)) * tick_spacing as int == -(MAX_TICK as int / tick_spacing as int * tick_spacing as int)) by (nonlinear_arith); } }
//@end
//@fn calc/math/types/sqrt_price.rs get_min_tick -> r divrem
//@if sdk
    ensures tick_spacing != 0, r.is_ok() && r->Ok_0 as int == min_tick_of(tick_spacing as int) && tick_ok(r->Ok_0 as int)
//@else
    ensures tick_spacing != 0 && r as int == min_tick_of(tick_spacing as int) && tick_ok(r as int)
//@fi
//@pre
    proof { if tick_spacing != 0 { l_fdiv(MAX_TICK as int, tick_spacing as int); assert((-(MAX_TICK as int / tick_spacing as int)) * tick_spacing as int == -(MAX_TICK as int / tick_spacing as int * tick_spacing as int)) by (nonlinear_arith); } }
//@end
//@fn calc/math/types/sqrt_price.rs get_max_sqrt_price -> r
//@if sdk
    ensures tick_spacing != 0, r.is_ok() && r->Ok_0.d() == tick_price(max_tick_of(tick_spacing as int))
//@else
    ensures tick_spacing != 0 && r.d() == tick_price(max_tick_of(tick_spacing as int))
//@fi
//@end
//@fn calc/math/types/sqrt_price.rs get_min_sqrt_price -> r
//@if sdk
    ensures tick_spacing != 0, r.is_ok() && r->Ok_0.d() == tick_price(min_tick_of(tick_spacing as int))
//@else
    ensures tick_spacing != 0 && r.d() == tick_price(min_tick_of(tick_spacing as int))
//@fi
//@end
//@if sdk
//@fn sdk/src/wasm/custom.rs check_tick_to_sqrt_price_relationship -> r
    requires tick_index as int + tick_spacing as int <= i32::MAX
//@else
//@fn calc/math/types/sqrt_price.rs check_tick_to_sqrt_price_relationship -> r
//@fi
    ensures r.is_ok() && r->Ok_0 && tick_ok(tick_index as int) ==> price_belongs(sqrt_price.d(), tick_index as int, tick_spacing as int),
        r.is_ok() && r->Ok_0 && !tick_ok(tick_index as int) ==> tick_index > MAX_TICK && sqrt_price.d() == tick_price(max_tick_of(tick_spacing as int)),
        r.is_ok() && !r->Ok_0 && tick_ok(tick_index as int) ==> !price_belongs(sqrt_price.d(), tick_index as int, tick_spacing as int),
        r.is_err() ==> !tick_ok(tick_index as int)
//@end
/// the price lies in the tick's interval [price(t), price(t + spacing)); the topmost tick has the single price of the range end
pub open spec fn price_belongs(p: int, t: int, s: int) -> bool {
    if t + s > MAX_TICK { p == tick_price(max_tick_of(s)) } else { tick_price(t) <= p < tick_price(t + s) }
}
//@fn calc/math/clamm.rs check_tick -> r divrem
    ensures tick_spacing != 0, r.is_ok() == (tick_ok(tick_index as int) && tick_index as int % tick_spacing as int == 0)
//@pre
    proof { if tick_spacing > 0 { l_trem0(tick_index as int, tick_spacing as int); if tick_index as int % tick_spacing as int == 0 { l_aligned(tick_index as int, tick_spacing as int); } } }
//@end
//@fn calc/math/clamm.rs check_ticks -> r
    ensures r.is_ok() ==> tick_spacing != 0, r.is_ok() == (tick_lower <= tick_upper && tick_ok(tick_lower as int) && tick_ok(tick_upper as int) && tick_lower as int % tick_spacing as int == 0 && tick_upper as int % tick_spacing as int == 0)
//@end

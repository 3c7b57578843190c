/// one factor of the computation, as the code applies it: `cs(x, i, v)` is what the remaining factors i..18 make of v
pub open spec fn cs(x: i32, i: int, v: int) -> int { chain(v, x as int / p2(i), i) }
pub proof fn l_p2_pos(i: int) ensures p2(i) > 0 decreases i { if i > 0 { l_p2_pos(i - 1); } }
pub proof fn l_code_0(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 1i32 != 0 { muldiv(g, 1000049998750, E12) } else { g })
    ensures cs(x, 0, g) == cs(x, 1, h)
{
    let t = x as u32;
    assert((x & 1i32 != 0) == ((t / 1u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(0) == 1) by (compute); assert(p2(1) == 2) by (compute);
    assert(x as int / 1 / 2 == x as int / 2);
}
pub proof fn l_code_1(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 2i32 != 0 { muldiv(g, 1000100000000, E12) } else { g })
    ensures cs(x, 1, g) == cs(x, 2, h)
{
    let t = x as u32;
    assert((x & 2i32 != 0) == ((t / 2u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(1) == 2) by (compute); assert(p2(2) == 4) by (compute);
    assert(x as int / 2 / 2 == x as int / 4);
}
pub proof fn l_code_2(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 4i32 != 0 { muldiv(g, 1000200010000, E12) } else { g })
    ensures cs(x, 2, g) == cs(x, 3, h)
{
    let t = x as u32;
    assert((x & 4i32 != 0) == ((t / 4u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(2) == 4) by (compute); assert(p2(3) == 8) by (compute);
    assert(x as int / 4 / 2 == x as int / 8);
}
pub proof fn l_code_3(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 8i32 != 0 { muldiv(g, 1000400060004, E12) } else { g })
    ensures cs(x, 3, g) == cs(x, 4, h)
{
    let t = x as u32;
    assert((x & 8i32 != 0) == ((t / 8u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(3) == 8) by (compute); assert(p2(4) == 16) by (compute);
    assert(x as int / 8 / 2 == x as int / 16);
}
pub proof fn l_code_4(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 16i32 != 0 { muldiv(g, 1000800280056, E12) } else { g })
    ensures cs(x, 4, g) == cs(x, 5, h)
{
    let t = x as u32;
    assert((x & 16i32 != 0) == ((t / 16u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(4) == 16) by (compute); assert(p2(5) == 32) by (compute);
    assert(x as int / 16 / 2 == x as int / 32);
}
pub proof fn l_code_5(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 32i32 != 0 { muldiv(g, 1001601200560, E12) } else { g })
    ensures cs(x, 5, g) == cs(x, 6, h)
{
    let t = x as u32;
    assert((x & 32i32 != 0) == ((t / 32u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(5) == 32) by (compute); assert(p2(6) == 64) by (compute);
    assert(x as int / 32 / 2 == x as int / 64);
}
pub proof fn l_code_6(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 64i32 != 0 { muldiv(g, 1003204964963, E12) } else { g })
    ensures cs(x, 6, g) == cs(x, 7, h)
{
    let t = x as u32;
    assert((x & 64i32 != 0) == ((t / 64u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(6) == 64) by (compute); assert(p2(7) == 128) by (compute);
    assert(x as int / 64 / 2 == x as int / 128);
}
pub proof fn l_code_7(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 128i32 != 0 { muldiv(g, 1006420201726, E12) } else { g })
    ensures cs(x, 7, g) == cs(x, 8, h)
{
    let t = x as u32;
    assert((x & 128i32 != 0) == ((t / 128u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(7) == 128) by (compute); assert(p2(8) == 256) by (compute);
    assert(x as int / 128 / 2 == x as int / 256);
}
pub proof fn l_code_8(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 256i32 != 0 { muldiv(g, 1012881622442, E12) } else { g })
    ensures cs(x, 8, g) == cs(x, 9, h)
{
    let t = x as u32;
    assert((x & 256i32 != 0) == ((t / 256u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(8) == 256) by (compute); assert(p2(9) == 512) by (compute);
    assert(x as int / 256 / 2 == x as int / 512);
}
pub proof fn l_code_9(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 512i32 != 0 { muldiv(g, 1025929181080, E12) } else { g })
    ensures cs(x, 9, g) == cs(x, 10, h)
{
    let t = x as u32;
    assert((x & 512i32 != 0) == ((t / 512u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(9) == 512) by (compute); assert(p2(10) == 1024) by (compute);
    assert(x as int / 512 / 2 == x as int / 1024);
}
pub proof fn l_code_10(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 1024i32 != 0 { muldiv(g, 1052530684591, E12) } else { g })
    ensures cs(x, 10, g) == cs(x, 11, h)
{
    let t = x as u32;
    assert((x & 1024i32 != 0) == ((t / 1024u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(10) == 1024) by (compute); assert(p2(11) == 2048) by (compute);
    assert(x as int / 1024 / 2 == x as int / 2048);
}
pub proof fn l_code_11(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 2048i32 != 0 { muldiv(g, 1107820842005, E12) } else { g })
    ensures cs(x, 11, g) == cs(x, 12, h)
{
    let t = x as u32;
    assert((x & 2048i32 != 0) == ((t / 2048u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(11) == 2048) by (compute); assert(p2(12) == 4096) by (compute);
    assert(x as int / 2048 / 2 == x as int / 4096);
}
pub proof fn l_code_12(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 4096i32 != 0 { muldiv(g, 1227267017980, E12) } else { g })
    ensures cs(x, 12, g) == cs(x, 13, h)
{
    let t = x as u32;
    assert((x & 4096i32 != 0) == ((t / 4096u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(12) == 4096) by (compute); assert(p2(13) == 8192) by (compute);
    assert(x as int / 4096 / 2 == x as int / 8192);
}
pub proof fn l_code_13(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 8192i32 != 0 { muldiv(g, 1506184333421, E12) } else { g })
    ensures cs(x, 13, g) == cs(x, 14, h)
{
    let t = x as u32;
    assert((x & 8192i32 != 0) == ((t / 8192u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(13) == 8192) by (compute); assert(p2(14) == 16384) by (compute);
    assert(x as int / 8192 / 2 == x as int / 16384);
}
pub proof fn l_code_14(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 16384i32 != 0 { muldiv(g, 2268591246242, E12) } else { g })
    ensures cs(x, 14, g) == cs(x, 15, h)
{
    let t = x as u32;
    assert((x & 16384i32 != 0) == ((t / 16384u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(14) == 16384) by (compute); assert(p2(15) == 32768) by (compute);
    assert(x as int / 16384 / 2 == x as int / 32768);
}
pub proof fn l_code_15(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 32768i32 != 0 { muldiv(g, 5146506242525, E12) } else { g })
    ensures cs(x, 15, g) == cs(x, 16, h)
{
    let t = x as u32;
    assert((x & 32768i32 != 0) == ((t / 32768u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(15) == 32768) by (compute); assert(p2(16) == 65536) by (compute);
    assert(x as int / 32768 / 2 == x as int / 65536);
}
pub proof fn l_code_16(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 65536i32 != 0 { muldiv(g, 26486526504348, E12) } else { g })
    ensures cs(x, 16, g) == cs(x, 17, h)
{
    let t = x as u32;
    assert((x & 65536i32 != 0) == ((t / 65536u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(16) == 65536) by (compute); assert(p2(17) == 131072) by (compute);
    assert(x as int / 65536 / 2 == x as int / 131072);
}
pub proof fn l_code_17(x: i32, g: int, h: int)
    requires 0 <= x <= 262143, h == (if x & 131072i32 != 0 { muldiv(g, 701536086265529, E12) } else { g })
    ensures cs(x, 17, g) == cs(x, 18, h)
{
    let t = x as u32;
    assert((x & 131072i32 != 0) == ((t / 131072u32) % 2 == 1)) by (bit_vector) requires t == x as u32, 0 <= x <= 262143;
    reveal(muldiv); assert(p2(17) == 131072) by (compute); assert(p2(18) == 262144) by (compute);
    assert(x as int / 131072 / 2 == x as int / 262144);
}
pub proof fn l_code_ends(x: i32, v: int) requires 0 <= x <= 262143 ensures cs(x, 0, E12) == tick_fixed(x as int), cs(x, 18, v) == v { assert(p2(0) == 1) by (compute); assert(x as int / 1 == x as int); }
pub proof fn l_ipow_pos(b: int, e: nat) requires b > 0 ensures ipow(b, e) > 0 decreases e { if e > 0 { l_ipow_pos(b, (e - 1) as nat); assert(b * ipow(b, (e - 1) as nat) > 0) by (nonlinear_arith) requires b > 0, ipow(b, (e - 1) as nat) > 0; } }
/// the conversions at the end of the computation
pub proof fn l_price_dec(t: int)
    requires tick_ok(t)
    ensures t >= 0 ==> tick_price(t) == rescale(tick_fixed(t), 12, 24), t < 0 ==> tick_price(t) == rescale(E12 * E12 / tick_fixed(-t), 12, 24), 0 < tick_price(t) <= u128::MAX,
        p10(12) == E12, E12 * E12 == E24, forall|n: int| #[trigger] p10(n) != 0, t < 0 ==> tick_fixed(-t) >= E12, t >= 0 ==> tick_fixed(t) >= E12
{
    l_price_range(t); lemma_p10_12(); assert(E12 * E12 == E24) by (compute);
    if t >= 0 { l_fixed_range(t); } else { l_fixed_range(-t); }
    assert forall|n: int| #[trigger] p10(n) != 0 by { l_ipow_pos(10, n as nat); }
}

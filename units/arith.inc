// ---- division lemmas
pub open spec fn cdiv(a: int, b: int) -> int { (a + (b - 1)) / b }
pub proof fn l_fdiv(a: int, b: int) requires b > 0 ensures (a / b) * b <= a < (a / b) * b + b, a >= 0 ==> a / b >= 0 {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, b);
    assert((a / b) * b == b * (a / b)) by (nonlinear_arith);
    if a >= 0 { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b); }
}
pub proof fn l_cdiv(a: int, b: int) requires b > 0 ensures cdiv(a, b) * b >= a, cdiv(a, b) * b < a + b, a >= 0 ==> cdiv(a, b) >= 0, a > 0 ==> cdiv(a, b) > 0, cdiv(a, b) == (a + b - 1) / b {
    l_fdiv(a + (b - 1), b);
    assert(a + (b - 1) == a + b - 1);
    if a > 0 { assert(cdiv(a, b) > 0) by (nonlinear_arith) requires cdiv(a, b) * b >= a, a > 0, b > 0; }
}
/// q is the floor of a/b
pub proof fn l_fdiv_unique(a: int, b: int, q: int) requires b > 0, q * b <= a < q * b + b ensures a / b == q {
    l_fdiv(a, b);
    let p = a / b;
    assert(p == q) by (nonlinear_arith) requires b > 0, q * b <= a < q * b + b, p * b <= a < p * b + b;
}
pub proof fn l_mul_mono(a: int, b: int, c: int) requires a <= b, c >= 0 ensures a * c <= b * c { assert(a * c <= b * c) by (nonlinear_arith) requires a <= b, c >= 0; }
pub proof fn l_fdiv_mono(a: int, b: int, d: int) requires a <= b, d > 0 ensures a / d <= b / d { vstd::arithmetic::div_mod::lemma_div_is_ordered(a, b, d); }
/// x >= floor(a/b) whenever x*b >= a - something: if x*b > a - b then x >= a/b
pub proof fn l_le_fdiv(x: int, a: int, b: int) requires b > 0, x * b <= a ensures x <= a / b {
    l_fdiv(a, b); let p = a / b;
    assert(x <= p) by (nonlinear_arith) requires b > 0, x * b <= a, a < p * b + b;
}
pub proof fn l_cdiv_le(x: int, a: int, b: int) requires b > 0, x * b >= a ensures x >= cdiv(a, b) {
    l_cdiv(a, b); let p = cdiv(a, b);
    assert(x >= p) by (nonlinear_arith) requires b > 0, x * b >= a, p * b < a + b;
}

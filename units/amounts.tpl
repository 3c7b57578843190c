//@include base.inc
//@include uint.inc
//@include ranges.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include divrem.inc
//@include clamm_spec.inc
//@include clamm_fns.inc assume
//@const calc/math/consts.rs MAX_SQRT_PRICE
//@const calc/math/consts.rs MIN_SQRT_PRICE
//@include ticks_spec.inc
//@include ticks_fns.inc assume
//@include amounts_fns.inc
}
fn main() {}

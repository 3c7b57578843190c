//@include base.inc
//@include uint.inc
//@include ranges.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include divrem.inc
pub spec const E12: int = 1000000000000;
pub spec const E24: int = 1000000000000000000000000;
//@include ticks_const.inc
//@include ticks_spec.inc
//@include ticks_fns.inc assume
//@include logt_spec.inc
//@include logt_fns.inc
}
fn main() {}

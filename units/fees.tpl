//@include base.inc
//@include uint.inc
//@include ranges.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
pub spec const E28: int = 10000000000000000000000000000;
//@include fees_spec.inc
//@include fees_fns.inc
//@include seconds_fns.inc
}
fn main() {}

//@include base.inc
//@include uint.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include store_types.inc
//@include maps.inc
pub spec const E12: int = 1000000000000;
//@include actor_ord.inc
//@include eq_derive.inc
//@include coll_fns.inc
}
fn main() {}

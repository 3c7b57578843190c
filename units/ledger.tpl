//@opaque chain tick_fixed tick_price
//@include base.inc
//@include uint.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include divrem.inc
pub spec const E12: int = 1000000000000;
pub spec const E24: int = 1000000000000000000000000;
//@include ticks_const.inc
//@include ticks_spec.inc assume
//@include ticks_fns.inc assume
//@include store_types.inc
//@include maps.inc
//@include actor_ord.inc
//@include eq_derive.inc
//@include tickmap_fns.inc assume
//@include coll_fns.inc assume
//@include inv_types.inc
//@include ledger_fns.inc
}
fn main() {}

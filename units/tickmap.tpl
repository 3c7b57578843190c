//@opaque chain tick_fixed tick_price
//@include base.inc
//@include uint.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include divrem.inc
pub spec const E12: int = 1000000000000;
pub spec const E24: int = 1000000000000000000000000;
//@include ticks_const.inc
//@include ticks_spec.inc assume
//@include ticks_fns.inc assume
//@if sdk
//@enum sdk/src/wasm/storage/errors.rs InvariantError
//@else
//@include store_types.inc
//@fi
//@include maps.inc
//@include tickmap_fns.inc
}
fn main() {}

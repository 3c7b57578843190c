//@opaque chain tick_fixed tick_price step_price sel falign step_ok dx dy next_in next_out dx_err dy_err next_in_err next_out_err near far
//@include base.inc
//@include uint.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@include divrem.inc
//@include clamm_spec.inc assume
//@include clamm_fns.inc assume
//@const calc/math/consts.rs MAX_SQRT_PRICE
//@const calc/math/consts.rs MIN_SQRT_PRICE
//@include ticks_spec.inc assume
//@include ticks_fns.inc assume
//@include amounts_fns.inc assume
//@include logt_spec.inc assume
//@include logt_fns.inc assume
//@enum sdk/src/wasm/storage/errors.rs InvariantError
//@include maps.inc
//@include tickmap_fns.inc assume
//@include boundary.inc assume
//@include sim_types.inc
//@include sim_spec.inc
//@include sim_fns.inc
}
fn main() {}

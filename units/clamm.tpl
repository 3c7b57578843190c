//@include base.inc
//@include uint.inc
//@include ranges.inc
//@include dec_all.inc
//@include pow10.inc
//@include arith.inc
//@if sdk
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
//@const calc/math/consts.rs MAX_SQRT_PRICE
//@const calc/math/consts.rs MIN_SQRT_PRICE
//@fi
//@include clamm_spec.inc
//@include clamm_fns.inc
}
fn main() {}

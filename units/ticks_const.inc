//@const calc/math/consts.rs MAX_TICK
//@const calc/math/consts.rs MIN_TICK
//@const calc/math/consts.rs MAX_SQRT_PRICE
//@const calc/math/consts.rs MIN_SQRT_PRICE

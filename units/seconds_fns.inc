pub open spec fn seconds_growth(l: int, dt: int) -> int { dt * E25 * 100000 / l }
pub spec const E25: int = 10000000000000000000000000;
//@fn calc/math/types/seconds_per_liquidity.rs SecondsPerLiquidity::unchecked_add -> r
    ensures r.d() == wadd(self.d(), other.d())
//@end
//@fn calc/math/types/seconds_per_liquidity.rs SecondsPerLiquidity::unchecked_sub -> r
    ensures r.d() == wsub(self.d(), other.d())
//@end
//@fn calc/math/types/seconds_per_liquidity.rs SecondsPerLiquidity::calculate_seconds_per_liquidity_global -> r
    ensures match r { Ok(g) => liquidity.d() != 0 && current_timestamp > last_timestamp && g.d() == seconds_growth(liquidity.d(), current_timestamp - last_timestamp),
        Err(_) => true }, r.is_err() <==> current_timestamp <= last_timestamp || liquidity.d() == 0 || (current_timestamp - last_timestamp) * E25 * 100000 > u128::MAX
//@end
//@fn calc/math/types/seconds_per_liquidity.rs calculate_seconds_per_liquidity_inside -> r
    ensures r.is_ok(), r->Ok_0.d() == growth_inside(tick_lower as int, tick_lower_seconds_per_liquidity_outside.d(), tick_upper as int, tick_upper_seconds_per_liquidity_outside.d(), tick_current as int, pool_seconds_per_liquidity_global.d())
//@pre
    hide(wadd); hide(wsub); proof { l_wrap_algebra(); }
//@end

//@fn calc/math/types/fee_growth.rs FeeGrowth::unchecked_add -> r
    ensures r.d() == wadd(self.d(), other.d())
//@end
//@fn calc/math/types/fee_growth.rs FeeGrowth::unchecked_sub -> r
    ensures r.d() == wsub(self.d(), other.d())
//@end
//@fn calc/math/types/fee_growth.rs FeeGrowth::from_fee -> r
    ensures match r { Ok(g) => liquidity.d() != 0 && g.d() == fee_growth(liquidity.d(), fee.d()), Err(_) => true }, r.is_err() <==> liquidity.d() == 0 || fee.d() * E28 * 100000 > U384::umax() || fee_growth(liquidity.d(), fee.d()) > u128::MAX
//@end
//@fn calc/math/types/fee_growth.rs FeeGrowth::to_fee -> r
    ensures match r { Ok(t) => t.d() == fee_share(self.d(), liquidity.d()), Err(_) => true }, r.is_err() <==> self.d() * liquidity.d() > U384::umax() || fee_share(self.d(), liquidity.d()) > U256::umax()
//@end
//@fn calc/math/types/fee_growth.rs calculate_fee_growth_inside -> r
    ensures r.0.d() == growth_inside(tick_lower as int, tick_lower_fee_growth_outside_x.d(), tick_upper as int, tick_upper_fee_growth_outside_x.d(), tick_current as int, fee_growth_global_x.d()),
        r.1.d() == growth_inside(tick_lower as int, tick_lower_fee_growth_outside_y.d(), tick_upper as int, tick_upper_fee_growth_outside_y.d(), tick_current as int, fee_growth_global_y.d())
//@pre
    hide(wadd); hide(wsub); proof { l_wrap_algebra(); }
//@end
//@if sdk
/// what the client tells a position's owner it can collect: the contract's own computation (Position::update) over the same numbers
pub open spec fn owed_is(r: TokenAmount, tl: int, ol: int, tu: int, ou: int, cur: int, g: int, inside: int, l: int) -> bool { r.d() == fee_share(wsub(growth_inside(tl, ol, tu, ou, cur, g), inside), l) }
pub open spec fn owed_err(tl: int, ol: int, tu: int, ou: int, cur: int, g: int, inside: int, l: int) -> bool { let s = wsub(growth_inside(tl, ol, tu, ou, cur, g), inside); s * l > U384::umax() || fee_share(s, l) > U256::umax() }
//@fn sdk/src/wasm/custom.rs calculate_fee -> r
    ensures r.is_ok() ==> owed_is(r->Ok_0.0, lower_tick_index as int, lower_tick_fee_growth_outside_x.d(), upper_tick_index as int, upper_tick_fee_growth_outside_x.d(), pool_current_tick_index as int, pool_fee_growth_global_x.d(), position_fee_growth_inside_x.d(), position_liquidity.d())
            && owed_is(r->Ok_0.1, lower_tick_index as int, lower_tick_fee_growth_outside_y.d(), upper_tick_index as int, upper_tick_fee_growth_outside_y.d(), pool_current_tick_index as int, pool_fee_growth_global_y.d(), position_fee_growth_inside_y.d(), position_liquidity.d()),
        r.is_err() <==> owed_err(lower_tick_index as int, lower_tick_fee_growth_outside_x.d(), upper_tick_index as int, upper_tick_fee_growth_outside_x.d(), pool_current_tick_index as int, pool_fee_growth_global_x.d(), position_fee_growth_inside_x.d(), position_liquidity.d())
            || owed_err(lower_tick_index as int, lower_tick_fee_growth_outside_y.d(), upper_tick_index as int, upper_tick_fee_growth_outside_y.d(), pool_current_tick_index as int, pool_fee_growth_global_y.d(), position_fee_growth_inside_y.d(), position_liquidity.d())
//@pre
    hide(wadd); hide(wsub); hide(growth_inside); hide(fee_share);
//@end
//@fi

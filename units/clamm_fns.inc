//@const calc/math/consts.rs MAX_TICK
//@const calc/math/consts.rs MIN_TICK
//@struct calc/math/clamm.rs SwapResult
//@fn calc/math/types/sqrt_price.rs SqrtPrice::big_div_values_to_token -> r
    ensures match r { Ok(t) => denominator.uv() != 0 && t.d() == nominator.uv() * E24 / denominator.uv() / E24, Err(_) => true },
        r.is_err() <==> denominator.uv() == 0 || nominator.uv() * E24 > U448::umax() || nominator.uv() * E24 / denominator.uv() > U384::umax() || nominator.uv() * E24 / denominator.uv() / E24 > U256::umax()
//@end
//@fn calc/math/types/sqrt_price.rs SqrtPrice::big_div_values_to_token_up -> r
    ensures match r { Ok(t) => denominator.uv() != 0 && t.d() == cdiv(cdiv(nominator.uv() * E24, denominator.uv()), E24), Err(_) => true },
        r.is_err() <==> nominator.uv() * E24 > U448::umax() || nominator.uv() * E24 + (denominator.uv() - 1) > U448::umax() || cdiv(nominator.uv() * E24, denominator.uv()) + (E24 - 1) > U384::umax() || cdiv(cdiv(nominator.uv() * E24, denominator.uv()), E24) > U256::umax()
//@end
//@fn calc/math/types/sqrt_price.rs SqrtPrice::big_div_values_up -> r
    ensures denominator.uv() != 0, r.d() == cdiv(nominator.uv() * E24, denominator.uv())
//@end
//@fn calc/math/types/sqrt_price.rs SqrtPrice::checked_big_div_values -> r
    ensures match r { Ok(p) => denominator.uv() != 0 && p.d() == nominator.uv() * E24 / denominator.uv(), Err(_) => true }, r.is_err() <==> denominator.uv() == 0 || nominator.uv() * E24 > U448::umax() || nominator.uv() * E24 / denominator.uv() > u128::MAX
//@end
//@fn calc/math/types/sqrt_price.rs SqrtPrice::checked_big_div_values_up -> r
    ensures match r { Ok(p) => denominator.uv() != 0 && p.d() == cdiv(nominator.uv() * E24, denominator.uv()), Err(_) => true }, r.is_err() <==> denominator.uv() == 0 || nominator.uv() * E24 + (denominator.uv() - 1) > U448::umax() || cdiv(nominator.uv() * E24, denominator.uv()) > u128::MAX
//@end
//@fn calc/math/clamm.rs get_delta_x -> r
    ensures match r { Ok(t) => t.d() == dx(sqrt_price_a.d(), sqrt_price_b.d(), liquidity.d(), rounding_up) && (rounding_up ==> sqrt_price_a.d() * sqrt_price_b.d() / E24 != 0) && sqrt_price_a.d() * sqrt_price_b.d() != 0, Err(_) => true }, r.is_err() <==> dx_err(sqrt_price_a.d(), sqrt_price_b.d(), liquidity.d(), rounding_up)
//@pre
    proof {
        let (a, b) = (sqrt_price_a.d(), sqrt_price_b.d());
        assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
        l_fdiv(a * b, E24); if a * b == 0 { assert(cdiv(0, E24) == 0) by (compute); } assert(cdiv(a * b, E24) == (a * b + (E24 - 1)) / E24);
        assert(cdiv(adiff(a, b) * liquidity.d(), E5) == (adiff(a, b) * liquidity.d() + (E5 - 1)) / E5);
    }
//@end
//@fn calc/math/clamm.rs get_delta_y -> r
    ensures match r { Ok(t) => t.d() == dy(sqrt_price_a.d(), sqrt_price_b.d(), liquidity.d(), rounding_up), Err(_) => true }, r.is_err() <==> dy_err(sqrt_price_a.d(), sqrt_price_b.d(), liquidity.d(), rounding_up)
//@end
//@fn calc/math/clamm.rs get_next_sqrt_price_x_up -> r
//@if sdk
    ensures x.d() == 0 || !next_x_err(starting_sqrt_price.d(), liquidity.d(), x.d(), add_x) ==> r.is_ok() && r->Ok_0.d() == next_x(starting_sqrt_price.d(), liquidity.d(), x.d(), add_x)
//@else
    ensures match r { Ok(p) => p.d() == next_x(starting_sqrt_price.d(), liquidity.d(), x.d(), add_x)
            && (x.d() != 0 ==> liquidity.d() * E19 + starting_sqrt_price.d() * x.d() > 0 && (!add_x ==> liquidity.d() * E19 - starting_sqrt_price.d() * x.d() > 0)),
        Err(_) => true }, r.is_err() <==> x.d() != 0 && next_x_err(starting_sqrt_price.d(), liquidity.d(), x.d(), add_x)
//@fi
//@pre
    proof { lemma_p10_19(); let m = starting_sqrt_price.d() * x.d(); assert(m * 1 == m && m / 1 == m);
        assert(starting_sqrt_price.d() * x.d() >= 0) by (nonlinear_arith) requires starting_sqrt_price.d() >= 0, x.d() >= 0; }
//@end
//@fn calc/math/clamm.rs get_next_sqrt_price_y_down -> r
//@if sdk
    ensures !next_y_err(starting_sqrt_price.d(), liquidity.d(), y.d(), add_y) ==> r.is_ok() && r->Ok_0.d() == next_y(starting_sqrt_price.d(), liquidity.d(), y.d(), add_y)
//@else
    ensures match r { Ok(p) => p.d() == next_y(starting_sqrt_price.d(), liquidity.d(), y.d(), add_y) && liquidity.d() != 0,
        Err(_) => true }, r.is_err() <==> next_y_err(starting_sqrt_price.d(), liquidity.d(), y.d(), add_y)
//@fi
//@pre
    proof { lemma_p10_19(); lemma_p10_24(); }
//@end
//@fn calc/math/clamm.rs get_next_sqrt_price_from_input -> r
//@if sdk
    ensures !next_in_err(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y) ==> r.is_ok() && r->Ok_0.d() == next_in(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y)
//@else
    ensures match r { Ok(p) => p.d() == next_in(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y)
            && (x_to_y && amount.d() != 0 ==> liquidity.d() * E19 + starting_sqrt_price.d() * amount.d() > 0) && (!x_to_y ==> liquidity.d() != 0),
        Err(_) => true }, r.is_err() <==> next_in_err(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y)
//@fi
//@end
//@fn calc/math/clamm.rs get_next_sqrt_price_from_output -> r
//@if sdk
    ensures !next_out_err(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y) ==> r.is_ok() && r->Ok_0.d() == next_out(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y)
//@else
    ensures match r { Ok(p) => p.d() == next_out(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y)
            && (!x_to_y && amount.d() != 0 ==> liquidity.d() * E19 - starting_sqrt_price.d() * amount.d() > 0) && (x_to_y ==> liquidity.d() != 0),
        Err(_) => true }, r.is_err() <==> next_out_err(starting_sqrt_price.d(), liquidity.d(), amount.d(), x_to_y)
//@fi
//@end
//@fn calc/math/clamm.rs compute_swap_step -> r rlimit=40
//@if sdk
    ensures liquidity.d() != 0 && by_amount_in ==> fee.d() <= E12,
        // wherever the contract's step gives an answer (it never does when step_stop holds: step_stop ==> step_err) the answer is the same
        !step_stop(current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), by_amount_in, fee.d()) ==> (r.is_err() <==> step_err(current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), by_amount_in, fee.d())) && (r.is_ok() ==> step_is(current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), by_amount_in, fee.d(),
            r->Ok_0.next_sqrt_price.d(), r->Ok_0.amount_in.d(), r->Ok_0.amount_out.d(), r->Ok_0.fee_amount.d()))
//@else
    ensures r.is_ok() && current_sqrt_price.d() >= E12 && target_sqrt_price.d() >= E12 ==> step_ok(current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), by_amount_in, fee.d(),
            r->Ok_0.next_sqrt_price.d(), r->Ok_0.amount_in.d(), r->Ok_0.amount_out.d(), r->Ok_0.fee_amount.d()),
        r.is_ok() ==> step_is(current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), by_amount_in, fee.d(),
            r->Ok_0.next_sqrt_price.d(), r->Ok_0.amount_in.d(), r->Ok_0.amount_out.d(), r->Ok_0.fee_amount.d()),
        liquidity.d() != 0 && by_amount_in ==> fee.d() <= E12,
        r.is_err() <==> step_err(current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), by_amount_in, fee.d())
//@fi
//@pre
    hide(dx); hide(dy); hide(next_in); hide(next_out); hide(covers); hide(within); hide(step_ok); hide(dx_err); hide(dy_err); hide(next_in_err); hide(next_out_err);
    proof {
        let (p, t, l, a, f) = (current_sqrt_price.d(), target_sqrt_price.d(), liquidity.d(), amount.d(), fee.d());
        if p >= E12 && t >= E12 && step_fee(p, t, l, a, by_amount_in, f) >= 0 && (l == 0 || !by_amount_in || f <= E12) && !step_err(p, t, l, a, by_amount_in, f) { l_step_fn(p, t, l, a, by_amount_in, f); }
    }
//@end

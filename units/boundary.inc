/// evaluated by check C07 on the real function for every tick (see DESIGN.md); not proved by the verifier
#[verifier::external_body] pub proof fn ax_boundary() ensures forall|u: int| #[trigger] tick_ok(u) ==> boundary(u) {}
/// the tick reported for a price is the usable tick right below it
pub proof fn l_tick_at_price(p: int, s: int) requires in_range(p), 1 <= s <= 100
    ensures ({ let t = falign(sel(p), s); t % s == 0 && (t >= MIN_TICK ==> tick_ok(t) && tick_price(t) <= p) && (tick_ok(t + s) ==> p < tick_price(t + s)) && (forall|m: int| #![trigger tick_price(m)] tick_ok(m) && m % s == 0 && tick_price(m) <= p ==> m <= t) && (forall|m: int| #![trigger tick_price(m)] tick_ok(m) && m % s == 0 && tick_price(m) > p ==> m > t) })
{
    reveal(falign); ax_boundary(); l_price_ends(); let r = l_has_tick(p, MIN_TICK as int); l_tick_of_price(p, r); let t = falign(r, s); vstd::arithmetic::div_mod::lemma_mod_bound(r, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, s); let q = r / s;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, s); assert(t == q * s) by (nonlinear_arith) requires r == s * q + r % s, t == r - r % s;
    if t >= MIN_TICK && t < r { l_price_mono(t, r); }
    if tick_ok(t + s) && r + 1 < t + s { l_price_mono(r + 1, t + s); }
    assert forall|m: int| #![trigger tick_price(m)] tick_ok(m) && m % s == 0 && tick_price(m) <= p implies m <= t by { if m > r && r + 1 < m { l_price_mono(r + 1, m); } assert(m <= r); l_spaced(r, s, m); }
    assert forall|m: int| #![trigger tick_price(m)] tick_ok(m) && m % s == 0 && tick_price(m) > p implies m > t by { if m <= t { l_price_mono(m, r); } }
}

// ---- the meaning of the counters: sums over all open positions of a pool
pub struct Open { pub lo: int, pub up: int, pub l: int }
pub open spec fn active(s: Seq<Open>, c: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { active(s.drop_last(), c) + (if s.last().lo <= c < s.last().up { s.last().l } else { 0 }) } }
pub open spec fn gross(s: Seq<Open>, t: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { gross(s.drop_last(), t) + (if s.last().lo == t { s.last().l } else { 0 }) + (if s.last().up == t { s.last().l } else { 0 }) } }
pub open spec fn nets(s: Seq<Open>, t: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { nets(s.drop_last(), t) + (if s.last().lo == t { s.last().l } else { 0 }) - (if s.last().up == t { s.last().l } else { 0 }) } }
/// the pool and one of its ticks agree with the open positions
pub open spec fn tick_agrees(s: Seq<Open>, t: Tick) -> bool { t.liquidity_gross.d() == gross(s, t.index as int) && net(t) == nets(s, t.index as int) }
pub open spec fn pool_agrees(s: Seq<Open>, p: Pool) -> bool { p.liquidity.d() == active(s, p.current_tick_index as int) }
/// opening keeps the agreement, for the two end ticks, for every other tick and for the pool
pub proof fn l_open(s: Seq<Open>, p: Pool, q: Pool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, l: int, now: u64, sp: int, x: int, y: int)
    requires moved(p, q, lo, lo2, up, up2, l, true, now, sp, x, y), pool_agrees(s, p), tick_agrees(s, lo), tick_agrees(s, up), lo.index < up.index
    ensures ({ let s2 = s.push(Open { lo: lo.index as int, up: up.index as int, l });
        pool_agrees(s2, q) && tick_agrees(s2, lo2) && tick_agrees(s2, up2) && forall|t: Tick| t.index != lo.index && t.index != up.index && tick_agrees(s, t) ==> tick_agrees(s2, t) })
{ let s2 = s.push(Open { lo: lo.index as int, up: up.index as int, l }); assert(s2.drop_last() == s); assert(s2.last() == Open { lo: lo.index as int, up: up.index as int, l }); }
pub proof fn l_take(s: Seq<Open>, k: int, c: int)
    requires 0 <= k < s.len()
    ensures active(s.remove(k), c) == active(s, c) - (if s[k].lo <= c < s[k].up { s[k].l } else { 0 }),
        gross(s.remove(k), c) == gross(s, c) - (if s[k].lo == c { s[k].l } else { 0 }) - (if s[k].up == c { s[k].l } else { 0 }),
        nets(s.remove(k), c) == nets(s, c) - (if s[k].lo == c { s[k].l } else { 0 }) + (if s[k].up == c { s[k].l } else { 0 })
    decreases s.len()
{
    let r = s.remove(k);
    if k == s.len() - 1 { assert(r == s.drop_last()); }
    else { l_take(s.drop_last(), k, c); assert(r.drop_last() == s.drop_last().remove(k)); assert(r.last() == s.last()); }
}
/// closing keeps the agreement
pub proof fn l_close(s: Seq<Open>, k: int, p: Pool, q: Pool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, now: u64, sp: int, x: int, y: int)
    requires 0 <= k < s.len(), s[k].lo == lo.index, s[k].up == up.index, moved(p, q, lo, lo2, up, up2, s[k].l, false, now, sp, x, y), pool_agrees(s, p), tick_agrees(s, lo), tick_agrees(s, up), lo.index < up.index
    ensures pool_agrees(s.remove(k), q) && tick_agrees(s.remove(k), lo2) && tick_agrees(s.remove(k), up2) && forall|t: Tick| t.index != lo.index && t.index != up.index && tick_agrees(s, t) ==> tick_agrees(s.remove(k), t)
{
    l_take(s, k, p.current_tick_index as int); l_take(s, k, lo.index as int); l_take(s, k, up.index as int);
    assert forall|t: Tick| t.index != lo.index && t.index != up.index && tick_agrees(s, t) implies tick_agrees(s.remove(k), t) by { l_take(s, k, t.index as int); }
}
/// no end of a position lies strictly between a and b (exclusive, inclusive)
pub open spec fn no_end(s: Seq<Open>, a: int, b: int, but: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).lo < s[i].up && !(a < s[i].lo <= b && s[i].lo != but) && !(a < s[i].up <= b && s[i].up != but) }
pub proof fn l_active_step(s: Seq<Open>, a: int, b: int, t: int) requires no_end(s, a, b, t), a < t <= b ensures active(s, b) == active(s, a) + nets(s, t) decreases s.len() {
    if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]) == s[i] by {} l_active_step(s.drop_last(), a, b, t); }
}
/// crossing a tick, upwards or downwards, keeps the agreement: the active liquidity is that of the positions around the new tick
pub proof fn l_cross(s: Seq<Open>, p: Pool, q: Pool, t: Tick, now: u64, to: int)
    requires pool_agrees(s, p), tick_agrees(s, t), pool_after_cross(p, q, t, now),
        if p.current_tick_index >= t.index { to < t.index && no_end(s, to, p.current_tick_index as int, t.index as int) } else { to >= t.index && no_end(s, p.current_tick_index as int, to, t.index as int) }
    ensures q.liquidity.d() == active(s, to)
{ if p.current_tick_index >= t.index { l_active_step(s, to, p.current_tick_index as int, t.index as int); } else { l_active_step(s, p.current_tick_index as int, to, t.index as int); } }
/// gross liquidity is never below the magnitude of the net, so an empty tick (gross zero) crosses nothing
pub proof fn l_gross_net(s: Seq<Open>, t: int) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).l >= 0 ensures -gross(s, t) <= nets(s, t) <= gross(s, t) decreases s.len() {
    if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]) == s[i] by {} l_gross_net(s.drop_last(), t); }
}

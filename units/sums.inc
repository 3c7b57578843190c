// ---- sums over all open positions
pub type PM = Map<(ActorId, u32), Position>;
pub open spec fn msum(m: PM, f: spec_fn(Position) -> int) -> int decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let x = m.dom().choose(); if m.dom().contains(x) { f(m[x]) + msum(m.remove(x), f) } else { 0 } }
}
pub proof fn l_msum_take(m: PM, f: spec_fn(Position) -> int, x: (ActorId, u32)) requires m.dom().contains(x) ensures msum(m, f) == f(m[x]) + msum(m.remove(x), f) decreases m.dom().len() {
    let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m.dom().len() > 0);
    assert(m.remove(c).dom() =~= m.dom().remove(c)); assert(m.remove(x).dom() =~= m.dom().remove(x));
    if c != x {
        l_msum_take(m.remove(c), f, x); l_msum_take(m.remove(x), f, c); assert(m.remove(c).remove(x) =~= m.remove(x).remove(c));
    }
}
pub proof fn l_msum_new(m: PM, f: spec_fn(Position) -> int, x: (ActorId, u32), v: Position) requires !m.dom().contains(x) ensures msum(m.insert(x, v), f) == msum(m, f) + f(v) {
    l_msum_take(m.insert(x, v), f, x); assert(m.insert(x, v).remove(x) =~= m);
}
pub proof fn l_msum_set(m: PM, f: spec_fn(Position) -> int, x: (ActorId, u32), v: Position) requires m.dom().contains(x) ensures msum(m.insert(x, v), f) == msum(m, f) - f(m[x]) + f(v) {
    l_msum_take(m, f, x); l_msum_new(m.remove(x), f, x, v); assert(m.remove(x).insert(x, v) =~= m.insert(x, v));
}
pub open spec fn all_from(m: PM, f: spec_fn(Position) -> int, v: int) -> bool { forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) ==> f(m[x]) >= v }
pub proof fn l_msum_ge(m: PM, f: spec_fn(Position) -> int) requires all_from(m, f, 0) ensures msum(m, f) >= 0 decreases m.dom().len() {
    if m.dom().len() > 0 { let c = m.dom().choose(); if m.dom().contains(c) { assert(m.remove(c).dom() =~= m.dom().remove(c)); assert(all_from(m.remove(c), f, 0)); l_msum_ge(m.remove(c), f); } }
}
pub proof fn l_msum_one(m: PM, f: spec_fn(Position) -> int, x: (ActorId, u32)) requires all_from(m, f, 0), m.dom().contains(x) ensures msum(m, f) >= f(m[x]) { l_msum_take(m, f, x); assert(all_from(m.remove(x), f, 0)); l_msum_ge(m.remove(x), f); }
pub proof fn l_msum_zero(m: PM, f: spec_fn(Position) -> int) requires forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) ==> f(m[x]) == 0 ensures msum(m, f) == 0 decreases m.dom().len() {
    if m.dom().len() > 0 { let c = m.dom().choose(); if m.dom().contains(c) { assert(m.remove(c).dom() =~= m.dom().remove(c)); l_msum_zero(m.remove(c), f); } }
}
/// what a position adds to: the gross and net liquidity of a tick, the active liquidity of a pool
pub open spec fn gf(k: PoolKey, i: i32) -> spec_fn(Position) -> int { |z: Position| if z.pool_key == k { (if z.lower_tick_index == i { z.liquidity.d() } else { 0 }) + (if z.upper_tick_index == i { z.liquidity.d() } else { 0 }) } else { 0 } }
pub open spec fn nf(k: PoolKey, i: i32) -> spec_fn(Position) -> int { |z: Position| if z.pool_key == k { (if z.lower_tick_index == i { z.liquidity.d() } else { 0 }) - (if z.upper_tick_index == i { z.liquidity.d() } else { 0 }) } else { 0 } }
pub open spec fn af(k: PoolKey, c: int) -> spec_fn(Position) -> int { |z: Position| if z.pool_key == k && z.lower_tick_index <= c < z.upper_tick_index { z.liquidity.d() } else { 0 } }
/// a tick's counters are the sums over the positions that end at it, and a pool's liquidity the sum over those around its price
pub open spec fn sums(m: PM, t: Ticks, p: Pools) -> bool {
    &&& forall|k: PoolKey, i: i32| #[trigger] thas(t, k, i) ==> t.ticks.m()[(k, i)].liquidity_gross.d() == msum(m, gf(k, i)) && net(t.ticks.m()[(k, i)]) == msum(m, nf(k, i))
    &&& forall|k: PoolKey| #[trigger] phas(p, k) ==> p.pools.m()[k].liquidity.d() == msum(m, af(k, p.pools.m()[k].current_tick_index as int))
    &&& forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) ==> pos_ok(t, p, m[x])
}
/// a position runs from a stored tick to a higher one, in a known pool
pub open spec fn pos_ok(t: Ticks, p: Pools, z: Position) -> bool { phas(p, z.pool_key) && z.lower_tick_index < z.upper_tick_index && z.liquidity.d() > 0 && thas(t, z.pool_key, z.lower_tick_index) && thas(t, z.pool_key, z.upper_tick_index) }
pub proof fn l_no_ends(m: PM, t: Ticks, p: Pools, k: PoolKey, i: i32) requires sums(m, t, p), !thas(t, k, i) ensures msum(m, gf(k, i)) == 0, msum(m, nf(k, i)) == 0 { reveal(sums);
    assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies gf(k, i)(m[x]) == 0 && nf(k, i)(m[x]) == 0 by { assert(pos_ok(t, p, m[x])); }
    l_msum_zero(m, gf(k, i)); l_msum_zero(m, nf(k, i));
}
pub proof fn l_gross_from(m: PM, t: Ticks, p: Pools, k: PoolKey, i: i32) requires sums(m, t, p) ensures all_from(m, gf(k, i), 0) { reveal(sums); assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies gf(k, i)(m[x]) >= 0 by { assert(pos_ok(t, p, m[x])); } }
// ---- the lists of positions as one map
impl Positions {
    pub open spec fn pm(&self) -> PM { self.positions.m() }
    pub proof fn l_at(&self, a: ActorId, i: u32) requires self.wf() ensures self.pm().dom().contains((a, i)) <==> i < self.list(a).len(), self.list(a).len() == self.len(a), i < self.list(a).len() ==> self.list(a)[i as int] == self.pm()[(a, i)] {}
}
pub open spec fn at_eq(a: PM, b: PM, v: ActorId, i: u32) -> bool { a.dom().contains((v, i)) == b.dom().contains((v, i)) && (a.dom().contains((v, i)) ==> a[(v, i)] == b[(v, i)]) }
pub proof fn l_pm_eq(a: PM, b: PM) requires forall|v: ActorId, i: u32| #[trigger] at_eq(a, b, v, i) ensures a == b {
    assert forall|x: (ActorId, u32)| #[trigger] a.dom().contains(x) <==> #[trigger] b.dom().contains(x) by { assert(at_eq(a, b, x.0, x.1)); }
    assert(a.dom() =~= b.dom());
    assert forall|x: (ActorId, u32)| #[trigger] a.dom().contains(x) implies #[trigger] a[x] == b[x] by { assert(at_eq(a, b, x.0, x.1)); }
    assert(a =~= b);
}
pub proof fn l_pm_push(a: Positions, b: Positions, u: ActorId, z: Position) requires a.wf(), b.wf(), b.list(u) == a.list(u).push(z), forall|v: ActorId| v != u ==> #[trigger] b.list(v) == a.list(v) ensures !a.pm().dom().contains((u, a.len(u) as u32)), b.pm() == a.pm().insert((u, a.len(u) as u32), z) {
    let n = a.len(u) as u32; a.l_at(u, n); b.l_at(u, n);
    assert forall|v: ActorId, i: u32| #[trigger] at_eq(b.pm(), a.pm().insert((u, n), z), v, i) by { a.l_at(v, i); b.l_at(v, i); if v != u { assert(b.list(v) == a.list(v)); } }
    l_pm_eq(b.pm(), a.pm().insert((u, n), z));
}
pub proof fn l_pm_set(a: Positions, b: Positions, u: ActorId, n: u32, z: Position) requires a.wf(), b.wf(), n < a.len(u), b.list(u) == a.list(u).update(n as int, z), forall|v: ActorId| v != u ==> #[trigger] b.list(v) == a.list(v) ensures a.pm().dom().contains((u, n)), b.pm() == a.pm().insert((u, n), z) {
    a.l_at(u, n); b.l_at(u, n);
    assert forall|v: ActorId, i: u32| #[trigger] at_eq(b.pm(), a.pm().insert((u, n), z), v, i) by { a.l_at(v, i); b.l_at(v, i); if v != u { assert(b.list(v) == a.list(v)); } }
    l_pm_eq(b.pm(), a.pm().insert((u, n), z));
}
/// the map without the n-th of the account's positions: the last one takes its place
pub open spec fn pm_out(m: PM, u: ActorId, n: u32, last: u32) -> PM { if n == last { m.remove((u, last)) } else { m.insert((u, n), m[(u, last)]).remove((u, last)) } }
pub proof fn l_pm_out_sum(m: PM, u: ActorId, n: u32, last: u32, f: spec_fn(Position) -> int) requires m.dom().contains((u, n)), m.dom().contains((u, last)) ensures msum(pm_out(m, u, n, last), f) == msum(m, f) - f(m[(u, n)]) {
    if n == last { l_msum_take(m, f, (u, last)); } else { let m2 = m.insert((u, n), m[(u, last)]); l_msum_set(m, f, (u, n), m[(u, last)]); l_msum_take(m2, f, (u, last)); }
}
pub proof fn l_pm_out(a: Positions, b: Positions, u: ActorId, n: u32) requires a.wf(), b.wf(), n < a.len(u), b.list(u) == swap_out(a.list(u), n as int), forall|v: ActorId| v != u ==> #[trigger] b.list(v) == a.list(v) ensures a.pm().dom().contains((u, n)), a.pm().dom().contains((u, (a.len(u) - 1) as u32)), b.pm() == pm_out(a.pm(), u, n, (a.len(u) - 1) as u32) {
    let last = (a.len(u) - 1) as u32; a.l_at(u, n); a.l_at(u, last); let m = pm_out(a.pm(), u, n, last);
    assert forall|v: ActorId, i: u32| #[trigger] at_eq(b.pm(), m, v, i) by { a.l_at(v, i); b.l_at(v, i); if v != u { assert(b.list(v) == a.list(v)); } }
    l_pm_eq(b.pm(), m);
}
pub proof fn l_pm_move(a: Positions, b: Positions, u: ActorId, n: u32, w: ActorId)
    requires a.wf(), b.wf(), n < a.len(u), ({ let (l, p) = (swap_out(a.list(u), n as int), a.list(u)[n as int]); (forall|v: ActorId| v != u && v != w ==> #[trigger] b.list(v) == a.list(v)) && if u == w { b.list(u) == l.push(p) } else { b.list(u) == l && b.list(w) == a.list(w).push(p) } })
    ensures a.pm().dom().contains((u, n)), a.pm().dom().contains((u, (a.len(u) - 1) as u32)), ({ let m = pm_out(a.pm(), u, n, (a.len(u) - 1) as u32); let x = (w, if u == w { (a.len(u) - 1) as u32 } else { a.len(w) as u32 }); !m.dom().contains(x) && b.pm() == m.insert(x, a.pm()[(u, n)]) })
{
    let last = (a.len(u) - 1) as u32; a.l_at(u, n); a.l_at(u, last); let m = pm_out(a.pm(), u, n, last); let e = if u == w { last } else { a.len(w) as u32 }; b.l_at(w, e); a.l_at(w, e); let m2 = m.insert((w, e), a.pm()[(u, n)]);
    assert forall|v: ActorId, i: u32| #[trigger] at_eq(b.pm(), m2, v, i) by { a.l_at(v, i); b.l_at(v, i); a.l_at(u, i); if v != u && v != w { assert(b.list(v) == a.list(v)); } }
    l_pm_eq(b.pm(), m2);
}
pub proof fn l_sums_pos(m: PM, t: Ticks, p: Pools, x: (ActorId, u32)) requires sums(m, t, p), m.dom().contains(x) ensures pos_ok(t, p, m[x]) { reveal(sums); }
/// a change of a pool that leaves its tick and liquidity alone
pub proof fn l_sums_pool(m: PM, t: Ticks, p: Pools, p2: Pools, k: PoolKey) requires sums(m, t, p), phas(p, k), p2.pools.m() == p.pools.m().insert(k, p2.pools.m()[k]), p2.pools.m()[k].current_tick_index == p.pools.m()[k].current_tick_index, p2.pools.m()[k].liquidity.d() == p.pools.m()[k].liquidity.d() ensures sums(m, t, p2) {
    reveal(sums); assert forall|q: PoolKey| phas(p2, q) == phas(p, q) by {}
    assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies pos_ok(t, p2, m[x]) by { assert(pos_ok(t, p, m[x])); }
}
pub proof fn l_sums_new_pool(m: PM, t: Ticks, p: Pools, p2: Pools, k: PoolKey) requires sums(m, t, p), !phas(p, k), p2.pools.m() == p.pools.m().insert(k, p2.pools.m()[k]), p2.pools.m()[k].liquidity.d() == 0 ensures sums(m, t, p2) {
    reveal(sums); assert forall|q: PoolKey| phas(p2, q) == (phas(p, q) || q == k) by {}
    assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies pos_ok(t, p2, m[x]) by { assert(pos_ok(t, p, m[x])); }
    let f = af(k, p2.pools.m()[k].current_tick_index as int);
    assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies f(m[x]) == 0 by { assert(pos_ok(t, p, m[x])); }
    l_msum_zero(m, f);
}
pub proof fn l_created(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, lo: i32, up: i32, l: int, pos: Position)
    requires created(a, b, u, k, lo, up, l, pos), a.positions.wf(), b.positions.wf(), a.positions_wf() ensures b.positions_wf()
{
    reveal(sums); l_pm_push(a.positions, b.positions, u, pos); let (m, m2) = (a.positions.pm(), b.positions.pm()); let key = (u, a.positions.len(u) as u32);
    assert forall|j: PoolKey, i: i32| thas(b.ticks, j, i) == (thas(a.ticks, j, i) || (j == k && (i == lo || i == up))) by {}
    assert forall|j: PoolKey| phas(b.pools, j) == phas(a.pools, j) by {}
    assert forall|j: PoolKey, i: i32| #[trigger] thas(b.ticks, j, i) implies b.tick(j, i).liquidity_gross.d() == msum(m2, gf(j, i)) && net(b.tick(j, i)) == msum(m2, nf(j, i)) by {
        l_msum_new(m, gf(j, i), key, pos); l_msum_new(m, nf(j, i), key, pos); if !thas(a.ticks, j, i) { l_no_ends(m, a.ticks, a.pools, j, i); } }
    assert forall|j: PoolKey| #[trigger] phas(b.pools, j) implies b.pool(j).liquidity.d() == msum(m2, af(j, b.pool(j).current_tick_index as int)) by { l_msum_new(m, af(j, b.pool(j).current_tick_index as int), key, pos); }
    assert forall|x: (ActorId, u32)| #[trigger] m2.dom().contains(x) implies pos_ok(b.ticks, b.pools, m2[x]) by { if x != key { assert(m.dom().contains(x)); assert(pos_ok(a.ticks, a.pools, m[x])); } }
}
pub proof fn l_claimed(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int)
    requires claimed(a, b, u, n, x, y), 0 <= n, a.positions.wf(), b.positions.wf(), a.positions_wf() ensures b.positions_wf()
{
    reveal(sums); let w = b.positions.list(u)[n]; let z = a.positions.list(u)[n]; let i0 = n as u32; l_pm_set(a.positions, b.positions, u, i0, w); let (m, m2) = (a.positions.pm(), b.positions.pm()); let key = (u, i0); a.positions.l_at(u, i0); assert(m[key] == z); assert(pos_ok(a.ticks, a.pools, z));
    assert forall|j: PoolKey, i: i32| thas(b.ticks, j, i) == thas(a.ticks, j, i) by {}
    assert forall|j: PoolKey| phas(b.pools, j) == phas(a.pools, j) by {}
    assert forall|j: PoolKey, i: i32| #[trigger] thas(b.ticks, j, i) implies b.tick(j, i).liquidity_gross.d() == msum(m2, gf(j, i)) && net(b.tick(j, i)) == msum(m2, nf(j, i)) by { l_msum_set(m, gf(j, i), key, w); l_msum_set(m, nf(j, i), key, w); }
    assert forall|j: PoolKey| #[trigger] phas(b.pools, j) implies b.pool(j).liquidity.d() == msum(m2, af(j, b.pool(j).current_tick_index as int)) by { l_msum_set(m, af(j, b.pool(j).current_tick_index as int), key, w); }
    assert forall|e: (ActorId, u32)| #[trigger] m2.dom().contains(e) implies pos_ok(b.ticks, b.pools, m2[e]) by { if e != key { assert(m.dom().contains(e)); assert(pos_ok(a.ticks, a.pools, m[e])); } }
}
pub proof fn l_out_from(m: PM, u: ActorId, n: u32, last: u32, e: (ActorId, u32)) -> (s: (ActorId, u32)) requires pm_out(m, u, n, last).dom().contains(e), m.dom().contains((u, last)) ensures m.dom().contains(s), m[s] == pm_out(m, u, n, last)[e] { if e == (u, n) && n != last { (u, last) } else { e } }
pub proof fn l_removed(a: Invariant, b: Invariant, u: ActorId, n: u32, x: int, y: int)
    requires removed(a, b, u, n as int, x, y), a.positions.wf(), b.positions.wf(), a.positions_wf() ensures b.positions_wf()
{
    reveal(sums); l_pm_out(a.positions, b.positions, u, n); let (m, m2) = (a.positions.pm(), b.positions.pm()); let last = (a.positions.len(u) - 1) as u32; a.positions.l_at(u, n); let z = m[(u, n)]; assert(z == a.positions.list(u)[n as int]); assert(pos_ok(a.ticks, a.pools, z));
    let k = z.pool_key; let (lo, up) = (z.lower_tick_index, z.upper_tick_index);
    assert forall|j: PoolKey| phas(b.pools, j) == phas(a.pools, j) by {}
    assert forall|j: PoolKey, i: i32| #[trigger] thas(b.ticks, j, i) implies b.tick(j, i).liquidity_gross.d() == msum(m2, gf(j, i)) && net(b.tick(j, i)) == msum(m2, nf(j, i)) by { l_pm_out_sum(m, u, n, last, gf(j, i)); l_pm_out_sum(m, u, n, last, nf(j, i)); assert(thas(a.ticks, j, i)); }
    assert forall|j: PoolKey| #[trigger] phas(b.pools, j) implies b.pool(j).liquidity.d() == msum(m2, af(j, b.pool(j).current_tick_index as int)) by { l_pm_out_sum(m, u, n, last, af(j, b.pool(j).current_tick_index as int)); }
    assert forall|e: (ActorId, u32)| #[trigger] m2.dom().contains(e) implies pos_ok(b.ticks, b.pools, m2[e]) by {
        let s = l_out_from(m, u, n, last, e); let w = m2[e]; assert(pos_ok(a.ticks, a.pools, w));
        l_stays(a, b, m2, u, n, last, e, w.lower_tick_index); l_stays(a, b, m2, u, n, last, e, w.upper_tick_index); }
}
/// a tick some other position ends at is not dropped
pub proof fn l_stays(a: Invariant, b: Invariant, m2: PM, u: ActorId, n: u32, last: u32, e: (ActorId, u32), i: i32)
    requires a.positions_wf(), m2 == pm_out(a.positions.pm(), u, n, last), a.positions.pm().dom().contains((u, n)), a.positions.pm().dom().contains((u, last)), m2.dom().contains(e), i == m2[e].lower_tick_index || i == m2[e].upper_tick_index, m2[e].lower_tick_index < m2[e].upper_tick_index, m2[e].liquidity.d() > 0,
        ({ let z = a.positions.pm()[(u, n)]; let (k, lo, up, l) = (z.pool_key, z.lower_tick_index, z.upper_tick_index, z.liquidity.d()); lo < up && tick_left(a, b, k, lo, l, false) && tick_left(a, b, k, up, l, true) && thas(a.ticks, m2[e].pool_key, i) && forall|j: PoolKey, i: i32| !(j == k && (i == lo || i == up)) ==> #[trigger] thas(b.ticks, j, i) == thas(a.ticks, j, i) })
    ensures thas(b.ticks, m2[e].pool_key, i)
{
    reveal(sums); let m = a.positions.pm(); let z = m[(u, n)]; let k = z.pool_key;
    if m2[e].pool_key == k && (i == z.lower_tick_index || i == z.upper_tick_index) {
        let f = gf(k, i); l_pm_out_sum(m, u, n, last, f); l_gross_from(m, a.ticks, a.pools, k, i);
        assert forall|x: (ActorId, u32)| #[trigger] m2.dom().contains(x) implies f(m2[x]) >= 0 by { let s = l_out_from(m, u, n, last, x); assert(f(m[s]) >= 0); }
        l_msum_one(m2, f, e); assert(thas(a.ticks, k, i)); assert(a.tick(k, i).liquidity_gross.d() == msum(m, f)); assert(f(z) == z.liquidity.d());
    }
}
pub proof fn l_moved_on(a: Invariant, b: Invariant, u: ActorId, n: u32, w: ActorId)
    requires a.positions.wf(), b.positions.wf(), a.positions_wf(), b.ticks == a.ticks, b.pools == a.pools, n < a.positions.len(u), ({ let (p, q) = (a.positions, b.positions); let (l, z) = (swap_out(p.list(u), n as int), p.list(u)[n as int]); (forall|v: ActorId| v != u && v != w ==> #[trigger] q.list(v) == p.list(v)) && if u == w { q.list(u) == l.push(z) } else { q.list(u) == l && q.list(w) == p.list(w).push(z) } })
    ensures b.positions_wf()
{
    reveal(sums); l_pm_move(a.positions, b.positions, u, n, w); let (m, m2) = (a.positions.pm(), b.positions.pm()); let last = (a.positions.len(u) - 1) as u32; let o = pm_out(m, u, n, last); let z = m[(u, n)];
    let key = (w, if u == w { last } else { a.positions.len(w) as u32 });
    assert forall|j: PoolKey, i: i32| #[trigger] thas(b.ticks, j, i) implies b.tick(j, i).liquidity_gross.d() == msum(m2, gf(j, i)) && net(b.tick(j, i)) == msum(m2, nf(j, i)) by { l_pm_out_sum(m, u, n, last, gf(j, i)); l_pm_out_sum(m, u, n, last, nf(j, i)); l_msum_new(o, gf(j, i), key, z); l_msum_new(o, nf(j, i), key, z); }
    assert forall|j: PoolKey| #[trigger] phas(b.pools, j) implies b.pool(j).liquidity.d() == msum(m2, af(j, b.pool(j).current_tick_index as int)) by { let f = af(j, b.pool(j).current_tick_index as int); l_pm_out_sum(m, u, n, last, f); l_msum_new(o, f, key, z); }
    assert forall|e: (ActorId, u32)| #[trigger] m2.dom().contains(e) implies pos_ok(b.ticks, b.pools, m2[e]) by { if e != key { let s = l_out_from(m, u, n, last, e); assert(pos_ok(a.ticks, a.pools, m[s])); } else { assert(pos_ok(a.ticks, a.pools, m[(u, n)])); } }
}
/// a fresh contract
pub proof fn l_fresh(a: Invariant) requires a.balances.m() == Map::<ActorId, HMap<ActorId, TokenAmount>>::empty(), a.positions.positions.m() == Map::<(ActorId, u32), Position>::empty(), a.positions.positions_length.m() == Map::<ActorId, u32>::empty(), a.pools.pools.m() == Map::<PoolKey, Pool>::empty(),
    a.pool_keys.pool_keys.m() == Map::<PoolKey, u16>::empty(), a.pool_keys.pool_keys_by_index.m() == Map::<u16, PoolKey>::empty(), a.pool_keys.pool_keys_length == 0, a.fee_tiers.fee_tiers@.len() == 0, a.ticks.ticks.m() == Map::<(PoolKey, i32), Tick>::empty(), a.tickmap.bitmap.m() == Map::<(u16, PoolKey), u64>::empty()
    ensures a.wf()
{ reveal(lwf); reveal(pwf); reveal(twf); reveal(sums);
  assert forall|k: PoolKey, i: i32| !tmark(a.tickmap, k, i) by { assert forall|b: u64| (0u64 >> b) & 1u64 != 1u64 by { assert((0u64 >> b) & 1u64 != 1u64) by (bit_vector); } } }

"""Histories of calls against the compiled service, compared call by call with a reference model in unbounded
integers.  Every discrepancy carries the properties whose statement it contradicts."""
import random, time, copy, subprocess, os, multiprocessing as mp
from fractions import Fraction
from .ticksearch import *
from . import ticksearch as T
from .oracle import *
W128, W256, W64 = 2**128, 2**256, 2**64
PROGRAM, ADMIN = 7777, 1
class Fail(Exception): pass
class Unknown(Exception): pass
class Refused(Exception):
    """a query that answers with an error"""

def akey(a): return a.to_bytes(8, 'little')
def sortkey(t0, t1, ft): return (t0, t1, ft[0], ft[1]) if akey(t0) < akey(t1) else (t1, t0, ft[0], ft[1])
def ks(k): return ' '.join(map(str, k))

class Line(Srv):
    """like Srv, for short batches: no writer thread"""
    def batch(self, lines):
        try: self.p.stdin.write('\n'.join(lines) + '\n.\n'); self.p.stdin.flush()
        except BrokenPipeError: pass
        return [self.p.stdout.readline().strip() for _ in lines]

# ---------- reference model
LIQ, SQ, CUR, FGX, FGY, FPX, FPY, START, LAST, RECV = range(10)        # pool
TI, TNET, TGROSS, TSQ, TFX, TFY, TSEC = range(7)                        # tick: net liquidity as one signed number
PK, PL, PLO, PUP, PFX, PFY, PBN, POX, POY = range(9)                    # position
def pool_out(p): return ' '.join(map(str, p))
def pos_out(p): return ks(p[PK]) + ' ' + ' '.join(map(str, p[1:]))
def tick_norm(v):
    """8 numbers of a dumped tick -> model form"""
    return [v[0], v[2] if v[1] else -v[2], v[3], v[4], v[5], v[6], v[7]]

def ceil_pct(v, p): return cdiv(v * p, E12)
def add_fee(p, fee, in_x, pf):
    prot = ceil_pct(fee, pf)
    if prot > fee: raise Fail('fee share above the fee')
    rest = fee - prot
    if (rest == 0 and prot == 0) or p[LIQ] == 0: return
    g = rest * E28 * E5 // p[LIQ]
    if g > W128 - 1: raise Fail('fee growth too large')
    a, b_ = (FGX, FPX) if in_x else (FGY, FPY)
    p[a] = (p[a] + g) % W128; p[b_] += prot
    if p[b_] >= W256: raise Fail('fee counter')
def cross(t, p, now):
    t[TFX] = (p[FGX] - t[TFX]) % W128; t[TFY] = (p[FGY] - t[TFY]) % W128
    if now < p[START]: raise Fail('time')
    t[TSEC] = (now - p[START] - t[TSEC]) % W64; p[LAST] = now
    n = p[LIQ] + (-t[TNET] if p[CUR] >= t[TI] else t[TNET])
    if not 0 <= n < W256: raise Fail('liquidity')
    p[LIQ] = n
def new_tick(i, p, now):
    below = i <= p[CUR]
    if below and now < p[START]: raise Unknown()
    return [i, 0, 0, pr(i), p[FGX] if below else 0, p[FGY] if below else 0, (now - p[START]) if below else 0]
def tick_limit(sp): return MAXTICK // sp * sp
def search_limit(t, sp, up):
    i = abs(t) // sp * (1 if t >= 0 else -1)
    return (min(i + 256, MAXTICK // sp) if up else max(i - 256, -(MAXTICK // sp))) * sp
def dxs(a, b_, l, up):
    if dx_bad(a, b_, l, up): raise Unknown()
    v = dx(a, b_, l, up)
    if v is None: raise Unknown()
    return v
def dys(a, b_, l, up):
    if dy_bad(a, b_, l, up): raise Unknown()
    return dy(a, b_, l, up)
def amounts(cur, sq, l, up, lo, hi):
    if hi < lo: raise Fail('range')
    pl, pu = pr(lo), pr(hi)
    if cur < lo: return dxs(pl, pu, l, up), 0, False
    if cur < hi: return dxs(sq, pu, l, up), dys(pl, sq, l, up), True
    return 0, dys(pl, pu, l, up), False
def fee_due(g, prev, l):
    v = (g - prev) % W128 * l // E5 // E28
    if v >= W256: raise Unknown()
    return v
def max_liq(sp): return U256_ // ((2 * MAXTICK + 1) // sp)

class Model:
    def __init__(self, math): self.math = math; self.reset(ADMIN, 0)
    def reset(self, admin, pf):
        self.admin, self.pf = admin, pf
        self.ft, self.keys, self.pools, self.ticks, self.pos, self.bal, self.aw = [], [], {}, {}, {}, {}, {}
        self.tasks, self.msg, self.task = {}, 0, 0
        self.src = self.val = 0; self.now = 1; self.height = 1
        self.held = {}            # tokens the contract really holds
        self.fees_in = {}         # fees ever collected (key, side)
        self.paid_fees = {}
    def clone(self):
        m = Model.__new__(Model); m.__dict__ = dict(self.__dict__)
        for f in ('ft', 'keys', 'bal', 'aw', 'held'): setattr(m, f, getattr(self, f).copy())
        m.pools = {k: v[:] for k, v in self.pools.items()}; m.ticks = {k: v[:] for k, v in self.ticks.items()}; m.pos = {k: [p[:] for p in v] for k, v in self.pos.items()}
        m.tasks = {k: dict(v) for k, v in self.tasks.items()}
        return m
    # ---- balances
    def credit(self, who, tok, x):
        if x == 0: return
        v = self.bal.get((who, tok), 0) + x
        if v >= W256: raise Fail('balance overflow')
        self.bal[(who, tok)] = v
    def debit(self, who, tok, x):
        if x == 0: return 0
        h = self.bal.get((who, tok))
        if h is None or (x is not None and x > h): raise Fail('balance')
        x = h if x is None else x
        if x == h: del self.bal[(who, tok)]
        else: self.bal[(who, tok)] = h - x
        return x
    # ---- the operations; `a` are integers
    def key(self, a): return tuple(a[:4])
    def pool(self, k):
        if k not in self.pools: raise Fail('no pool')
        return self.pools[k]
    def change_protocol_fee(self, a):
        if self.src != self.admin: raise Fail('admin')
        self.pf = a[0]; return str(a[0])
    def add_fee_tier(self, a):
        f = (a[0], a[1])
        if not 1 <= f[1] <= 100 or f[0] >= E12 or self.src != self.admin or f in self.ft: raise Fail('tier')
        self.ft.append(f); return ''
    def remove_fee_tier(self, a):
        f = (a[0], a[1])
        if self.src != self.admin or f not in self.ft: raise Fail('tier')
        self.ft.remove(f); return ''
    def create_pool(self, a):
        t0, t1, f, sq, it = a[0], a[1], (a[2], a[3]), a[4], a[5]
        if f not in self.ft or abs(it) > MAXTICK or it % f[1] or t0 == t1: raise Fail('pool')
        if abs(it) > tick_limit(f[1]): raise Fail('tick')
        k = sortkey(t0, t1, f)
        if k in self.pools: raise Fail('exists')
        r = self.math.one(f'rel {it} {f[1]} {sq}')
        if r != 'ok 1': raise Fail('price')
        self.pools[k] = [0, pr(it), it, 0, 0, 0, 0, self.now, self.now, self.admin]; self.keys.append(k); return ''
    def change_fee_receiver(self, a):
        if self.src != self.admin: raise Fail('admin')
        self.pool(self.key(a))[RECV] = a[4]; return ''
    def inside(self, k, lo, hi, p, x):
        t, u = self.ticks[(k, lo)], self.ticks[(k, hi)]
        return inside(lo, t[TFX if x else TFY], hi, u[TFX if x else TFY], p[CUR], p[FGX if x else FGY])
    def create_position(self, a):
        k, lo, hi, l, sl, su = self.key(a), *a[4:9]
        if l == 0 or lo == hi: raise Fail('empty')
        p = self.pool(k); sp = k[3]
        for t in (lo, hi):
            if (k, t) not in self.ticks:
                if abs(t) > MAXTICK or t % sp or abs(t) > tick_limit(sp): raise Fail('tick')
                self.ticks[(k, t)] = new_tick(t, p, self.now)
        if not sl <= p[SQ] <= su: raise Fail('slippage')
        p[LAST] = self.now
        for t, s in ((lo, 1), (hi, -1)):
            e = self.ticks[(k, t)]
            if e[TGROSS] + l >= max_liq(sp): raise Fail('tick liquidity')
            e[TGROSS] += l; e[TNET] += s * l
            if abs(e[TNET]) >= W256: raise Unknown()
        if hi < lo: raise Fail('range')
        q = [k, l, lo, hi, self.inside(k, lo, hi, p, True), self.inside(k, lo, hi, p, False), self.height, 0, 0]
        x, y, act = amounts(p[CUR], p[SQ], l, True, lo, hi)
        if act:
            p[LIQ] += l
            if p[LIQ] >= W256: raise Fail('liquidity')
        self.debit(self.src, k[0], x); self.debit(self.src, k[1], y)
        self.pos.setdefault(self.src, []).append(q); return pos_out(q)
    def mypos(self, i):
        v = self.pos.get(self.src, [])
        if not 0 <= i < len(v): raise Fail('position')
        return v[i]
    def settle(self, q):
        k = q[PK]; p = self.pools[k]
        gx, gy = self.inside(k, q[PLO], q[PUP], p, True), self.inside(k, q[PLO], q[PUP], p, False)
        fx, fy = fee_due(gx, q[PFX], q[PL]), fee_due(gy, q[PFY], q[PL])
        q[PFX], q[PFY] = gx, gy; q[POX] += fx; q[POY] += fy
        if max(q[POX], q[POY]) >= W256: raise Unknown()
        p[LAST] = self.now
    def claim_fee(self, a):
        q = self.mypos(a[0]); self.settle(q); x, y = q[POX], q[POY]; q[POX] = q[POY] = 0
        self.credit(self.src, q[PK][0], x); self.credit(self.src, q[PK][1], y); return f'{x} {y}'
    def remove_position(self, a):
        q = self.mypos(a[0]); k = q[PK]; p = self.pools[k]; l = q[PL]
        for t, s in ((q[PLO], 1), (q[PUP], -1)):
            e = self.ticks[(k, t)]; e[TGROSS] -= l; e[TNET] -= s * l
        self.settle(q)
        x, y, act = amounts(p[CUR], p[SQ], l, False, q[PLO], q[PUP])
        if act: p[LIQ] -= l
        for t in (q[PLO], q[PUP]):
            if self.ticks[(k, t)][TGROSS] == 0: del self.ticks[(k, t)]
        x += q[POX]; y += q[POY]
        self.take(a[0]); self.credit(self.src, k[0], x); self.credit(self.src, k[1], y); return f'{x} {y}'
    def take(self, i):
        v = self.pos[self.src]; q = v[i]; last = v.pop()
        if i < len(v): v[i] = last
        return q
    def transfer_position(self, a):
        self.mypos(a[0]); q = self.take(a[0]); self.pos.setdefault(a[1], []).append(q); return ''
    def closer(self, k, xy, cur, lim):
        sp = k[3]; end = search_limit(cur, sp, not xy)
        if xy: c = [t for (kk, t) in self.ticks if kk == k and end <= t <= cur]; best = max(c) if c else None
        else:
            c = [t for (kk, t) in self.ticks if kk == k and cur < t <= end]; best = min(c) if c else None
            if cur + sp > MAXTICK: best = None
        if best is None:
            if cur == end: raise Fail('tick limit')
            best, init = end, False
        else: init = True
        pp = pr(best)
        if (xy and pp > lim) or (not xy and (pp < lim or init and pp == lim)): return pp, (best, init)
        return lim, None
    def sim(self, k, xy, amount, bi, lim):
        """the swap, without booking it"""
        if amount == 0: raise Fail('zero')
        p = self.pool(k)[:]; f = k[2]; sp = k[3]; start = p[SQ]
        if xy and (p[SQ] <= lim or lim > MAXP) or not xy and (p[SQ] >= lim or lim < MINP): raise Fail('limit')
        rem, ti, to, fees, crossed = amount, 0, 0, 0, []
        for _ in range(5000):
            if rem == 0: break
            sl, lt = self.closer(k, xy, p[CUR], lim)
            r = self.math.one(f'step {p[SQ]} {sl} {p[LIQ]} {rem} {int(bi)} {f}') if p[LIQ] else f'ok {sl} 0 0 0'      # no liquidity: nothing is traded on the way
            if not r.startswith('ok'): raise Fail('step')
            nx_, ai, ao, fe = map(int, r.split()[1:])
            rem -= ai + fe if bi else ao
            if rem < 0: raise Fail('step')
            add_fee(p, fe, xy, self.pf); fees += fe; p[SQ] = nx_; ti += ai + fe; to += ao
            if max(ti, to) >= W256: raise Fail('sum')
            if p[SQ] == lim and rem: raise Fail('price limit')
            if lt is None or sl != nx_: t = greatest_tick(nx_, sp); p[CUR] = min(t, p[CUR]) if xy else t
            else:
                r = self.math.one(f'enough {rem} {nx_} {p[LIQ]} {f} {int(bi)} {int(xy)}') if p[LIQ] else 'ok 1'
                if not r.startswith('ok'): raise Fail('enough')
                en = r == 'ok 1'
                if lt[1]:
                    t = next((c for c in crossed if c[TI] == lt[0]), None)
                    if t is not None: raise Unknown()
                    if not xy or en:
                        t = self.ticks[(k, lt[0])][:]; cross(t, p, self.now); crossed.append(t)
                    elif rem:
                        if bi: add_fee(p, rem, xy, self.pf); ti += rem
                        rem = 0
                p[CUR] = lt[0] - sp if xy and en else lt[0]
            if (p[CUR] <= -tick_limit(sp)) if xy else (p[CUR] >= tick_limit(sp)): raise Fail('tick limit')
        else: raise Unknown()
        if to == 0: raise Fail('no gain')
        return dict(ain=ti, aout=to, start=start, fee=fees, pool=p, ticks=crossed)
    def swap(self, a):
        k, xy, am, bi, lim = self.key(a), bool(a[4]), a[5], bool(a[6]), a[7]
        r = self.sim(k, xy, am, bi, lim); self.book(k, xy, r)
        return (f'{r["ain"]} {r["aout"]} {r["start"]} {r["pool"][SQ]} {r["fee"]} | {pool_out(r["pool"])}', r['ticks'])
    def book(self, k, xy, r):
        self.pools[k] = r['pool'][:]
        for t in r['ticks']: self.ticks[(k, t[TI])] = t[:]
        i, o = (k[0], k[1]) if xy else (k[1], k[0])
        self.debit(self.src, i, r['ain']); self.credit(self.src, o, r['aout'])
    def hops(self, a):
        n = a[0]; return [(tuple(a[1 + 5 * i:5 + 5 * i]), bool(a[5 + 5 * i])) for i in range(n)]
    def swap_route(self, a):
        x = a[0]
        for k, xy in self.hops(a[3:]):
            r = self.sim(k, xy, x, True, MINP if xy else MAXP); self.book(k, xy, r); x = r['aout']
        if a[2] > E12: raise Fail('slippage')
        if x < cdiv(a[1] * (E12 - a[2]), E12): raise Fail('minimum')
        return str(x)
    def withdraw_protocol_fee(self, a):
        k = self.key(a); p = self.pool(k)
        if p[RECV] != self.src: raise Fail('receiver')
        x, y = p[FPX], p[FPY]; p[FPX] = p[FPY] = 0
        self.credit(self.src, k[0], x); self.credit(self.src, k[1], y); return ''
    def deposit_vara(self, a):
        self.credit(self.src, 0, self.val); self.held[0] = self.held.get(0, 0) + self.val; return str(self.val)
    def withdraw_vara(self, a):
        if a[0] is None: x = self.debit(self.src, 0, None) if (self.src, 0) in self.bal else 0
        elif a[0] == 0: raise Fail('zero')
        else: x = self.debit(self.src, 0, a[0])
        if x >= W128: raise Fail('too large')
        self.held[0] = self.held.get(0, 0) - x
        return ('leave', x)
    # ---- transfers
    def send(self, pairs, dep):
        if any(t == 0 for t, _ in pairs): raise Fail('vara')
        if self.src == PROGRAM: raise Fail('self')
        out, ids = [], []
        for t, x in pairs:
            if x == 0: raise Fail('zero')
            self.msg += 1; ids.append((self.msg, t)); self.aw[(self.msg, t)] = (self.src, x, dep)
            f, to = (self.src, PROGRAM) if dep else (PROGRAM, self.src)
            out.append(f'msg {self.msg} {t} 0 Vft TransferFrom {f} {to} {x}')
        self.task += 1; self.tasks[self.task] = dict(ids=ids, got={}, ret=None, dep=dep)
        return out
    def can(self, t, x): return self.bal.get((self.src, t), 0) + x < W256
    def deposit_single_token(self, a):
        if not self.can(a[0], a[1]): raise Fail('overflow')
        o = self.send([(a[0], a[1])], True); self.tasks[self.task]['ret'] = str(a[1]); return ('task', o)
    def debit_opt(self, t, x):
        if x is None: return self.debit(self.src, t, None) if (self.src, t) in self.bal else 0
        return self.debit(self.src, t, x)
    def withdraw_single_token(self, a):
        if a[1] == 0: raise Fail('zero')
        x = self.debit_opt(a[0], a[1])
        if x == 0: return 'done 0'
        o = self.send([(a[0], x)], False); self.tasks[self.task]['ret'] = str(x); return ('task', o)
    def pair(self, tx, x, ty, y, dep):
        v = [(t, z) for t, z in ((tx, x), (ty, y)) if z]
        if not v: return f'done {x} {y}'
        o = self.send(v, dep); self.tasks[self.task]['ret'] = f'{x} {y}'; return ('task', o)
    def deposit_token_pair(self, a):
        if a[0] == a[2] or not self.can(a[0], a[1]) or not self.can(a[2], a[3]): raise Fail('pair')
        return self.pair(*a, True)
    def withdraw_token_pair(self, a):
        if a[0] == a[2]: raise Fail('pair')
        x = self.debit_opt(a[0], a[1]); y = self.debit_opt(a[2], a[3]); return self.pair(a[0], x, a[2], y, False)
    def booked(self, id, tok, kind):
        """the bookkeeping a reply causes"""
        w = self.aw.get((id, tok))
        if w is None: return
        who, x, dep = w
        ok = kind == 'true'
        if kind in ('other', 'svc', 'junk', 'empty', 'errjunk'): return
        if ok and dep or not ok and not dep:
            v = self.bal.get((who, tok), 0) + x
            if v >= W256: raise Unknown()
            self.bal[(who, tok)] = v
        del self.aw[(id, tok)]
    def reply(self, id, kind):
        """returns (expected status of the waiting call or None)"""
        for n, t in self.tasks.items():
            for i, tok in t['ids']:
                if i == id:
                    if kind == 'true': w = self.aw.get((id, tok)); self.held[tok] = self.held.get(tok, 0) + (0 if w is None else w[1] if w[2] else -w[1])
                    self.booked(id, tok, kind); t['got'][id] = kind
                    if len(t['got']) < len(t['ids']): return n, 'pending'
                    left = [e for e in t['ids'] if e in self.aw]
                    for e in left: del self.aw[e]
                    del self.tasks[n]
                    if left: return n, 'leave'
                    return (n, 'done ' + t['ret']) if all(k == 'true' for k in t['got'].values()) else (n, 'panic')
        return None
    # ---- what everybody is owed
    def owed(self):
        o = {}
        def add(t, x): o[t] = o.get(t, 0) + x
        for (w, t), x in self.bal.items(): add(t, x)
        for k, p in self.pools.items(): add(k[0], p[FPX]); add(k[1], p[FPY])
        for v in self.pos.values():
            for q in v:
                k = q[PK]; p = self.pools[k]; x, y, _ = amounts(p[CUR], p[SQ], q[PL], False, q[PLO], q[PUP])
                add(k[0], x + q[POX] + fee_due(self.inside(k, q[PLO], q[PUP], p, True), q[PFX], q[PL])); add(k[1], y + q[POY] + fee_due(self.inside(k, q[PLO], q[PUP], p, False), q[PFY], q[PL]))
        for (_, t), (_, x, dep) in self.aw.items():
            if not dep: add(t, x)
        return o
    def exact(self):
        """everything owed, the worth of liquidity taken exactly: the quantity the proof of C21 shows no operation can raise beyond the tokens that came in"""
        o = {}
        def add(t, x): o[t] = o.get(t, 0) + x
        for (w, t), x in self.bal.items(): add(t, x)
        for k, p in self.pools.items(): add(k[0], p[FPX]); add(k[1], p[FPY])
        for v in self.pos.values():
            for q in v:
                k = q[PK]; p = self.pools[k]; a, b = pr(q[PLO]), pr(q[PUP]); c = min(max(p[SQ], a), b); l = q[PL]
                add(k[0], q[POX] + Fraction((self.inside(k, q[PLO], q[PUP], p, True) - q[PFX]) % 2**128 * l, 10**33) + l * 10**19 * (Fraction(1, c) - Fraction(1, b)))
                add(k[1], q[POY] + Fraction((self.inside(k, q[PLO], q[PUP], p, False) - q[PFY]) % 2**128 * l, 10**33) + l * Fraction(c - a, 10**29))
        for (_, t), (_, x, dep) in self.aw.items():
            if not dep: add(t, x)
        return o
    def bits(self):
        m = {}
        for k, t in self.ticks:
            i = (t + MAXTICK) // k[3]; m[(k, i // 64)] = m.get((k, i // 64), 0) | 1 << i % 64
        return m
    # ---- queries: expected text
    def q_quote(self, a):
        r = self.sim(self.key(a), bool(a[4]), a[5], bool(a[6]), a[7]); return (f'{r["ain"]} {r["aout"]} {r["pool"][SQ]}', r['ticks'])
    def q_quote_route(self, a):
        x = a[0]
        for k, xy in self.hops(a[1:]): x = self.sim(k, xy, x, True, MINP if xy else MAXP)['aout']
        return str(x)

SWAPQ = {'quote', 'quote_route'}
# ---------- dumps
def parse_dump(s, m):
    d = dict(cfg=None, ft=[], keys=[], pools={}, ticks={}, pos={}, plen={}, bits={}, bal={}, aw={})
    for e in s.split(';'):
        v = e.split(' '); t = v[0]; n = list(map(int, v[1:]))
        if t == 'cfg': d['cfg'] = tuple(n)
        elif t == 'ft': d['ft'].append(tuple(n))
        elif t == 'pk': d['keys'].append(tuple(n))
        elif t == 'po': d['pos'][(n[0], n[1])] = [tuple(n[2:6])] + n[6:]
        elif t == 'pl': d['plen'][n[0]] = n[1]
        elif t == 'pool': d['pools'][tuple(n[:4])] = n[4:]
        elif t == 'tk': d['ticks'][(tuple(n[:4]), n[4])] = tick_norm(n[5:])
        elif t == 'bm': d['bits'][(tuple(n[:4]), n[4])] = n[5]
        elif t == 'ba':
            if n[2]: d['bal'][(n[0], n[1])] = n[2]
        elif t == 'aw': d['aw'][(n[0], n[1])] = (n[2], n[3], bool(n[4]))
    return d
POOLTAGS = [('C11 C13', 'liquidity'), ('C19', 'price'), ('C19', 'current tick'), ('C12', 'fee growth of x'), ('C12', 'fee growth of y'), ('C12', 'protocol fee of x'), ('C12', 'protocol fee of y'), ('C13 C15', 'start'), ('C13 C15', 'last change'), ('C18', 'fee receiver')]
POSTAGS = [('C14 C13', 'pool'), ('C13', 'liquidity'), ('C13', 'lower tick'), ('C13', 'upper tick'), ('C13', 'fee counter x'), ('C13', 'fee counter y'), ('C13', 'block'), ('C13', 'owed x'), ('C13', 'owed y')]
TICKTAGS = [('C15', 'index'), ('C11', 'net liquidity'), ('C11', 'gross liquidity'), ('C11', 'price'), ('C11 C12', 'outside x'), ('C11 C12', 'outside y'), ('C11', 'seconds outside')]
OPTAGS = dict(swap='C19', swap_route='C20 C19', create_position='C13', remove_position='C13', claim_fee='C13', transfer_position='C14', withdraw_protocol_fee='C12 C18')
def compare(m, d, op):
    """list of (tags, text)"""
    out = []; ot = OPTAGS.get(op, '')
    def bad(t, x): out.append((t, x))
    if d['cfg'] != (m.admin, m.pf): bad('C18', f'settings are {d["cfg"]}, expected {(m.admin, m.pf)}')
    if sorted(d['ft']) != sorted(m.ft): bad('C15 C18', f'fee tiers {d["ft"]}, expected {m.ft}')
    if sorted(d['keys']) != sorted(m.keys): bad('C15', f'pool keys {d["keys"]}, expected {m.keys}')
    for k in set(d['pools']) | set(m.pools):
        a, b_ = d['pools'].get(k), m.pools.get(k)
        if a is None or b_ is None: bad('C15', f'pool {k} is {"missing" if a is None else "there"}'); continue
        for i, (t, n) in enumerate(POOLTAGS):
            if a[i] != b_[i]: bad(t + ' ' + ot, f'{n} of pool {k} is {a[i]}, expected {b_[i]}')
    for k in set(d['ticks']) | set(m.ticks):
        a, b_ = d['ticks'].get(k), m.ticks.get(k)
        if a is None or b_ is None: bad('C11 C15 C10', f'tick {k[1]} of {k[0]} is {"missing" if a is None else "still there"}'); continue
        for i, (t, n) in enumerate(TICKTAGS):
            if a[i] != b_[i]: bad(t + ' ' + ot, f'{n} of tick {k[1]} of {k[0]} is {a[i]}, expected {b_[i]}')
    mp_ = {(w, i): p for w, v in m.pos.items() for i, p in enumerate(v)}
    for w, l in d['plen'].items():
        if l != len(m.pos.get(w, [])): bad('C14', f'account {w} has {l} positions, expected {len(m.pos.get(w, []))}')
    for k in set(d['pos']) | set(mp_):
        a, b_ = d['pos'].get(k), mp_.get(k)
        if a is None or b_ is None: bad('C14', f'position {k[1]} of account {k[0]} is {"missing" if a is None else "there"}'); continue
        if a[:4] != b_[:4] and op not in ('create_position',): bad('C14 ' + ot, f'position {k[1]} of account {k[0]} is {a}, expected {b_}'); continue
        for i, (t, n) in enumerate(POSTAGS):
            if a[i] != b_[i]: bad(t + ' C18' * (op not in ('create_position', 'claim_fee')), f'{n} of position {k[1]} of account {k[0]} is {a[i]}, expected {b_[i]}')
    if d['bits'] != m.bits(): bad('C10 C15 C23', f'tick map {d["bits"]}, expected {m.bits()}')
    if d['bal'] != m.bal:
        for k in set(d['bal']) | set(m.bal):
            if d['bal'].get(k, 0) != m.bal.get(k, 0): bad('C16 C18 C21 ' + (ot or 'C17'), f'balance of token {k[1]} of account {k[0]} is {d["bal"].get(k, 0)}, expected {m.bal.get(k, 0)}')
    if d['aw'] != m.aw: bad('C17', f'pending transfers {d["aw"]}, expected {m.aw}')
    return out
def adopt(m, d):
    m.admin, m.pf = d['cfg']; m.ft = d['ft'][:]; m.keys = d['keys'][:]; m.pools = {k: v[:] for k, v in d['pools'].items()}; m.ticks = {k: v[:] for k, v in d['ticks'].items()}
    m.pos = {}
    for (w, i) in sorted(d['pos']): m.pos.setdefault(w, []).append(d['pos'][(w, i)][:])
    m.bal = dict(d['bal']); m.aw = dict(d['aw'])

# ---------- histories
ACCS = [1, 2, 3, 258]
TOKS = [10, 11, 300]
KINDS = ['true'] * 10 + ['false', 'false', 'panic', 'panic', 'str', 'other', 'svc', 'junk', 'empty', 'errjunk']
class Hist:
    def __init__(self, exe, math, seed):
        self.r = random.Random(seed); self.seed = seed; self.s = Line(exe, 'svc'); self.math = math; self.m = Model(math)
        self.log = []; self.bad = []; self.n = 0; self.kinds = {}; self.used = {}; self.extreme = self.r.random() < .08
    # -- talking
    def dumpline(self):
        o = [f'dump {len(ACCS)}'] + list(map(str, ACCS)) + [str(len(self.used))]
        for k, t in self.used.items(): o.append(ks(k)); o.append(str(len(t))); o += map(str, t)
        return ' '.join(o)
    def touch(self, k, *ts):
        u = self.used.setdefault(k, [])
        for t in ts:
            if t not in u: u.append(t)
    def owes_more(self, m, n, d, call, got):
        """the state is not the expected one: does the contract now owe more than before, beyond what came in?"""
        if self.pid not in (None, 'C21'): return
        a = n.clone(); adopt(a, d)
        try: x, y = m.exact(), a.exact()
        except Exception: return
        for t in y:
            e = y[t] - x.get(t, 0) - (n.held.get(t, 0) - m.held.get(t, 0))
            if e > 0: self.fail('C21', call, got, f'the contract owes {float(e):.6g} more of token {t} than came in (exactly {e})')
    def fail(self, tags, call, got, why): self.bad.append((set(tags.split()), call, got[:300], why))
    def op(self, name, args, src=None):
        """one state-changing call"""
        r, m = self.r, self.m
        m.now += r.choice([0, 0, 1, 7, 3600]); m.height += r.randrange(3); m.src = src if src is not None else r.choice(ACCS)
        m.val = args[0] if name == 'deposit_vara' else 0
        a = [] if name == 'deposit_vara' else args
        line = (name + ' ' + ' '.join('-' if x is None else str(int(x)) for x in a)).strip()
        env = f'env {m.src} {m.val} {m.now} {m.height} {10**18}'
        n = m.clone()
        try: want = ('ok', getattr(n, name)(a))
        except Fail as e: want = ('panic', str(e)); n = m.clone()
        except Unknown: want = None
        pre = []
        if name == 'swap': pre = ['quote ' + line[5:]]
        elif name == 'swap_route': pre = ['quote_route ' + f'{args[0]} ' + ' '.join(map(str, map(int, args[3:])))]
        out = self.s.batch([env] + pre + [line, self.dumpline()])
        res, dmp = out[-2], out[-1]; self.n += 1
        self.log.append((env, line, res)); call = f'caller {m.src}: {line}'
        tagsets = dict(change_protocol_fee='C18', add_fee_tier='C18 C15', remove_fee_tier='C18 C15', create_pool='C15', change_fee_receiver='C18', create_position='C13', remove_position='C13 C14', transfer_position='C14',
                       claim_fee='C13', swap='C19', swap_route='C20', withdraw_protocol_fee='C12 C18', deposit_vara='C16 C21', withdraw_vara='C16 C18 C21').get(name, 'C17')
        if 'hang' in out: self.fail(tagsets, call, 'hang', 'the call does not return'); raise Unknown()
        if dmp == '': self.fail('ALL', call, res, 'the process died'); raise Unknown()
        try: d = parse_dump(dmp, n)
        except Exception: self.fail('ALL', call, dmp, 'the state cannot be read'); raise Unknown()
        ot = OPTAGS.get(name, '')
        if want is None:
            if 'token' in name: raise Unknown()
            adopt(n, d); self.m = n; return res
        self.kinds[name + ('' if want[0] == 'ok' else '-refused')] = self.kinds.get(name + ('' if want[0] == 'ok' else '-refused'), 0) + 1
        if want[0] == 'panic':
            if not res.startswith('panic'): self.fail(tagsets + (' C18' if want[1] in ('admin', 'receiver') else '') + (' C16 C17' if want[1] == 'balance' else ''), call, res, f'accepted although it has to be refused ({want[1]})')
        else:
            w = want[1]
            if res.startswith('panic'): self.fail(tagsets, call, res, 'refused although nothing speaks against it')
            else:
                body, _, msgs = res.partition(' # ') if ' # ' in res else (res[:-2], '', '') if res.endswith(' #') else (res, '', '')
                if isinstance(w, tuple) and w[0] == 'task':
                    if body != f'ok task {n.task}' or msgs.split(',') != w[1]: self.fail('C17', call, res, f'expected the token messages {w[1]}')
                elif isinstance(w, tuple) and w[0] == 'leave':
                    if body != 'leave' or msgs != f'rep {w[1]}': self.fail('C16 C21 C18 C17', call, res, f'expected {w[1]} of the native coin to be paid out')
                elif name == 'swap':
                    exp, tk = w; got = body[3:].split(' | ')
                    gt = [tick_norm(list(map(int, x.split()))) for x in got[2].split(',')] if len(got) > 2 and got[2].strip(' #') else []
                    if [x.strip() for x in got[:2]] != exp.split(' | '): self.fail(tagsets, call, res, f'expected {exp}')
                    elif gt != tk: self.fail('C19 C11', call, res, f'expected the crossed ticks {tk}')
                    self.limits(call, res, got, args)
                elif w is not None and body.strip() != ('ok ' + w).strip(): self.fail(tagsets, call, res, f'expected {w}')
        # quoting the same
        if pre: self.same_as_quote(name, out[1], res, call)
        for t, x in compare(n, d, name): self.fail(t, call, res, x)
        if self.bad: self.owes_more(m, n, d, call, res); raise Unknown()
        self.m = n
        return res
    def limits(self, call, res, got, args):
        v = list(map(int, got[0].split())); xy, am, bi, lim = bool(args[4]), args[5], bool(args[6]), args[7]
        end = int(got[1].split()[1])
        if bi and v[0] > am: self.fail('C19', call, res, 'takes more than the amount given')
        if not bi and v[1] > am: self.fail('C19', call, res, 'gives more than the amount asked for')
        if bi and v[0] != am or not bi and v[1] != am: self.fail('C19', call, res, 'stopped part-way')
        if (end < lim if xy else end > lim) or end != v[3]: self.fail('C19', call, res, 'price beyond the limit')
        if v[1] == 0: self.fail('C19', call, res, 'succeeded without any gain')
    def same_as_quote(self, name, q, res, call):
        def body(x): return (x.split(' #')[0])
        if name == 'swap':
            if res.startswith('panic'): 
                return None if not q.startswith('ok') or q.startswith('ok err') else None
            qb, sb = body(q)[3:].split(' | '), body(res)[3:].split(' | ')
            if q.startswith('panic') or q.startswith('ok err'): self.fail('C19', call, res, f'the quote refused: {q}'); return
            sv, qv = sb[0].split(), qb[0].split()
            if qv[:2] != sv[:2] or qv[2] != sv[3] or (qb[1:] or [''])[0].strip() != (sb[2:] or [''])[0].strip(): self.fail('C19', call, res, f'the quote in the same state was {q}')
        else:
            if res.startswith('panic'): return
            toks = call.split()
            hops = list(zip(*[iter(toks[7:])] * 5))
            if len({h[:4] for h in hops}) == len(hops) and body(q) != body(res): self.fail('C20', call, res, f'the quote in the same state was {q}')
    def query(self, name, text, want, tags):
        """want: text, None = must be refused"""
        out = self.s.batch([f'{name} {text}'.strip(), self.dumpline()]); self.n += 1
        res = out[0]; call = f'{name} {text}'; body = res.split(' #')[0]
        if res == 'hang': self.fail(tags, call, res, 'the call does not return'); raise Unknown()
        self.log.append(('', call, res)); self.kinds[name] = self.kinds.get(name, 0) + 1
        if want is None:
            if not (res.startswith('panic') or res.startswith('ok err')): self.fail(tags, call, res, 'answered although there is nothing to report')
        elif callable(want):
            w = None
            try: ok = not res.startswith('panic') and want(body[3:].strip())
            except Exception: ok = False
            if not ok: self.fail(tags, call, res, f'not what is stored')
        elif body.strip() != ('ok ' + want).strip(): self.fail(tags, call, res, f'expected {want}')
        try: bad = compare(self.m, parse_dump(out[1], self.m), name)
        except Exception: bad = [('C23', 'state unreadable')]
        if bad: self.fail('C23 ' + ('C19 C20' if name in SWAPQ else ''), call, res, f'the query changed the state: {bad[0][1]}')
        if self.bad: raise Unknown()
    def reply(self, id, kind):
        m, n = self.m, self.m.clone(); line = f'reply {id} {kind}'
        m.now += 1; n.now = m.now
        try: want = n.reply(id, kind)
        except Unknown: want = 0
        out = self.s.batch([f'env {r_src(m, id)} 0 {m.now} {m.height} {10**18}', line, self.dumpline()]); self.n += 1
        res = out[1]; self.log.append(('', line, res)); self.kinds['reply-' + kind] = self.kinds.get('reply-' + kind, 0) + 1
        d = parse_dump(out[2], n)
        if want == 0: raise Unknown()
        if want is not None:
            a, _, b_ = res.partition(' / ')
            if not a.startswith('ok'): self.fail('C17', line, res, 'the reply handler failed')
            got = b_.split(' #')[0]
            exp = f'{want[0]} ' + dict(pending='ok pending', leave='leave', panic='panic').get(want[1], 'ok ' + want[1])
            if not (got.startswith(exp) if want[1] == 'panic' else got.strip() == exp): self.fail('C17', line, res, f'expected the call to end as: {want[1]}')
        for t, x in compare(n, d, 'reply'): self.fail(t + ' C17', line, res, x)
        if self.bad: self.owes_more(m, n, d, line, res); raise Unknown()
        self.m = n
    def raw(self, tok, id, kind):
        n = self.m.clone(); n.booked(id, tok, kind); line = f'rawreply {tok} {id} {kind}'
        out = self.s.batch([line, self.dumpline()]); self.n += 1; self.log.append(('', line, out[0])); self.kinds['unsolicited'] = self.kinds.get('unsolicited', 0) + 1
        for t, x in compare(n, parse_dump(out[1], n), 'reply'): self.fail(t + ' C17', line, out[0], x)
        if self.bad: raise Unknown()
        self.m = n
    def solvent(self):
        for k, p in self.m.pools.items():
            l = sum(q[PL] for v in self.m.pos.values() for q in v if q[PK] == k and q[PLO] <= p[CUR] < q[PUP])
            if l != p[LIQ]: self.fail('C11 C13 C21', self.log[-1][1], self.log[-1][2], f'the active liquidity of pool {k} is {p[LIQ]}, the positions around its tick {p[CUR]} hold {l}'); raise Unknown()
            sp = k[3]
            if not pr(max(-MAXTICK, p[CUR])) <= p[SQ] <= (pr(p[CUR] + sp) if p[CUR] + sp <= MAXTICK else MAXP): self.fail('C19 C06 C07', self.log[-1][1], self.log[-1][2], f'the price {p[SQ]} of pool {k} is not at its tick {p[CUR]}'); raise Unknown()
        try: o = self.m.owed()
        except Unknown: return
        for t, x in o.items():
            if x > self.m.held.get(t, 0): self.fail('C21', self.log[-1][1], self.log[-1][2], f'{x} of token {t} are owed, {self.m.held.get(t, 0)} are there'); raise Unknown()
    # -- generating
    def fund(self, who, tok, x):
        if tok == 0:
            self.op('deposit_vara', [min(x, 2**127)], who)
        else:
            self.op('deposit_single_token', [tok, x], who)
            if self.m.tasks: self.reply(max(i for t in self.m.tasks.values() for i, _ in t['ids']), 'true')
    def rtick(self, k):
        r, sp = self.r, k[3]; cur = self.m.pools[k][CUR] if k in self.m.pools else 0
        lim = tick_limit(sp); c = r.randrange(12)
        if self.plain and r.random() < .85:      # few ticks, used again and again: positions meet at ticks
            if k not in self.palette: self.palette[k] = [cur // sp * sp + sp * x for x in sorted(r.sample(range(-8, 9) if r.random() < .7 else range(-400, 401), 4))] if sp else [0]
            return max(-lim, min(lim, r.choice(self.palette[k])))
        if c < 5: t = cur + sp * r.randrange(-12, 13)
        elif c < 7: t = cur + sp * r.randrange(-300, 301)
        elif c == 7:
            i = (cur + MAXTICK) // sp // 64 * 64 + r.choice([-64, -1, 0, 1, 63, 64, 127]); t = (i - MAXTICK // sp) * sp
        elif c == 8 and self.used.get(k): t = r.choice(self.used[k])
        elif c == 9 and self.used.get(k): t = r.choice(self.used[k]) + sp * r.choice([-1, 1])
        elif c == 10 and r.random() < .4: t = r.choice([-lim, lim, lim - sp, -lim + sp, 0])
        else: t = cur + sp * r.randrange(-40, 41)
        return max(-lim, min(lim, t))
    def rliq(self):
        r = self.r
        if self.plain and r.random() < .8: return self.liqs[r.randrange(len(self.liqs))]
        if self.extreme and r.random() < .2: return r.getrandbits(r.randrange(1, 250)) + 1
        return max(1, r.choice([1, 5, 10**5, 10**9, 10**11, 10**12, 10**14, 10**17, 10**20, 10**24]) * r.randrange(1, 1000) + r.randrange(-1, 2)) if r.random() < .9 else r.getrandbits(r.randrange(1, 110)) + 1
    def pickpool(self):
        ks_ = list(self.m.pools)
        if not ks_ or self.r.random() < .02: return sortkey(10, 11, (0, 1)) if self.r.random() < .5 else (11, 10, 0, 1)
        k = self.r.choice(ks_)
        return (k[1], k[0]) + k[2:] if self.r.random() < .02 else k
    def pickpos(self):
        r = self.r; c = [(w, i) for w, v in self.m.pos.items() for i in range(len(v))]
        if not c or r.random() < .1: return r.choice(ACCS), r.randrange(0, 4)
        return r.choice(c)
    def ramount(self, k, xy, bi):
        """aim at the neighbouring ticks: exactly reaching them, one unit more or less"""
        r = self.r; p = self.m.pools.get(k)
        if p and p[LIQ] and r.random() < .6:
            sp = k[3]; t = [x for (kk, x) in self.m.ticks if kk == k and (x <= p[CUR] if xy else x > p[CUR])]
            t = (max(t) if xy else min(t)) if t and r.random() < .8 else p[CUR] + sp * r.randrange(-6, 7)
            q = pr(max(-MAXTICK, min(MAXTICK, t))); v = dx(q, p[SQ], p[LIQ], bi) if xy == bi else dy(q, p[SQ], p[LIQ], bi)
            v = v or 0
            if bi: v = cdiv(v * E12, E12 - k[2])
            return max(0, min(W256 - 1, v + r.choice([0, 0, 1, -1, 2, r.randrange(-20, 21), v // 3, -v // 2, v])))
        return r.choice([0, 1, 2, 10, 1000, 10**6, 10**9, 10**12, 10**18]) * r.randrange(1, 100) if r.random() < .9 else r.getrandbits(r.randrange(1, 256))
    def rlimit(self, k, xy):
        r = self.r; p = self.m.pools.get(k); c = r.randrange(8)
        if c < 5 or not p: return MINP if xy else MAXP
        if c == 5: return pr(max(-MAXTICK, min(MAXTICK, p[CUR] + (-1 if xy else 1) * k[3] * r.randrange(0, 20))))
        if c == 6: return max(0, p[SQ] + (-1 if xy else 1) * r.getrandbits(r.randrange(1, 85)))
        return r.choice([0, p[SQ], MINP, MAXP, MAXP + 1, MINP - 1, 2**128 - 1, p[SQ] + 1, p[SQ] - 1])
    def hop(self):
        k = self.pickpool(); return [*k, self.r.randrange(2)]
    def around(self, k):
        r, sp = self.r, k[3]; cur = self.m.pools[k][CUR]; lim = tick_limit(sp); w = r.choice([3, 20, 200, 2000])
        lo, hi = max(-lim, cur - sp * r.randrange(0, w)), min(lim, cur + sp * r.randrange(1, w))
        if lo < hi: self.touch(k, lo, hi); self.op('create_position', [*k, lo, hi, self.rliq(), 0, 2**128 - 1])
    def ladder(self, k):
        """many positions in a row, then trades that cross as many of their ticks as there is liquidity for, there and back"""
        r, m, sp = self.r, self.m, k[3]; cur = m.pools[k][CUR]; lim = tick_limit(sp); gap = r.choice([1, 1, 2, 7, 63, 64, 65, 200]); n = r.choice([6, 12, 20, 40]); w = r.choice([1, 1, 2, 5])
        base = cur // sp - gap * r.randrange(0, n + 1); self.fund(r.choice(ACCS), k[0], 10**40); self.fund(r.choice(ACCS), k[1], 10**40)
        for i in range(n):
            lo = max(-lim, (base + gap * i) * sp); hi = min(lim, lo + gap * w * sp)
            if lo < hi:
                self.touch(k, lo, hi); x = self.m.pools[k]; l = r.choice([10**6, 10**9, 10**12]) * r.randrange(1, 50)
                self.op('create_position', [*k, lo, hi, l, 0, 2**128 - 1], max(ACCS, key=lambda a: min(m.bal.get((a, k[0]), 0), m.bal.get((a, k[1]), 0))))
        xy = r.randrange(2)
        for _ in range(r.choice([2, 3, 5])):
            xy = 1 - xy; bi = r.randrange(2); am = 10**r.choice([20, 26, 30]); q = None; lo = 0
            for _ in range(60):
                try: q = m.sim(k, bool(xy), am, bool(bi), MINP if xy else MAXP); lo = am; break
                except Unknown: return
                except Fail: am = max(1, am // 3)
            if q is None: continue
            hi = lo * 3
            for _ in range(r.choice([0, 4, 12])):
                mid = (lo + hi) // 2
                try: m.sim(k, bool(xy), mid, bool(bi), MINP if xy else MAXP); lo = mid
                except Unknown: return
                except Fail: hi = mid
            self.op('swap', [*k, xy, lo if r.random() < .7 else max(1, lo // r.choice([2, 5, 50])), bi, MINP if xy else MAXP], max(ACCS, key=lambda a: m.bal.get((a, k[0 if xy else 1]), 0)))
            if r.random() < .5: w, i = self.pickpos(); self.op(r.choice(['claim_fee', 'remove_position']), [i], w)
            self.solvent()
    pid = None; plain = False; focus = None
    def step(self):
        r, m = self.r, self.m; c = r.random()
        if self.focus and r.random() < .5: c = r.uniform(*r.choice(self.focus))
        pend = [i for t in m.tasks.values() for i, _ in t['ids'] if i not in t['got']]
        if pend and r.random() < .35: return self.reply(r.choice(pend), r.choice(KINDS))
        if c < .16:
            k = self.pickpool()
            if k not in m.pools: lo, hi = 0, 1
            else: lo, hi = sorted((self.rtick(k), self.rtick(k)))
            if r.random() < .04: lo, hi = hi, lo
            if r.random() < .03: lo += 1
            self.touch(k, lo, hi); sq = m.pools[k][SQ] if k in m.pools else E24
            sl, su = (0, 2**128 - 1) if r.random() < .9 else r.choice([(sq, sq), (sq + 1, W128 - 1), (0, sq - 1), (sq - 1, sq + 1)])
            l = self.rliq() if r.random() < .98 else 0
            if self.extreme and r.random() < .3: l = max_liq(k[3]) - r.choice([0, 1, 2]) - (m.ticks[(k, lo)][TGROSS] if (k, lo) in m.ticks else 0)
            return self.op('create_position', [*k, lo, hi, max(0, min(l, W256 - 1)), sl, su])
        if c < .24: w, i = self.pickpos(); return self.op('remove_position', [i], w)
        if c < .31: w, i = self.pickpos(); return self.op('claim_fee', [i], w)
        if c < .36: w, i = self.pickpos(); return self.op('transfer_position', [i, r.choice(ACCS)], w if r.random() < .9 else r.choice(ACCS))
        if c < .60:
            k = self.pickpool(); xy, bi = r.randrange(2), r.randrange(2)
            am, li, w = self.ramount(k, xy, bi), self.rlimit(k, xy), r.choice(ACCS)
            q = None
            if k in m.pools and r.random() < .8:      # mostly swaps that go through
                for _ in range(8):
                    try: q = m.sim(k, bool(xy), am, bool(bi), li); break
                    except Unknown: break
                    except Fail:
                        am = max(1, am // r.choice([2, 3, 10, 1000, 10**6])); q = None
                        if r.random() < .3: am, xy = self.ramount(k, 1 - xy, bi), 1 - xy; li = MINP if xy else MAXP
                if q:
                    rich = [a for a in ACCS if m.bal.get((a, k[0 if xy else 1]), 0) >= q['ain']]
                    if rich: w = r.choice(rich)
            return self.op('swap', [*k, xy, am, bi, li], w)
        if c < .66:
            hs = [self.hop() for _ in range(r.randrange(0, 4))]
            if len(hs) == 2 and r.random() < .7 and hs[0][4] in (0, 1):     # make the second hop follow the first
                out = hs[0][1 if hs[0][4] else 0]; c2 = [k for k in m.pools if out in k[:2]]
                if c2: k = r.choice(c2); hs[1] = [*k, int(k[0] == out)]
            am = self.ramount(tuple(hs[0][:4]), hs[0][4], 1) if hs else r.randrange(5)
            exp = 0; sl = r.choice([0, 0, E12 // 100, E12, E12 // 2, E12 // 10**4])
            try:
                x = am
                n = m.clone()
                for h in hs: q = n.sim(tuple(h[:4]), bool(h[4]), x, True, MINP if h[4] else MAXP); n.book_free(tuple(h[:4]), q); x = q['aout']
                exp = x if r.random() < .4 else max(0, x + r.choice([1, -1, 2, 100])) if sl == 0 else max(0, x * E12 // (E12 - sl) + r.choice([0, 1, 2, -1])) if sl < E12 else x + r.randrange(3)
            except (Fail, Unknown): pass
            return self.op('swap_route', [am, exp, sl, len(hs)] + [z for h in hs for z in h])
        if c < .70: 
            k = self.pickpool(); w = m.pools[k][RECV] if k in m.pools and r.random() < .7 else r.choice(ACCS)
            return self.op('withdraw_protocol_fee', [*k], w)
        if c < .72: return self.op('change_protocol_fee', [r.choice([0, 1, E12 // 100, E12 // 10, E12 // 2, 3 * E12 // 4, E12])], r.choice([ADMIN, r.choice(ACCS)]))
        if c < .74: return self.op(r.choice(['add_fee_tier', 'remove_fee_tier']), [r.choice([0, 6 * 10**9, 10**10, E12, E12 - 1]), r.choice([1, 2, 100, 0, 101])], r.choice([ADMIN, ADMIN, r.choice(ACCS)]))
        if c < .76: return self.op('change_fee_receiver', [*self.pickpool(), r.choice(ACCS)], r.choice([ADMIN, r.choice(ACCS)]))
        if c < .78: return self.newpool()
        if c < .80: return self.op('deposit_vara', [r.choice([0, 1, 10**12, 2**127])])
        if c < .82: return self.op('withdraw_vara', [r.choice([None, 0, 1, 10**6, 2**127, 2**200])])
        if c < .90:
            n = r.choice(['deposit_single_token', 'withdraw_single_token', 'deposit_token_pair', 'withdraw_token_pair']); w = r.choice(ACCS) if r.random() < .98 else PROGRAM
            def am(t):
                h = m.bal.get((w, t), 0); v = r.choice([0, 1, 10**6, 10**18, h, h, h // 2, h + 1, W256 - 1 - h, W256 - h])
                if n[0] == 'w' and r.random() < .3: return None
                return min(v, W256 - 1)
            tt = [r.choice(TOKS + [0] * (r.random() < .1)) for _ in range(2)]
            return self.op(n, [tt[0], am(tt[0])] if 'single' in n else [tt[0], am(tt[0]), tt[1], am(tt[1])], w)
        if c < .92: return self.raw(r.choice(TOKS), r.choice([m.msg + 5, max(1, m.msg - r.randrange(5))] if not m.aw else [m.msg + 5]), r.choice(['true', 'false', 'panic', 'junk']))
        return self.rquery()
    def newpool(self):
        r = self.r; f = r.choice(self.m.ft) if self.m.ft and r.random() < .95 else (0, 3)
        t = r.sample(TOKS, 2) if r.random() < .95 else [10, 10]
        if r.random() < .1: t[0] = 0
        c = r.randrange(10); sp = f[1]; lim = tick_limit(sp)
        it = 0 if c < 3 else r.randrange(-300, 300) * sp if c < 8 else r.choice([lim, -lim, lim - sp, sp - lim, lim - 3 * sp]) if c == 8 else r.randrange(-lim, lim)
        sq = (pr(it) or E24) if r.random() < .9 or abs(it) > MAXTICK else pr(it) + r.choice([-1, 1, 10**18, 10**20])
        k = sortkey(*t, f)
        if t[0] != t[1]: self.touch(k)
        return self.op('create_pool', [*t, *f, sq, it])
    def history(self, n):
        r, m = self.r, self.m
        pf = r.choice([0, E12 // 100, E12 // 10, E12 // 4, E12])
        m.reset(ADMIN, pf); self.log = []; self.used = {}; self.bad = []; self.palette = {}
        self.plain = False; self.liqs = [self.rliq() for _ in range(2)]; self.plain = r.random() < .5
        self.focus = FOCUS.get(self.pid) if r.random() < .6 else None
        self.s.one(f'init {PROGRAM} {ADMIN} {pf}'); self.log.append(('', f'init {PROGRAM} {ADMIN} {pf}', ''))
        self.used[(10, 11, 0, 1)] = []
        try:
            for _ in range(r.randrange(1, 3)): self.op('add_fee_tier', [r.choice([0, 10**8, 6 * 10**9, 10**10, 10**11, E12 // 2]), r.choice([1, 1, 2, 5, 10, 100])], ADMIN)
            for _ in range(r.randrange(1, 4)): self.newpool()
            for _ in range(4):
                if not self.m.pools: self.newpool()
            for w in ACCS:
                for t in TOKS + [0]:
                    if r.random() < .85: self.fund(w, t, r.choice([10**6, 10**18, 10**30, 10**36, 10**40, 10**40]) if not self.extreme else r.choice([10**40, 2**250, 2**254]))
            for k in list(self.m.pools):
                for _ in range(r.randrange(0, 4)): self.around(k)
                for _ in range(3 if r.random() < .9 else 0):
                    if not self.m.pools[k][LIQ]: self.around(k)
            if self.m.pools and r.random() < .12: self.ladder(r.choice(list(self.m.pools)))
            for _ in range(n): self.step(); self.solvent()
        except Unknown: pass
        return self.bad
def r_src(m, id):
    return next((tok for t in m.tasks.values() for i, tok in t['ids'] if i == id), 0)
def book_free(self, k, r):
    self.pools[k] = r['pool'][:]
    for t in r['ticks']: self.ticks[(k, t[TI])] = t[:]
Model.book_free = book_free

# ---------- queries
def lst(s): return [x for x in s.split(',') if x]
def rquery(self):
    r, m = self.r, self.m; Q = 'C23'
    n = r.choice(['quote', 'quote_route', 'get_protocol_fee', 'fee_tier_exists', 'get_fee_tiers', 'get_pool', 'get_pool_keys', 'get_position', 'get_tick', 'is_tick_initialized', 'get_all_positions', 'get_positions',
                  'get_position_with_associates', 'get_user_position_amount', 'get_liquidity_ticks_amount', 'get_all_pools_for_pair', 'get_user_balances', 'get_tickmap', 'get_liquidity_ticks', 'get_position_ticks'])
    k = self.pickpool(); w = r.choice(ACCS + [99]); v = m.pos.get(w, []); i = r.randrange(0, len(v) + 2)
    def tk(t): return [t[TI], t[TNET], t[TGROSS], t[TSQ], t[TFX], t[TFY], t[TSEC]]
    def nums(s): return list(map(int, s.split()))
    if n == 'quote':
        xy, bi = r.randrange(2), r.randrange(2); a = [*k, xy, self.ramount(k, xy, bi), bi, self.rlimit(k, xy)]
        try: e, t = m.q_quote(a)
        except Fail: return self.query(n, ks(a), None, 'C19')
        except Unknown: return
        def ok(s): p = s.split('|'); return p[0].strip() == e and [tick_norm(nums(x)) for x in lst(p[1].strip()) if x.strip()] == t
        return self.query(n, ks(a), ok, 'C19')
    if n == 'quote_route':
        hs = [self.hop() for _ in range(r.randrange(0, 3))]; a = [self.ramount(tuple(hs[0][:4]), hs[0][4], 1) if hs else 5, len(hs)] + [z for h in hs for z in h]
        try: return self.query(n, ks(a), m.q_quote_route(a), 'C20')
        except Fail: return self.query(n, ks(a), None, 'C20')
        except Unknown:
            if self.bad: raise
            return
    if n == 'get_protocol_fee': return self.query(n, '', str(m.pf), Q)
    if n == 'fee_tier_exists': f = r.choice(m.ft) if m.ft and r.random() < .6 else (r.choice([0, 10**10]), r.choice([1, 2])); return self.query(n, ks(f), str(int(f in m.ft)), Q)
    if n == 'get_fee_tiers': return self.query(n, '', lambda s: sorted(tuple(nums(x)) for x in lst(s)) == sorted(m.ft), Q)
    if n == 'get_pool':
        t = list(k[:2]); r.shuffle(t)
        kk = sortkey(*t, k[2:]) if t[0] != t[1] else None
        return self.query(n, ks([*t, *k[2:]]), pool_out(m.pools[kk]) if kk in m.pools else None, Q + ' C15')
    if n == 'get_pool_keys':
        size, off = r.choice([0, 1, 2, 3, 65535]), r.choice([0, 0, 1, 2, 5])
        if size + off > 65535: return
        def ok(s):
            a, c = s.split('|'); g = [tuple(nums(x)) for x in lst(a.strip())]
            return int(c) == len(m.keys) and len(set(g)) == len(g) == max(0, min(size, len(m.keys) - off)) and set(g) <= set(m.keys) and (off != 0 or size < len(m.keys) or sorted(g) == sorted(m.keys))
        return self.query(n, f'{size} {off}', ok, Q + ' C15')
    if n == 'get_position': return self.query(n, f'{w} {i}', pos_out(v[i]) if i < len(v) else None, Q + ' C14')
    if n in ('get_tick', 'is_tick_initialized'):
        if k[3] == 0: return
        t = self.rtick(k); e = m.ticks.get((k, t))
        if t % k[3] or abs(t) > tick_limit(k[3]): return
        if n == 'get_tick': return self.query(n, f'{ks(k)} {t}', (lambda s: tick_norm(nums(s)) == e) if e else None, Q)
        return self.query(n, f'{ks(k)} {t}', str(int(e is not None)), Q + ' C10')
    if n == 'get_all_positions': return self.query(n, str(w), lambda s: s == ','.join(map(pos_out, v)), Q + ' C14')
    if n == 'get_positions':
        size, off = r.choice([0, 1, 2, 3, 100]), r.choice([0, 0, 1, 2, 7])
        def ok(s):
            a, c = s.split('|'); got = {}
            for g in [x for x in a.strip().split('/') if x]:
                p, q = g.split(':')
                for e in q.split(','):
                    ix, po = e.split(' ', 1); ix = int(ix)
                    if ix in got or po != pos_out(v[ix]) or p != pool_out(m.pools[v[ix][PK]]): return False
                    got[ix] = p
            return int(c) == len(v) and sorted(got) == list(range(off, min(off + size, len(v))))
        return self.query(n, f'{w} {size} {off}', ok, Q + ' C14')
    if n == 'get_position_with_associates':
        if i >= len(v): return self.query(n, f'{w} {i}', None, Q)
        q = v[i]
        def ok(s):
            a = s.split(','); return a[0] == pos_out(q) and a[1] == pool_out(m.pools[q[PK]]) and tick_norm(nums(a[2])) == m.ticks[(q[PK], q[PLO])] and tick_norm(nums(a[3])) == m.ticks[(q[PK], q[PUP])]
        return self.query(n, f'{w} {i}', ok, Q)
    if n == 'get_user_position_amount': return self.query(n, str(w), str(len(v)), Q + ' C14')
    if n == 'get_liquidity_ticks_amount':
        if k[3] == 0: return
        return self.query(n, ks(k), str(sum(1 for kk, _ in m.ticks if kk == k)), Q)
    if n == 'get_all_pools_for_pair':
        t = list(k[:2]); r.shuffle(t)
        def ok(s): return sorted(tuple(nums(x)) for x in lst(s)) == sorted((*f, *m.pools[sortkey(*t, f)]) for f in m.ft if sortkey(*t, f) in m.pools)
        return self.query(n, ks(t), ok if t[0] != t[1] else None, Q) if m.ft else None
    if n == 'get_user_balances': return self.query(n, str(w), lambda s: {tuple(nums(x)) for x in lst(s) if nums(x)[1]} == {(t, x) for (ww, t), x in m.bal.items() if ww == w}, Q + ' C16')
    if n == 'get_tickmap':
        if k[3] == 0: return
        b_ = m.bits(); return self.query(n, ks(k), lambda s: sorted(tuple(nums(x)) for x in lst(s) if nums(x)[1]) == sorted((c, x) for (kk, c), x in b_.items() if kk == k), Q + ' C10')
    if n == 'get_liquidity_ticks':
        have = [t for kk, t in m.ticks if kk == k]; a = [r.choice(have) for _ in range(r.randrange(0, 4))] if have else []
        if r.random() < .1: a.append(self.rtick(k))
        if any((k, t) not in m.ticks for t in a): return self.query(n, f'{ks(k)} {len(a)} {ks(a)}', None, Q)
        def ok(s): g = [nums(x) for x in lst(s)]; return [(x[0], x[1] if x[2] else -x[1]) for x in g] == [(t, m.ticks[(k, t)][TNET]) for t in a]
        return self.query(n, f'{ks(k)} {len(a)} {ks(a)}', ok, Q)
    if n == 'get_position_ticks':
        off = r.choice([0, 0, 1, 2]); e = [m.ticks[(q[PK], t)] for q in v[off:] for t in (q[PLO], q[PUP])]
        return self.query(n, f'{w} {off}', lambda s: [nums(x) for x in lst(s)] == [[t[TI], t[TFX], t[TFY], t[TSEC]] for t in e], Q)
Hist.rquery = rquery

# the calls a property is about (ranges of the die in `step`), thrown more often in its own search
FOCUS = dict(C10=[(0, .24), (.36, .60)], C11=[(0, .24), (.36, .60), (.36, .60)], C12=[(.36, .72), (.24, .31)], C13=[(0, .31), (.36, .60)], C14=[(0, .24), (.31, .36)], C15=[(.72, .78), (0, .24)], C16=[(.78, .90), (.16, .31)],
             C17=[(.82, .92)], C18=[(.66, .78), (.16, .36)], C19=[(.36, .60)], C20=[(.60, .66)], C21=[(0, .36), (.36, .70), (.78, .92)], C23=[(.92, 1)])
# ---------- search
def worker(exe, seed, until, only, q):
    math = Line(exe); n = 0; kinds = {}; hist = 0; viol = None; i = 0; samples = []
    try:
        while time.time() < until and viol is None:
            h = Hist(exe, math, seed * 1000003 + i); i += 1; h.pid = next(iter(only)) if only else None
            bad = h.history(h.r.choice([15, 30, 60])); hist += 1; n += h.n
            for k, v in h.kinds.items(): kinds[k] = kinds.get(k, 0) + v
            if len(samples) < 1 and len(h.log) > 3: samples.append(f'{h.log[-2][1]} -> {h.log[-2][2][:160]}')
            for tags, call, got, why in bad:
                if only is None or tags & only or 'ALL' in tags:
                    lines = [x for e, l, _ in h.log for x in ((e, l) if e else (l,))]
                    viol = dict(call=call, result=got, wrong=why, tags=sorted(tags), history=lines); break
            h.s.close()
    except Exception as e:
        import traceback; q.put(dict(n=n, kinds=kinds, hist=hist, viol=viol, samples=samples, err=traceback.format_exc()[-1500:])); return
    math.close(); q.put(dict(n=n, kinds=kinds, hist=hist, viol=viol, samples=samples, err=None))
def search(exe, pid, seed, budget, procs=None):
    prices(); t0 = time.time(); procs = procs or min(8, os.cpu_count() or 4); q = mp.Queue(); only = {pid} if pid else None
    ps = [mp.Process(target=worker, args=(exe, seed * 64 + j, t0 + budget, only, q)) for j in range(procs)]
    for p in ps: p.start()
    rs = []
    for _ in ps:
        try: rs.append(q.get(timeout=budget + 60))
        except Exception: break
    for p in ps: p.join(5); p.kill()
    kinds = {}; viol = []
    for r in rs:
        for k, v in r['kinds'].items(): kinds[k] = kinds.get(k, 0) + v
        if r['viol']: viol.append(r['viol'])
    return dict(evaluations=sum(r['n'] for r in rs), distinct_nontrivial=sum(r['n'] for r in rs), histories=sum(r['hist'] for r in rs), kinds=kinds, violations=viol[:3], samples=[s for r in rs for s in r['samples']][:3], wall=round(time.time() - t0, 2), errors=[r['err'] for r in rs if r['err']])

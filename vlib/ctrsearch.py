"""Bounded searches over the contract crate's own structures (ticks, pools, positions, tick map, registries, ledger)
against small reference models in unbounded integers.  Extends mathsearch."""
from .mathsearch import *
from . import mathsearch as M, svcsearch as S
from .ticksearch import *
from .oracle import *
from .svcsearch import (Fail, Unknown, LIQ, SQ, CUR, FGX, FGY, FPX, FPY, START, LAST, RECV, TI, TNET, TGROSS, TSQ, TFX, TFY, TSEC, PK, PL, PLO, PUP, PFX, PFY, PBN, POX, POY,
                        W128, W256, W64, tick_norm, add_fee, cross, new_tick, amounts, fee_due, max_liq, search_limit, tick_limit, sortkey)
MINT = -MAXTICK
def ints(a): return [int(x) for x in a]
class Toks:
    def __init__(self, a): self.a = ints(a); self.i = 0
    def n(self, k=1):
        v = self.a[self.i:self.i + k]; self.i += k; return v if k > 1 else v[0]
    def tick(self): return tick_norm(self.n(8))
    def pool(self): return self.n(10)
    def pos(self): v = self.n(12); return [tuple(v[:4])] + v[4:]
def refused(res): return res in ('err', 'panic')
def outs(res, spec):
    """numbers of an answer cut into the listed structures"""
    t = Toks(res[3:].split()); o = []
    for c in spec: o.append(t.tick() if c == 't' else t.pool() if c == 'p' else t.pos() if c == 'q' else t.n())
    return o
NAMES = dict(t=['index', 'net liquidity', 'gross liquidity', 'price', 'outside x', 'outside y', 'seconds outside'],
             p=['liquidity', 'price', 'current tick', 'fee growth x', 'fee growth y', 'protocol fee x', 'protocol fee y', 'start', 'last change', 'fee receiver'],
             q=['pool key', 'liquidity', 'lower tick', 'upper tick', 'fee counter x', 'fee counter y', 'block', 'owed x', 'owed y'])
def against(res, spec, f):
    """f() gives the expected structures, raises Fail when the call has to be refused, Unknown when either is fine"""
    try: want = f()
    except Fail as e: return None if refused(res) else f'accepted although it has to be refused ({e})'
    except Unknown: return None
    if refused(res): return 'refused although nothing speaks against it'
    got = outs(res, spec)
    for c, g, w in zip(spec, got, want):
        if g != w and w is not None:
            if c in NAMES: return '; '.join(f'{n} is {x}, expected {y}' for n, x, y in zip(NAMES[c], g, w) if x != y)
            return f'{g} where {w} is expected'
    return None
def limit256(*v):
    if any(not 0 <= x < W256 for x in v): raise Fail('overflow')

# ---------- judges: ticks, pools, positions
def j_tick_create(a, res):
    t = Toks(a); i, p, now = t.n(), t.pool(), t.n()
    def f():
        if pr(i) is None: raise Fail('tick')
        return [new_tick(i, p, now)]
    return against(res, 't', f)
def j_tick_cross(a, res):
    t = Toks(a); k, p, now = t.tick(), t.pool(), t.n()
    def f(): cross(k, p, now); return k, p
    return against(res, 'tp', f)
def upd(k, d, mx, upper, dep):
    g = k[TGROSS] + d if dep else k[TGROSS] - d
    if g < 0 or dep and g >= mx: raise Fail('gross liquidity')
    limit256(g); k[TGROSS] = g; k[TNET] += d if dep ^ upper else -d; limit256(abs(k[TNET]))
def j_tick_update(a, res):
    t = Toks(a); k = t.tick(); d, mx, u, dep = t.n(4)
    def f(): upd(k, d, mx, bool(u), bool(dep)); return [k]
    return against(res, 't', f)
def j_pool_create(a, res):
    sq, i, now, sp, rc = ints(a)
    def f():
        if abs(i) > MAXTICK or sp == 0: raise Unknown() if sp == 0 else Fail('tick')
        if i + sp > MAXTICK: ok = sq == pr(trunc_tick(sp))
        else: ok = pr(i) <= sq < pr(i + sp)
        if not ok: raise Fail('price')
        return [[0, pr(i), i, 0, 0, 0, 0, now, now, rc]]
    return against(res, 'p', f)
def j_add_fee(a, res):
    t = Toks(a); p = t.pool(); am, x, pf = t.n(3)
    def f():
        if cdiv(am * pf, E12) >= W256: raise Fail('share')
        add_fee(p, am, bool(x), pf); return [p]
    return against(res, 'p', f)
def liq(p, d, add, up, lo):
    x, y, act = amounts(p[CUR], p[SQ], d, add, lo, up)
    if act: p[LIQ] += d if add else -d; limit256(p[LIQ])
    return x, y
def j_pool_liq(a, res):
    t = Toks(a); p = t.pool(); d, add, up, lo = t.n(4)
    def f():
        if abs(up) > MAXTICK or abs(lo) > MAXTICK: raise Unknown()
        x, y = liq(p, d, bool(add), up, lo); return x, y, p
    return against(res, 'nnp', f)
def j_withdraw_pf(a, res):
    p = ints(a); q = p[:]; q[FPX] = q[FPY] = 0
    return against(res, 'nnp', lambda: (p[FPX], p[FPY], q))
def j_update_tick(a, res):
    a = list(a); p = ints(a[:10]); nx_, ain, aout, fee_, lim = ints(a[10:15]); kind = a[15]; i = 16
    k = un = None
    if kind == 'un': un = int(a[16]); i = 17
    elif kind != 'none': k = tick_norm(ints(a[16:24])); i = 24
    rem, bi, xy, now, pf, f, sp = ints(a[i:i + 7])
    o = p[:]; ko = k[:] if k else None
    def go():
        tot, left, cr = 0, rem, False
        if kind == 'none' or lim != nx_:
            if not MINP <= nx_ <= MAXP: raise Fail('price')
            t = greatest_tick(nx_, sp); p[CUR] = min(t, p[CUR]) if xy else t; return tot, left, cr
        if p[LIQ] == 0: en = True
        else:
            if bi:
                if f > E12: raise Fail('fee')
                x = rem * (E12 - f) // E12; bad = M.nin_bad(nx_, p[LIQ], x, bool(xy)) or rem * (E12 - f) >= 2**512; w = M.nin(nx_, p[LIQ], x, bool(xy))
            else: bad = M.nout_bad(nx_, p[LIQ], rem, bool(xy)); w = M.nout(nx_, p[LIQ], rem, bool(xy))
            if bad: raise Unknown()
            en = w != nx_
        at = k[TI] if k else un
        if k:
            if not xy or en: cross(k, p, now); cr = True
            elif rem:
                if bi: add_fee(p, rem, bool(xy), pf); tot = rem
                left = 0
        p[CUR] = at - sp if xy and en else at
        return tot, left, cr
    try: want = go()
    except Fail: return None if refused(res) else 'accepted although it has to be refused'
    except Unknown: return None
    if refused(res): return 'refused although nothing speaks against it'
    v = res[3:].split(); got = (int(v[0]), int(v[1]), v[2] == '1')
    if got != want: return f'(added to the input, left, crossed) is {got}, expected {want}'
    q = ints(v[3:13])
    if q != p: return '; '.join(f'{n} is {x}, expected {y}' for n, x, y in zip(NAMES['p'], q, p) if x != y)
    if k:
        g = tick_norm(ints(v[14:22]))
        if g != k: return 'tick: ' + '; '.join(f'{n} is {x}, expected {y}' for n, x, y in zip(NAMES['t'], g, k) if x != y)
    return None
def grow(q, p, u, l):
    for prev, owed, gl, o in ((PFX, POX, FGX, TFX), (PFY, POY, FGY, TFY)):
        g = inside(l[TI], l[o], u[TI], u[o], p[CUR], p[gl]); d = (g - q[prev]) % W128 * q[PL] // E5 // E28
        if d >= W256: raise Fail('fee')
        q[prev] = g; q[owed] += d; limit256(q[owed])
def modify(q, p, u, l, d, add, now, sp):
    p[LAST] = now
    if sp == 0: raise Fail('spacing')
    upd(l, d, max_liq(sp), False, add); upd(u, d, max_liq(sp), True, add)
    if d == 0 and q[PL] == 0: raise Fail('empty')
    grow(q, p, u, l); q[PL] += d if add else -d; limit256(q[PL])
    if abs(u[TI]) > MAXTICK or abs(l[TI]) > MAXTICK: raise Unknown()
    return liq(p, d, add, u[TI], l[TI])
def j_pos_modify(a, res):
    t = Toks(a); q, p, u, l = t.pos(), t.pool(), t.tick(), t.tick(); d, add, now, sp = t.n(4)
    def f(): x, y = modify(q, p, u, l, d, bool(add), now, sp); return x, y, q, p, u, l
    return against(res, 'nnqptt', f)
def j_pos_claim(a, res):
    t = Toks(a); q, p, u, l, now = t.pos(), t.pool(), t.tick(), t.tick(), t.n()
    def f():
        modify(q, p, u, l, 0, True, now, q[PK][3]); x, y = q[POX], q[POY]; q[POX] = q[POY] = 0; return x, y, q, p, u, l
    return against(res, 'nnqptt', f)
def j_pos_create(a, res):
    t = Toks(a); k = tuple(t.n(4)); p, u, l = t.pool(), t.tick(), t.tick(); now, d, sl, su, bn, sp = t.n(6)
    def f():
        if not sl <= p[SQ] <= su: raise Fail('price limit')
        q = [k, 0, l[TI], u[TI], 0, 0, bn, 0, 0]; x, y = modify(q, p, u, l, d, True, now, sp); return x, y, q, p, u, l
    return against(res, 'nnqptt', f)
def j_pos_remove(a, res):
    t = Toks(a); q, p, u, l = t.pos(), t.pool(), t.tick(), t.tick(); now, sp = t.n(2)
    def f():
        x, y = modify(q, p, u, l, q[PL], False, now, sp); x += q[POX]; y += q[POY]; limit256(x, y)
        return x, y, int(l[TGROSS] == 0), int(u[TGROSS] == 0), p, u, l
    return against(res, 'nnnnptt', f)
def j_pos_update(a, res):
    t = Toks(a); q = t.pos(); add, d, gx, gy = t.n(4)
    def f():
        if d == 0 and q[PL] == 0: raise Fail('empty')
        for prev, owed, g in ((PFX, POX, gx), (PFY, POY, gy)):
            due = (g - q[prev]) % W128 * q[PL] // E5 // E28
            if due >= W256: raise Fail('fee')
            q[prev] = g; q[owed] += due; limit256(q[owed])
        q[PL] += d if add else -d; limit256(q[PL]); return [q]
    return against(res, 'q', f)
# ---------- judges: keys, tick map
def j_poolkey(a, res):
    x, y, f, sp = ints(a)
    if x == y: return None if refused(res) else 'a pool of one token with itself accepted'
    w = sortkey(x, y, (f, sp)); return None if res == 'ok ' + ' '.join(map(str, w)) else f'expected {w}'
def j_feetier(a, res):
    f, sp = ints(a)
    if not 1 <= sp <= 100 or f > E12: return None if refused(res) else 'invalid fee tier accepted'
    if f == E12 and refused(res): return None
    return None if res == f'ok {f} {sp}' else f'expected {f} {sp}'
def j_search_limit(a, res):
    t, sp, up = ints(a)
    if sp == 0 or abs(t) > 2**31 - 2**18: return None
    w = search_limit(t, sp, bool(up)); return None if res == f'ok {w}' else f'expected {w}'
def j_t2p(a, res):
    t, sp = ints(a)
    if sp == 0 or abs(t) > MAXTICK or t % sp: return None if refused(res) else 'a tick no position belongs to was accepted'
    i = (t + MAXTICK) // sp; return None if i // 64 > 65535 or res == f'ok {i // 64} {i % 64}' else f'expected {i // 64} {i % 64}'
def j_p2t(a, res):
    c, b_, sp = ints(a)
    if sp == 0: return None if refused(res) else 'spacing 0 accepted'
    t = (c * 64 + b_) * sp - MAXTICK // sp * sp
    return None if abs(t) > 2**30 or res == f'ok {t}' else f'expected {t}'
def j_max_chunk(a, res):
    sp = int(a[0])
    if sp == 0: return None
    w = (MAXTICK // sp * sp + MAXTICK) // sp // 64; return None if res == f'ok {w}' else f'expected {w}'
def cmds(a): return [x.split() for x in ' '.join(a).split(';') if x.strip()]
def j_tm(a, res):
    c = cmds(a); sp = int(c[0][0]); st = {}
    if refused(res): # only an illegal flip or a tick outside the map may stop the line: the generator makes it the last one
        for o in c[1:]:
            n, v = o[0], ints(o[1:])
            if n == 'flip':
                on = (v[0], v[2]) in st
                if on == bool(v[1]) or v[2] % sp or abs(v[2]) > MAXTICK: return None
                if on: del st[(v[0], v[2])]
                else: st[(v[0], v[2])] = 1
            elif n == 'get' and (v[1] % sp or abs(v[1]) > MAXTICK): return None
        return 'refused although nothing speaks against it'
    for o, r in zip(c[1:], res[3:].split(';')):
        n, v = o[0], ints(o[1:])
        if n == 'flip':
            on = (v[0], v[2]) in st
            if v[2] % sp or abs(v[2]) > MAXTICK: return f'{" ".join(o)}: a tick outside the map accepted'
            if on == bool(v[1]): return f'{" ".join(o)}: the tick already was in that state'
            if on: del st[(v[0], v[2])]
            else: st[(v[0], v[2])] = 1
            continue
        if n == 'limit': p, lim, xy, t = v
        else: p, t = v
        if n == 'get':
            if r != str(int((p, t) in st)): return f'{" ".join(o)} -> {r}: expected {int((p, t) in st)}'
            continue
        up = not xy if n == 'limit' else n == 'next'
        end = search_limit(t, sp, up)
        if up: best = min([x for q, x in st if q == p and t < x <= end], default=None)
        else: best = max([x for q, x in st if q == p and end <= x <= t], default=None)
        if n != 'limit':
            w = 'none' if best is None else str(best)
            if r != w: return f'{" ".join(o)} -> {r}: expected {w}'
            continue
        if best is None:
            if end == t:
                if r != 'err': return f'{" ".join(o)} -> {r}: no tick is left in that direction'
                continue
            best, init = end, 0
        else: init = 1
        pp = pr(best); e = [f'{pp} {best} {init}'] if (pp > lim if xy else pp < lim) else [f'{lim} none']
        if pp == lim: e = [f'{pp} {best} {init}'] + ([f'{lim} none'] if xy or not init else [])
        if r not in e: return f'{" ".join(o)} -> {r}: expected {e[0]}'
    return None
# ---------- judges: registries
def j_positions(a, res):
    m = {}
    if refused(res): return 'the registry refused a whole history'
    for o, r in zip(cmds(a), res[3:].split(';')):
        n, v = o[0], ints(o[1:]); l = m.setdefault(v[0], []); e = None
        if n == 'add': l.append(v[1]); w = 'ok'
        elif n == 'len': w = str(len(l))
        elif n == 'all': w = ','.join(map(str, l))
        elif n == 'sli': w = ','.join(map(str, l[v[1]:v[1] + v[2]]))
        elif v[1] >= len(l): w = None
        elif n == 'upd': l[v[1]] = v[2]; w = 'ok'
        elif n == 'get': w = str(l[v[1]])
        elif n in ('rem', 'tra'):
            x = l[v[1]]; last = l.pop()
            if v[1] < len(l): l[v[1]] = last
            if n == 'tra': m.setdefault(v[2], []).append(x); w = 'ok'
            else: w = str(x)
        if (not r.startswith('e')) if w is None else r != w: return f'{" ".join(o)} -> {r}: expected {w or "an error"}'
    return None
def j_registry(a, res):
    ps, ks_, fs, ts = {}, [], [], {}; kf = False
    if refused(res): return 'the registry refused a whole history'
    for o, r in zip(cmds(a), res[3:].split(';')):
        n, v = o[0], ints(o[1:]); k = tuple(v[:4]); w = None
        if n == 'padd':
            if k not in ps: ps[k] = v[4]; w = 'ok'
        elif n == 'pupd':
            if k in ps: ps[k] = v[4]; w = 'ok'
        elif n == 'prem':
            if k in ps: del ps[k]; w = 'ok'
        elif n == 'pget': w = str(ps[k]) if k in ps else None
        elif n == 'kadd':
            if k not in ks_: ks_.append(k); w = 'ok'
        elif n == 'krem':
            if k in ks_: ks_.remove(k); kf = True; w = 'ok'
        elif n == 'khas': w = str(int(k in ks_))
        elif n == 'kidx':
            if kf and k in ks_:   # after a removal the order is free, the numbers still have to be those of a gapless list
                if not r.isdigit() or int(r) >= len(ks_): return f'{" ".join(o)} -> {r}: expected an index below {len(ks_)}'
                continue
            w = 'none' if k not in ks_ else str(ks_.index(k))
        elif n == 'kcnt': w = str(len(ks_))
        elif n == 'kall':
            size, off = v; w = ','.join(' '.join(map(str, x)) for x in ks_[off:off + size])
            got = [x for x in r.split(',') if x]
            if sorted(got) != sorted(x for x in w.split(',') if x) and not (len(got) == len(set(got)) == max(0, min(size, len(ks_) - off)) and set(got) <= {' '.join(map(str, x)) for x in ks_}): return f'{" ".join(o)} -> {r}: expected {w}'
            continue
        elif n == 'fadd':
            if tuple(v[:2]) not in fs: fs.append(tuple(v[:2])); w = 'ok'
        elif n == 'frem':
            if tuple(v[:2]) in fs: fs.remove(tuple(v[:2])); w = 'ok'
        elif n == 'fhas': w = str(int(tuple(v[:2]) in fs))
        elif n == 'fall':
            if sorted(x for x in r.split(',') if x) != sorted('%d %d' % x for x in fs): return f'{" ".join(o)} -> {r}: expected {fs}'
            continue
        elif n == 'tadd':
            if (k, v[4]) not in ts: ts[(k, v[4])] = v[5]; w = 'ok'
        elif n == 'tupd':
            if (k, v[4]) in ts: ts[(k, v[4])] = v[5]; w = 'ok'
        elif n == 'trem':
            if (k, v[4]) in ts: del ts[(k, v[4])]; w = 'ok'
        elif n == 'tget': w = f'{v[4]} {ts[(k, v[4])]}' if (k, v[4]) in ts else None
        if (not r.startswith('e')) if w is None else r != w: return f'{" ".join(o)} -> {r}: expected {w or "an error"}'
    return None
def j_ledger(a, res):
    b_ = {}
    if refused(res): return 'the ledger refused a whole history'
    out = res[3:].split(';') if res != 'ok' else []
    for i, o in enumerate(cmds(a)):
        n, v = o[0], ints(o[1:]); k = (v[0], v[1]); have = b_.get(k); r, bal = out[2 * i], out[2 * i + 1]; w = None
        if n == 'inc':
            if (have or 0) + v[2] < W256:
                w = 'ok'
                if v[2]: b_[k] = (have or 0) + v[2]
        elif n == 'can': w = str(int((have or 0) + v[2] < W256))
        elif n == 'dec':
            if v[2] == 0: w = '0'
            elif have is not None and have >= v[2]: w = str(v[2]); b_[k] = have - v[2]
        elif n == 'all':
            if have is not None: w = str(have); b_[k] = 0
            else: w = '0' if r == '0' else None
        b_ = {x: y for x, y in b_.items() if y}
        if (not r.startswith('e')) if w is None else r != w: return f'{" ".join(o)} -> {r}: expected {w or "an error"}'
        got = {tuple(ints(x.split()[:2])): int(x.split()[2]) for x in bal.split(',') if x}
        if {x: y for x, y in got.items() if y} != b_: return f'after {" ".join(o)} the balances are {bal}, expected {b_}'
    return None

# ---------- generators
def rpool(r, sp=1):
    t = r.choice([0, r.randrange(-200, 200), r.randrange(-MAXTICK, MAXTICK), MAXTICK, MINT]); t = t // sp * sp
    t = max(-tick_limit(sp), min(tick_limit(sp), t)); lo = pr(t); hi = pr(t + sp) or MAXP
    sq = r.choice([lo, lo, max(lo, hi - 1), r.randrange(lo, max(lo + 1, hi))])
    if r.random() < .05: sq = num(r, 128)
    g = lambda: r.choice([0, 1, W128 - 1, num(r, 128), num(r, 90)])
    return [r.choice([0, 1, num(r, 256), num(r, 100), num(r, 60)]), sq, t, g(), g(), r.choice([0, num(r, 256), num(r, 64)]), r.choice([0, num(r, 256), num(r, 64)]), 100, 200, 7]
def rtickrec(r, i, p=None):
    g = lambda: r.choice([0, 1, W128 - 1, num(r, 128), p[FGX] if p else 5])
    gross = r.choice([0, 1, num(r, 256), num(r, 100), num(r, 60)])
    return [i, r.randrange(2), min(gross, num(r, 250)) if r.random() < .8 else gross, gross, pr(i) or E24, g(), g(), r.choice([0, 1, W64 - 1, num(r, 64), 50])]
def ts(*v): return ' '.join(' '.join(map(str, x)) if isinstance(x, (list, tuple)) else str(x) for x in v)
def nowr(r): return r.choice([100, 100, 150, 10**9, W64 - 1, r.randrange(0, 300)])
def rfeep(r): return r.choice([0, 1, E12, E12 - 1, E12 // 100, E12 // 3, r.randrange(0, E12 + 1), num(r, 64)])
def near_tick(r, c, sp): return max(MINT, min(MAXTICK, r.choice([c, c, c + sp, c - sp, r.randrange(MINT, MAXTICK + 1) // sp * sp])))
def gen_ticks(r):
    while True:
        sp = r.choice([1, 1, 2, 5, 10, 100]); p = rpool(r, sp); i = near_tick(r, p[CUR], sp); k = rtickrec(r, i, p)
        yield f'tick_create {i if r.random() < .95 else r.choice([MAXTICK + 1, MINT - 1, 2**31 - 1])} {ts(p)} {nowr(r)}'
        if r.random() < .5: k[2] = min(k[2], p[LIQ])
        yield f'tick_cross {ts(k, p)} {nowr(r)}'
        d = r.choice([0, 1, num(r, 256), k[2], k[3], max(0, k[2] - 1), k[2] + 1, k[3] + 1]); d = min(d, W256 - 1); mx = r.choice([max_liq(sp), max_liq(sp), min(W256 - 1, k[3] + d), min(W256 - 1, k[3] + d + 1)])
        yield f'tick_update {ts(k)} {d} {mx} {r.randrange(2)} {r.randrange(2)}'
def gen_pools(r):
    while True:
        sp = r.choice([1, 1, 2, 5, 10, 100]); p = rpool(r, sp)
        am = r.choice([0, 1, num(r, 256), num(r, 100), num(r, 60)])
        yield f'add_fee {ts(p)} {am} {r.randrange(2)} {rfeep(r)}'
        if r.random() < .2: yield f'withdraw_pf {ts(p)}'
        i = near_tick(r, p[CUR], sp); nx_ = pr(i); lim = nx_ if r.random() < .7 else r.choice([nx_ - 1, nx_ + 1, num(r, 128)])
        if r.random() < .2: nx_ = max(MINP, min(MAXP, price(r))); lim = r.choice([nx_, nx_ + 1])
        q = p[:]; q[SQ] = nx_
        if r.random() < .5: q[LIQ] = r.choice([num(r, 90), 10**r.randrange(5, 40)])
        k = rtickrec(r, i, q)
        if r.random() < .7: k[2] = min(k[2], q[LIQ])
        t = r.choice(['none', f'un {i}', f'in {ts(k)}', f'in {ts(k)}'])
        rem = r.choice([0, 1, 5, num(r, 256), num(r, 60), num(r, 30)]); bi, xy = r.randrange(2), r.randrange(2)
        if nx_ * 1 and q[LIQ] and r.random() < .3: rem = max(0, min(W256 - 1, q[LIQ] * (nx_ if not xy else 1) // (E24 * E24 * E5) + r.randrange(-1, 3)))
        yield f'update_tick {ts(q)} {nx_} 0 0 0 {lim} {t} {rem} {bi} {xy} {nowr(r)} {rfeep(r)} {r.choice([0, 10**10, E12 // 2, E12])} {sp}'
def gen_positions_math(r):
    while True:
        sp = r.choice([1, 1, 2, 5, 10, 100]); p = rpool(r, sp)
        lo = near_tick(r, p[CUR], sp); hi = near_tick(r, lo, sp * r.randrange(1, 50)); 
        if lo > hi and r.random() < .97: lo, hi = hi, lo
        l, u = rtickrec(r, lo, p), rtickrec(r, hi, p)
        L = r.choice([0, 1, num(r, 60), num(r, 100), num(r, 128), num(r, 200)]); d = r.choice([L, L, L // 2, 0, 1, num(r, 100)])
        if r.random() < .8:
            for t in (l, u): t[3] = max(t[3] % max_liq(sp) // 2, L, d) + r.randrange(0, 3); t[2] = min(t[2], t[3])
        p[LIQ] = max(p[LIQ] // 2, d)
        def g(t, k): return t
        gx = inside(lo, l[5], hi, u[5], p[CUR], p[FGX]); gy = inside(lo, l[6], hi, u[6], p[CUR], p[FGY])
        fx, fy = [(g_ - r.choice([0, 1, num(r, 60), num(r, 100)])) % W128 if r.random() < .8 else num(r, 128) for g_ in (gx, gy)]
        k = (1, 2, 10**10, sp); q = [*k, L, lo, hi, fx, fy, r.randrange(100), r.choice([0, num(r, 60), num(r, 256)]), r.choice([0, num(r, 60), 5])]
        c = r.randrange(7); now = nowr(r)
        if c == 0: yield f'pos_modify {ts(q, p, u, l)} {d} {r.randrange(2)} {now} {sp}'
        elif c == 1: yield f'pos_claim {ts(q, p, u, l)} {now}'
        elif c <= 3:
            sl, su = r.choice([(0, W128 - 1), (0, W128 - 1), (p[SQ], p[SQ]), (min(W128 - 1, p[SQ] + 1), W128 - 1), (0, max(0, p[SQ] - 1))]); yield f'pos_create {ts(k, p, u, l)} {now} {d} {sl} {su} {r.randrange(1000)} {sp}'
        elif c <= 5: yield f'pos_remove {ts(q, p, u, l)} {now} {sp}'
        else: yield f'pos_update {ts(q)} {r.randrange(2)} {d} {gx} {gy}'
        if r.random() < .2: yield f'pool_liq {ts(p)} {d} {r.randrange(2)} {hi} {lo}'
        if r.random() < .2: t = near_tick(r, p[CUR], sp); yield f'pool_create {r.choice([pr(t), pr(t), pr(t) + 1, max(0, pr(t) - 1), (pr(t + sp) if t + sp <= MAXTICK else MAXP) - 1, pr(min(MAXTICK, t + sp))])} {t if r.random() < .95 else r.choice([MAXTICK + 1, MINT - 1])} 77 {sp} {r.randrange(9)}'
def gen_tickmap(r):
    while True:
        sp = r.choice([1, 1, 1, 2, 3, 5, 7, 10, 60, 100, r.randrange(1, 101)]); lim = tick_limit(sp); line = [f'tm {sp}']; st = set()
        c = r.choice([0, r.randrange(-lim, lim) // sp * sp, lim, -lim, r.randrange(-5, 5) * 64 * sp, (MAXTICK // sp % 64) * sp]); c = max(-lim, min(lim, c)); w = r.choice([2, 20, 70, 260, 300, 600])
        # positions of the bitmap's chunk borders around c
        def tk():
            k = r.randrange(5)
            if k == 0:
                i = (c // sp + MAXTICK // sp) // 64 * 64 + 64 * r.randrange(-5, 6) + r.choice([0, 63, 64, 1, 62]); t = (i - MAXTICK // sp) * sp
            elif k == 1: t = c + sp * r.choice([0, 1, -1, 255, 256, 257, -255, -256, -257])
            else: t = c + sp * r.randrange(-w, w + 1)
            return max(-lim, min(lim, t))
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            p, t = r.randrange(2), tk(); on = (p, t) in st
            line.append(f'flip {p} {int(not on)} {t}'); st ^= {(p, t)}
        for _ in range(r.choice([3, 8])):
            p, t = r.randrange(2), tk(); k = r.randrange(6)
            if k == 0: line.append(f'get {p} {t}')
            elif k == 1: line.append(f'next {p} {t}')
            elif k == 2: line.append(f'prev {p} {t}')
            elif k == 5 and r.random() < .5: on = (p, t) in st; line.append(f'flip {p} {int(not on)} {t}'); st ^= {(p, t)}
            else:
                xy = r.randrange(2); o = tk(); lp = r.choice([pr(o), pr(o), pr(o) + 1, pr(o) - 1, MINP, MAXP, 0, W128 - 1]); line.append(f'limit {p} {lp} {xy} {t}')
        if r.random() < .05:
            p, t = r.randrange(2), tk(); line.append(r.choice([f'flip {p} {int((p, t) in st)} {t}', f'flip {p} 1 {r.choice([lim + sp, -lim - sp])}'] + ([f'flip {p} 1 {t + 1}'] if sp > 1 else [])))
        yield ' ; '.join(line)
        if r.random() < .3:
            t = tk(); yield f'search_limit {t if r.random() < .8 else t + r.randrange(-sp, sp + 1)} {sp} {r.randrange(2)}'; yield f't2p {t if r.random() < .9 else r.choice([t + 1, MAXTICK, MINT, lim + sp])} {sp}'
            i = r.randrange(0, 2 * (MAXTICK // sp) + 1); yield f'p2t {i // 64} {i % 64} {sp}'; yield f'max_chunk {r.randrange(1, 101)}'
def long_poslists(n):
    line = [f'add {w} {w * 1000 + i}' for i in range(n) for w in (1, 2)]; look = [i for i in (n - 1, n - 2, 512, 511, 257, 256, 255, 128, 127, 1, 0) if i < n]
    line += ['len 1', 'all 1', f'sli 1 {n - 20} 60', f'sli 1 0 {n}'] + [f'get 1 {i}' for i in look] + [f'upd 1 {i} {90000 + i}' for i in look] + [f'tra 1 {i} 2' for i in look[:4]] + ['len 2', 'all 2'] + [f'rem 2 {i}' for i in look] + [f'tra 2 {i} 2' for i in look] + ['all 1', 'all 2', 'len 1', 'len 2']
    line += [f'rem 1 {i % 3}' for i in range(n - 7)] + ['all 1', 'len 1', 'add 1 7', 'all 1']
    return 'positions ' + ' ; '.join(line)
def gen_poslists(r):
    yield long_poslists(300); yield long_poslists(600)
    while True:
        acc = r.choice([[1], [1, 2], [1, 2, 3, 2**40]]); L = {a: 0 for a in acc}; line = []; n = 0
        for _ in range(r.choice([3, 10, 40])):
            w = r.choice(acc); l = L[w]; i = r.choice([0, l - 1, l, r.randrange(0, l + 1)]); i = max(i, 0); n += 1; k = r.randrange(10)
            if k < 4: line.append(f'add {w} {n}'); L[w] += 1
            elif k == 4: line.append(f'upd {w} {i} {n}')
            elif k == 5:
                line.append(f'rem {w} {i}'); L[w] -= i < l
            elif k == 6:
                t = r.choice(acc + [9]); line.append(f'tra {w} {i} {t}')
                if i < l: L[w] -= 1; L[t] = L.get(t, 0) + 1
            elif k == 7: line.append(f'get {w} {i}')
            elif k == 8: line.append(f'sli {w} {i} {r.choice([0, 1, 2, 5])}')
            else: line.append(f'len {w}')
            if r.random() < .3: x = r.choice(acc); line += [f'all {x}', f'len {x}']
        line += [f'all {x}' for x in acc]
        yield 'positions ' + ' ; '.join(line)
def long_registry(n):
    """counters wider than a byte, than a chunk: as many entries as no hand-written test adds"""
    k = lambda i: f'{1 + i % 3} {4 + i % 7} {i} {1 + i % 100}'
    line = [f'kadd {k(i)}' for i in range(n)] + [f'padd {k(i)} {i + 1}' for i in range(n)] + [f'fadd {i} {1 + i % 100}' for i in range(n)]
    look = [0, 1, n // 2, n - 2, n - 1, n] + [i for i in (127, 128, 255, 256, 257, 511, 512) if i < n]
    line += ['kcnt', f'kall {n} 0', f'kall 40 {n - 30}'] + [f'{c} {k(i)}' for i in look for c in ('kidx', 'khas', 'pget')] + [f'fhas {i} {1 + i % 100}' for i in look]
    line += [f'krem {k(i)}' for i in look[:8]] + ['kcnt', f'kall {n} 0'] + [f'khas {k(i)}' for i in range(n)] + [f'kadd {k(i)}' for i in look[:4]] + ['kcnt', f'kall {n + 9} 0', 'fall']
    return 'registry ' + ' ; '.join(line)
def gen_registry(r):
    yield long_registry(300); yield long_registry(700)
    while True:
        ks_ = [(r.randrange(1, 4), r.randrange(4, 7), r.choice([0, 1, 10**10]), r.choice([1, 2])) for _ in range(r.choice([1, 3, 6]))]; line = []; used = r.random() < .5
        for _ in range(r.choice([3, 10, 40])):
            k = ts(r.choice(ks_)); n = r.randrange(1, 10**6); t = r.choice([-2, -1, 0, 1, 2, MAXTICK, MINT, 65536, 1 << 16]); f = f'{r.choice([0, 1, 10**10])} {r.choice([1, 2, 100])}'
            line.append(r.choice([f'padd {k} {n}', f'padd {k} {n}', f'pupd {k} {n}', f'prem {k}', f'pget {k}', f'kadd {k}', f'kadd {k}', f'krem {k}', f'khas {k}', f'kidx {k}', 'kcnt', f'kall {r.choice([0, 1, 2, 50])} {r.choice([0, 0, 1, 2])}',
                f'fadd {f}', f'fadd {f}', f'frem {f}', f'fhas {f}', 'fall', f'tadd {k} {t} {n}', f'tadd {k} {t} {n}', f'tupd {k} {t} {n}', f'trem {k} {t}', f'tget {k} {t}']))
        yield 'registry ' + ' ; '.join(line + ['fall', 'kall 50 0', 'kcnt'])
        a, c = r.choice([1, 2, 255, 256, 257, 2**40, 65536]), r.choice([1, 2, 255, 256, 257, 2**40, 65536, 0]); yield f'poolkey {a} {c} {r.choice([0, 1, 10**10])} {r.choice([1, 2, 100])}'
        yield f'feetier {r.choice([0, 1, 10**10, E12 - 1, E12, E12 + 1, W64 - 1])} {r.choice([0, 1, 2, 99, 100, 101, 65535])}'
def gen_ledger(r):
    while True:
        line = []; b_ = {}
        for _ in range(r.choice([3, 10, 30])):
            k = (r.choice([1, 2, 3]), r.choice([0, 5, 6])); h = b_.get(k, 0); n = r.choice(['inc', 'inc', 'dec', 'dec', 'can', 'all']); x = r.choice([0, 1, h, h + 1, max(0, h - 1), W256 - 1 - h, min(W256 - 1, W256 - h), num(r, 256), num(r, 60), 10])
            x = min(x, W256 - 1); line.append(f'{n} {k[0]} {k[1]}' + (f' {x}' if n != 'all' else ''))
            if n == 'inc' and h + x < W256: b_[k] = h + x
            elif n == 'dec' and x <= h: b_[k] = h - x
            elif n == 'all': b_[k] = 0
        yield 'ledger ' + ' ; '.join(line)
M.J.update(tick_create=j_tick_create, tick_cross=j_tick_cross, tick_update=j_tick_update, pool_create=j_pool_create, add_fee=j_add_fee, pool_liq=j_pool_liq, withdraw_pf=j_withdraw_pf, update_tick=j_update_tick,
    pos_modify=j_pos_modify, pos_claim=j_pos_claim, pos_create=j_pos_create, pos_remove=j_pos_remove, pos_update=j_pos_update, poolkey=j_poolkey, feetier=j_feetier, search_limit=j_search_limit, t2p=j_t2p, p2t=j_p2t,
    max_chunk=j_max_chunk, tm=j_tm, positions=j_positions, registry=j_registry, ledger=j_ledger)
M.GROUPS.update(tickrec=gen_ticks, poolrec=gen_pools, posrec=gen_positions_math, tickmap=gen_tickmap, poslists=gen_poslists, registry=gen_registry, ledger=gen_ledger)

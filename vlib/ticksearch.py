"""Bounded searches for the tick, logarithm, fee-growth and liquidity formulas (extends mathsearch)."""
from .mathsearch import *
from . import mathsearch as M
from .oracle import *
FACTORS = [1000049998750,1000100000000,1000200010000,1000400060004,1000800280056,1001601200560,1003204964963,1006420201726,1012881622442,1025929181080,1052530684591,1107820842005,1227267017980,1506184333421,2268591246242,5146506242525,26486526504348,701536086265529]
def tick_price(t):
    if abs(t) > MAXTICK: return None
    v = E12; a = abs(t)
    for i in range(18):
        if a >> i & 1: v = v * FACTORS[i] // E12
    return v * E12 if t >= 0 else E12 * E12 // v * E12
_P = None
def prices():
    """the contract's price of every tick, index t + MAXTICK"""
    global _P
    if _P is None: _P = [tick_price(t) for t in range(-MAXTICK, MAXTICK + 1)]
    return _P
def pr(t): return prices()[t + MAXTICK] if abs(t) <= MAXTICK else None
def trunc_tick(s): return MAXTICK // s * s
def greatest_tick(p, s):
    """greatest multiple of s whose price is not above p (ticks below the range count as the first one refused)"""
    import bisect
    t = bisect.bisect_right(prices(), p) - 1 - MAXTICK
    return t - t % s

# ---------- judges
_EX = None
def exact_price(t):
    """1.0001^(t/2) * 10^24 with 50 digits to spare"""
    global _EX
    if _EX is None:
        from math import isqrt
        B = 10**60
        step = isqrt(10001 * B * B // 10000); up = [B]; dn = [B]; inv = B * B // step
        for _ in range(MAXTICK): up.append(up[-1] * step // B); dn.append(dn[-1] * inv // B)
        _EX = (up, dn, B)
    up, dn, B = _EX
    return (up[t] if t >= 0 else dn[-t]) * E24 // B
def j_price(a, res):
    t = int(a[0])
    if abs(t) > MAXTICK: return None if res in ('err', 'panic') else f'tick {t} is outside the range but has a price'
    if not res.startswith('ok'): return f'tick {t} has no price'
    p = int(res[3:]); x = exact_price(t)
    if abs(p - x) * 10**7 > x: return f'differs from 1.0001^({t}/2) = {x} by more than 1e-7 of it'
    if not MINP <= p <= MAXP: return f'outside the published range'
    if t == -MAXTICK and p != MINP or t == MAXTICK and p != MAXP or t == 0 and p != E24: return 'the price range does not end at its published bounds'
    if p != pr(t): return f'not the price {pr(t)} the code had for this tick'
    return None
def j_rel(a, res):
    t, s, p = int(a[0]), int(a[1]), int(a[2])
    if t + s > MAXTICK:
        want = p == pr(trunc_tick(s)) if s else None
        if t > MAXTICK: return None if res != 'ok 1' or p == pr(trunc_tick(s)) else 'accepted'
    elif t < -MAXTICK: return None if res in ('err', 'panic') else f'tick {t} is outside the range'
    else: want = pr(t) <= p < pr(t + s)
    if want is None: return None
    return None if res == f'ok {int(want)}' else f'the price does {"" if want else "not "}belong to tick {t}'
def j_ct(a, res):
    t, s = int(a[0]), int(a[1])
    if s == 0: return None if res == 'panic' else 'spacing 0 accepted'
    good = abs(t) <= MAXTICK and t % s == 0
    return None if (res == 'ok 1') == good else f'tick {t} with spacing {s} is {"" if good else "not "}usable'
def j_cts(a, res):
    l, u, s = int(a[0]), int(a[1]), int(a[2])
    good = l <= u and all(abs(t) <= MAXTICK and t % s == 0 for t in (l, u)) if s else None
    if not s: return None if res in ('panic', 'err') else 'spacing 0 accepted'
    return None if (res == 'ok 1') == good else f'range [{l}, {u}] with spacing {s} is {"" if good else "not "}usable'
def j_ends(sign, pricef):
    def f(a, res):
        s = int(a[0])
        if s == 0: return None if res == 'panic' else 'spacing 0 accepted'
        w = sign * trunc_tick(s)
        return expect_exact(res, pr(w) if pricef else w, False)
    return f
def j_tick_at(a, res):
    p, s = int(a[0]), int(a[1])
    if not MINP <= p <= MAXP: return None if res in ('err', 'panic') else 'price outside the range accepted'
    if s == 0: return None if res in ('err', 'panic') else 'spacing 0 accepted'
    w = greatest_tick(p, s)
    return None if res == f'ok {w}' else f'the greatest tick not above is {w}'
W = 2**128
def j_fg(op):
    def f(a, res):
        x, y = int(a[0]), int(a[1])
        return expect_exact(res, (x + y) % W if op == '+' else (x - y) % W, False)
    return f
def j_from(a, res):
    l, fee_ = int(a[0]), int(a[1])
    if l == 0: return expect_exact(res, None, True)
    w = fee_ * E28 * E5 // l
    return expect_exact(res, w, w > U128 or fee_ * E28 * E5 > U384_)
def j_to(a, res):
    g, l = int(a[0]), int(a[1]); w = g * l // E5 // E28
    return expect_exact(res, w, w > U256_ or g * l > U384_)
def inside(lo, lv, up, uv, cur, g):
    below = lv if cur >= lo else (g - lv) % W
    above = uv if cur < up else (g - uv) % W
    return (g - below - above) % W
def j_inside(a, res):
    lo, lx, ly, up, ux, uy, cur, gx, gy = map(int, a)
    w = f'ok {inside(lo, lx, up, ux, cur, gx)} {inside(lo, ly, up, uy, cur, gy)}'
    return None if res == w else f'growth inside is {w[3:]}'
def j_spl_inside(a, res):
    lo, up, cur, lv, uv, g = map(int, a)
    return expect_exact(res, inside(lo, lv, up, uv, cur, g), False)
def j_spl_global(a, res):
    l, now, last = map(int, a)
    if now <= last or l == 0: return expect_exact(res, None, True)
    w = (now - last) * E25 * E5
    return expect_exact(res, w // l, w > U128)
def j_amount_delta(a, res):
    cur, p, l, up, u, lo = int(a[0]), int(a[1]), int(a[2]), b(a[3]), int(a[4]), int(a[5])
    if u < lo or abs(u) > MAXTICK or abs(lo) > MAXTICK: return None if res in ('err', 'panic') else 'unusable range accepted'
    pl, pu = pr(lo), pr(u)
    if cur < lo: xs, ys, act = (pl, pu), None, 0
    elif cur < u: xs, ys, act = (p, pu), (pl, p), 1
    else: xs, ys, act = None, (pl, pu), 0
    bad = (xs is not None and dx_bad(*xs, l, up)) or (ys is not None and dy_bad(*ys, l, up))
    if res in ('err', 'panic'): return None if bad else 'failed although every amount is representable'
    w = f'{dx(*xs, l, up) if xs else 0} {dy(*ys, l, up) if ys else 0} {act}'
    if xs and dx(*xs, l, up) is None: return 'amount from a zero price'
    return None if res == 'ok ' + w else f'expected {w}'
def j_max_liq(a, res):
    s = int(a[0])
    if s == 0: return None if res == 'panic' else 'spacing 0 accepted'
    n = (2 * MAXTICK + 1) // s
    return expect_exact(res, U256_ // n if n else None, False)
def floorL(num, den): return None if den == 0 else num // den
def liq_by_x(x, pl, pu, p, up):
    """-> (L, amount y) or None when refused"""
    if pu < p: return None
    q = pl if p < pl else p
    if pu == q: return None
    L = x * (q * pu // E24) * E5 // (pu - q)
    if L > U256_: return None
    if p < pl: return L, 0
    return L, calc_y(p - pl, L, up)
def liq_by_y(y, pl, pu, p, up):
    if p < pl: return None
    d = (pu - pl) if pu <= p else p - pl
    if d == 0: return None
    L = y * E24 * E5 // d
    if L > U256_: return None
    if pu <= p: return L, 0
    return L, calc_x(pu - p, p * pu // E24, L, up)
BAD = [False]
def calc_y(d, L, up):
    if d * (L // E5) + E24 > U256_: BAD[0] = True
    return (cdiv if up else lambda a, c: a // c)(d * (L // E5), E24)
def calc_x(n, den, L, up):
    if L * n > 2**512 - 1 or L * n // E24 * E24 > 2**512 - 1 or L * n // E24 > U256_ or L * n // E24 * E24 // den + E5 > U256_: BAD[0] = True
    c = L * n // E24 * E24 // den
    return cdiv(c, E5) if up else c // E5
def j_liq_any(which):
    def f(a, res):
        if which == 'both': x, y, lo, hi, p, up = int(a[0]), int(a[1]), int(a[2]), int(a[3]), int(a[4]), b(a[5])
        else: x, lo, hi, p, up = int(a[0]), int(a[1]), int(a[2]), int(a[3]), b(a[4])
        if lo < -MAXTICK or hi > MAXTICK or lo > MAXTICK or hi < -MAXTICK: return None if res in ('err', 'panic') else 'range outside the supported ticks accepted'
        pl, pu = pr(lo), pr(hi)
        BAD[0] = x * pu * pu * E5 > 2**512
        if which == 'x': w = liq_by_x(x, pl, pu, p, up)
        elif which == 'y': w = liq_by_y(x, pl, pu, p, up)
        else:
            if pu < p: r_ = liq_by_y(y, pl, pu, p, up); w = r_ and (r_[1], y, r_[0])
            elif p < pl: r_ = liq_by_x(x, pl, pu, p, up); w = r_ and (x, r_[1], r_[0])
            else:
                ry, rx = liq_by_y(y, pl, pu, p, up), liq_by_x(x, pl, pu, p, up)
                w = None if ry is None or rx is None else ((ry[1], y, ry[0]) if ry[0] < rx[0] else (x, rx[1], rx[0]))
        if lo >= hi: return None
        if res in ('err', 'panic'):
            if w is None: return None
            return None if BAD[0] else 'refused although the liquidity is representable'
        if w is None: return f'answered {res} for an unusable range or price'
        return None if res == 'ok ' + ' '.join(map(str, w)) else f'expected {w}'
    return f
J.update(price=j_price, from_tick=j_price, rel=j_rel, check_tick=j_ct, check_ticks=j_cts, max_tick=j_ends(1, 0), min_tick=j_ends(-1, 0), max_price=j_ends(1, 1), min_price=j_ends(-1, 1),
    tick_at=j_tick_at, fg_add=j_fg('+'), fg_sub=j_fg('-'), spl_add=j_fg('+'), spl_sub=j_fg('-'), fg_from=j_from, fg_to=j_to, fg_inside=j_inside, spl_inside=j_spl_inside, spl_global=j_spl_global,
    amount_delta=j_amount_delta, max_liq=j_max_liq, liq=j_liq_any('both'), liq_x=j_liq_any('x'), liq_y=j_liq_any('y'))

# ---------- generators
def spacing(r): return r.choice([1, 2, 3, 4, 5, 10, 64, 99, 100, r.randrange(1, 101)])
def tick(r):
    k = r.randrange(6)
    if k == 0: return r.choice([-MAXTICK, MAXTICK, 0, 1, -1, MAXTICK - 1, 1 - MAXTICK])
    if k == 1: return r.randrange(-300, 300)
    if k == 2: return max(-MAXTICK, min(MAXTICK, r.choice([-1, 1]) * (1 << r.randrange(0, 18)) + r.randrange(-2, 3)))
    return r.randrange(-MAXTICK, MAXTICK + 1)
def wild(r): return r.choice([MAXTICK + 1, -MAXTICK - 1, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31), MAXTICK + r.randrange(1, 200), -MAXTICK - r.randrange(1, 200)])
def gen_ticks_all(r):
    """exhaustive: every tick's price, and every spacing's ends"""
    for s in range(0, 1200):
        for f in ('max_tick', 'min_tick', 'max_price', 'min_price'): yield f'{f} {s}'
    for s in (65535, 32768, 10000): yield f'max_tick {s}'; yield f'min_tick {s}'
    for d in (1, 2, 3): yield f'from_tick {MAXTICK + d}'; yield f'from_tick {-MAXTICK - d}'
    yield f'from_tick {-2**31}'; yield f'price {-2**31}'; yield f'from_tick {2**31 - 1}'
    for i in range(18, 31):
        for d in (-1, 0, 1): yield f'from_tick {2**i + d}'; yield f'from_tick {-2**i + d}'
    for t in range(0, MAXTICK + 1):
        yield f'from_tick {t}'; yield f'from_tick {-t}'
def gen_rel(r):
    while True:
        s = spacing(r); t = tick(r) if r.random() < .9 else wild(r)
        if r.random() < .7: t = t // s * s
        c = [t, t + s, min(MAXTICK, t + s), trunc_tick(s)]
        q = pr(max(-MAXTICK, min(MAXTICK, r.choice(c)))) + r.choice([0, 0, 1, -1, r.getrandbits(60)])
        yield f'rel {t} {s} {max(0, q)}'
        k = r.randrange(4); e = r.choice([1, -1]) * (trunc_tick(s) + r.choice([0, 0, s, -s, 1, -1]))
        if k == 0: yield f'check_tick {t} {s}'
        elif k == 1: yield f'check_tick {e} {s}'
        else:
            u = tick(r) // s * s; l, h = (t, u) if k == 2 else (e, u)
            yield f'check_ticks {min(l, h) if r.random() < .8 else max(l, h)} {max(l, h) if r.random() < .8 else min(l, h)} {s}'
def gen_log_all(r):
    """exhaustive: the price of every tick and its two neighbours, spacing 1 (the tick of a price is monotone, so these decide all prices); then other spacings"""
    P = prices()
    order = list(range(0, len(P), 1)); 
    for i in order:
        yield f'tick_at {P[i]} 1'
        if P[i] > MINP: yield f'tick_at {P[i] - 1} 1'
    yield f'tick_at {MAXP + 1} 1'; yield f'tick_at {MINP - 1} 1'; yield 'tick_at 0 1'
def gen_log_spacing(r):
    P = prices()
    while True:
        s = spacing(r); t = tick(r)
        if r.random() < .5: t = t // s * s
        p = pr(max(-MAXTICK, min(MAXTICK, t))) + r.choice([0, -1, 1, r.getrandbits(40), -r.getrandbits(60)])
        if r.random() < .2: p = price(r)
        if r.random() < .02: p = r.choice([MINP - 1, MAXP + 1, 0, 2**128 - 1])
        yield f'tick_at {max(0, p)} {s}'
def gen_fees(r):
    while True:
        k = r.randrange(8); a_, b_ = num(r, 128), num(r, 128)
        if k == 0: yield f'{r.choice(["fg_add", "fg_sub", "spl_add", "spl_sub"])} {a_} {b_}'
        elif k == 1:
            b_ = r.choice([a_, (W - a_) % W, (W - 1 - a_), (a_ + 1) % W, (W - a_ + 1) % W]); yield f'{r.choice(["fg_add", "fg_sub", "spl_add", "spl_sub"])} {a_} {b_}'
        elif k == 2: yield f'fg_from {r.choice([liq(r), num(r, 256)])} {r.choice([amt(r), num(r, 256)])}'
        elif k == 3:
            f = r.getrandbits(r.randrange(1, 90)) + 1; l = max(1, f * E28 * E5 // r.choice([1, 2, 3, W - 1, r.getrandbits(120) + 1])) + r.randrange(-1, 2); yield f'fg_from {max(0, min(l, 2**256 - 1))} {f}'
        elif k == 4:
            l = liq(r); yield f'fg_to {a_} {l}'
            if l: g = max(0, min(W - 1, cdiv(amt(r) * E5 * E28, l) + r.randrange(-1, 2))); yield f'fg_to {g} {l}'
        elif k == 5:
            lo, up, cur = r.randrange(-9, 9), r.randrange(-9, 9), r.randrange(-9, 9); v = [num(r, 128) if r.random() < .6 else a_ for _ in range(6)]
            yield f'fg_inside {lo} {v[0]} {v[1]} {up} {v[2]} {v[3]} {cur} {v[4]} {v[5]}'
        elif k == 6: lo, up, cur = r.randrange(-9, 9), r.randrange(-9, 9), r.randrange(-9, 9); yield f'spl_inside {lo} {up} {cur} {num(r, 128)} {num(r, 128)} {num(r, 128)}'
        else:
            last = num(r, 64); now = min(2**64 - 1, last + r.choice([0, 1, 2, 340, r.getrandbits(r.randrange(1, 12))])); yield f'spl_global {liq(r)} {now} {last}'
def span(r):
    lo, hi = tick(r), tick(r)
    if r.random() < .5: hi = min(MAXTICK, lo + r.randrange(1, 300))
    return (lo, hi) if lo <= hi else (hi, lo)
def gen_amounts(r):
    while True:
        lo, hi = span(r); k = r.randrange(10)
        cur = r.choice([lo, hi, lo - 1, hi - 1, (lo + hi) // 2, tick(r)]); cur = max(-MAXTICK, min(MAXTICK, cur)); p = pr(cur) + (0 if r.random() < .5 or cur >= MAXTICK else r.randrange(0, pr(cur + 1) - pr(cur)))
        if k == 0: lo, hi = hi, lo
        if k == 1: yield f'max_liq {r.randrange(1, 120)}'
        if k == 2: yield f'min_out {amt(r)} {fee(r)}'
        l = liq(r)
        yield f'amount_delta {cur} {p} {l} {r.randrange(2)} {hi if k != 3 else wild(r)} {lo if k != 4 else wild(r)}'
def gen_liq(r):
    while True:
        lo, hi = span(r); k = r.randrange(12)
        c = r.choice([lo, hi, lo - 1, hi + 1, hi - 1, lo + 1, (lo + hi) // 2, tick(r)]); c = max(-MAXTICK, min(MAXTICK, c)); p = pr(c) + r.choice([0, 0, 1, -1, r.getrandbits(50)])
        x, y = (min(2**256 - 1, r.choice([amt(r), r.getrandbits(64)])) for _ in range(2))
        if k == 0: lo = wild(r)
        if k == 1: hi = wild(r)
        f = r.choice(['liq', 'liq', 'liq_x', 'liq_y'])
        p = max(MINP, min(MAXP, p))
        if f == 'liq' and r.random() < .5 and abs(lo) <= MAXTICK and abs(hi) <= MAXTICK:   # amounts that nearly match, so either token can be the scarce one
            q = liq_by_y(y, pr(lo), pr(hi), p, False)
            if q: x = max(0, q[1] + r.randrange(-1, 2))
        yield f'{f} {x} {y} {lo} {hi} {p} {r.randrange(2)}' if f == 'liq' else f'{f} {x} {lo} {hi} {p} {r.randrange(2)}'
GROUPS.update(ticks_all=gen_ticks_all, rel=gen_rel, log_all=gen_log_all, log_spacing=gen_log_spacing, fees=gen_fees, amounts=gen_amounts, liq=gen_liq)

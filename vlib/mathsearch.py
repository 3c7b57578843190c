"""Bounded search for inputs on which the real functions disagree with their contracts.
gen_<group>(rng) yields calls; judge(call, result) says what is wrong with the answer, or None."""
import random, subprocess, time, threading
from .oracle import *

TY = list(SCALE)
def tmax(t): return 2**WIDTH[t] - 1
for _t in ('Percentage',): WIDTH[_t] = 128
BIG = dict(FeeGrowth=256, FixedPoint=192, Liquidity=512, Percentage=256, SecondsPerLiquidity=256, SqrtPrice=384, TokenAmount=512)
MINP, MAXP, MAXTICK = 15258932000000000000, 65535383934512647000000000000, 221818
CW = dict(U512=512, U448=448, U384=384, U320=320, U256=256, U192=192, U128=128, u128=128, u64=64, u32=32, u16=16, u8=8)
CCAST = [(f, t) for f in ('U512', 'U448', 'U384', 'U320', 'U256', 'U192', 'U128') for t in ('U512', 'U448', 'U384', 'U320', 'U256', 'U192', 'U128', 'u128', 'u64', 'u32', 'u16', 'u8') if f != t] \
    + [('u128', t) for t in ('U512', 'U448', 'U384', 'U320', 'U256', 'U192', 'U128')]

class Srv:
    def __init__(self, exe, mode='math'):
        self.exe, self.mode = exe, mode
        self.p = subprocess.Popen([exe, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1 << 20)
    def batch(self, lines):
        def w():
            try: self.p.stdin.write('\n'.join(lines) + '\n.\n'); self.p.stdin.flush()
            except BrokenPipeError: pass
        th = threading.Thread(target=w); th.start()
        out = [self.p.stdout.readline().strip() for _ in lines]
        th.join()
        return out
    def one(self, line): return self.batch([line])[0]
    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()

# ---------- numbers worth trying
def num(r, bits):
    k = r.randrange(9)
    if k == 0: return r.randrange(0, 4) & (2**bits - 1)
    if k == 1: b = r.randrange(0, bits); return max(0, min(2**bits - 1, (1 << b) + r.randrange(-2, 3)))
    if k == 2: return max(0, min(2**bits - 1, 10**r.randrange(0, bits * 3 // 10 + 1) * r.choice([1, 1, 1, 2, 3, 5, 9]) + r.randrange(-3, 4)))
    if k == 3: return 2**bits - 1 - r.randrange(0, 3)
    if k == 4:
        v = 0
        for i in range(0, bits, 64): v |= r.choice([0, 0, 1, 2**64 - 1, r.getrandbits(64)]) << i
        return v & (2**bits - 1)
    if k == 5: return r.getrandbits(bits)
    return r.getrandbits(r.randrange(1, bits + 1))
def price(r):
    k = r.randrange(8)
    if k == 0: return r.choice([MINP, MAXP, MINP + 1, MAXP - 1, E24, E24 + 1, E24 - 1])
    if k == 1: return E24 + r.randrange(-10**r.randrange(1, 24), 10**r.randrange(1, 24))
    if k == 2: return max(MINP, min(MAXP, int(1.0001 ** (r.uniform(-221000, 221000) / 2) * 1e24)))
    if k == 3: return MINP + r.getrandbits(r.randrange(1, 70))
    if k == 4: return max(MINP, min(MAXP, int(2 ** r.uniform(-16, 16)) * E24 + r.randrange(0, 3))) if False else max(MINP, min(MAXP, int(E24 * 2 ** r.uniform(-15.9, 15.9))))
    return max(MINP, min(MAXP, int(E24 * 2 ** r.uniform(-6, 6))))
def near(r, p):
    d = r.getrandbits(r.randrange(1, 92))
    return max(MINP, min(MAXP, p + (d if r.random() < .5 else -d)))
def liq(r):
    k = r.randrange(6)
    if k == 0: return r.randrange(0, 5)
    if k == 1: return 10**r.randrange(0, 40) * r.randrange(1, 10) + r.randrange(-1, 2)
    return r.getrandbits(r.randrange(1, 150))
def amt(r):
    k = r.randrange(6)
    if k == 0: return r.randrange(0, 5)
    if k == 1: return max(0, 10**r.randrange(0, 38) * r.randrange(1, 10) + r.randrange(-2, 3))
    return r.getrandbits(r.randrange(1, 130))
def fee(r): return r.choice([0, 1, 10**8, 6 * 10**8, 10**9, 3 * 10**9, 10**10, 10**11, E12 // 3, E12 // 2, E12 - 1, E12, r.randrange(0, E12 + 1)])

# ---------- contracts, in unbounded integers
def dx(a, b, l, up):
    d = abs(a - b)
    if up:
        den = a * b // E24
        return None if den == 0 else cdiv(cdiv(cdiv(d * l, E5) * E24, den), E24)
    den = cdiv(a * b, E24)
    return None if den == 0 else d * l // E5 * E24 // den // E24
def dy(a, b, l, up):
    d = abs(a - b)
    return cdiv(cdiv(d * l, E5), E24) if up else d * l // E5 // E24
def nx(p, l, x, add):
    if x == 0: return p
    den = l * E19 + p * x if add else l * E19 - p * x
    return None if den <= 0 else cdiv(cdiv(p * l, E5) * E24, den)
def ny(p, l, y, add):
    if l == 0: return None
    return p + y * E24 * E24 // (l * E19) if add else p - cdiv(y * E24 * E24, l * E19)
def covers_x(t, a, b, l): return t * a * b * E5 >= abs(a - b) * l * E24
def within_x(t, a, b, l): return t * a * b * E5 <= abs(a - b) * l * E24
def covers_y(t, a, b, l): return t * E24 * E5 >= abs(a - b) * l
def within_y(t, a, b, l): return t * E24 * E5 <= abs(a - b) * l
U64 = 2**64 - 1
U128, U256_, U384_, U448_ = 2**128 - 1, 2**256 - 1, 2**384 - 1, 2**448 - 1
def rescale(v, f, t): return v * 10**(t - f) if t > f else v // 10**(f - t)
def rescale_up(v, f, t): return v * 10**(t - f) if t > f else cdiv(v, 10**(f - t))

def expect_exact(res, want, why_fail):
    """res must be `ok want`; a failure is accepted only when why_fail"""
    if res in ('err', 'panic'): return None if (why_fail or want is None) else f'failed although the exact result {want} is representable'
    if want is None: return f'answered {res} where no result exists'
    return None if res == f'ok {want}' else f'exact result is {want}'

def judge(call, res):
    if res == 'bad': return None
    f, *a = call.split()
    h = J.get(f)
    return h(a, res) if h else None

def j_d(a, res):
    if a[1] in ('one', 'almost_one', 'max', 'scale'):
        t = a[0]
        return expect_exact(res, dict(one=10**SCALE[t], almost_one=10**SCALE[t] - 1, max=tmax(t), scale=SCALE[t])[a[1]], False)
    t, op = a[0], a[1]
    if op in ('add', 'sub', 'add_assign', 'sub_assign', 'checked_add', 'checked_sub', 'checked_div', 'sub_abs', 'mul_assign', 'div_assign'):
        x, y = int(a[2]), int(a[3]); one = 10**SCALE[t]
        k = op.replace('checked_', '').replace('_assign', '')
        if k == 'add': w = x + y; return expect_exact(res, w, w > tmax(t))
        if k == 'sub': w = x - y; return expect_exact(res, w if w >= 0 else None, False)
        if k == 'sub_abs': return expect_exact(res, abs(x - y), False)
        if k == 'mul': return expect_exact(res, x * y // one, x * y > tmax(t))
        if k == 'div': return expect_exact(res, None if y == 0 else x * one // y, x * one > tmax(t))
    if op in ('from_integer', 'from_scale', 'from_scale_up', 'checked_from_scale'):
        x = int(a[2])
        if op == 'from_integer': w = x * 10**SCALE[t]; return expect_exact(res, w, w > tmax(t))
        s = int(a[3]); w = (rescale_up if op.endswith('up') else rescale)(x, s, SCALE[t])
        p = 10**abs(s - SCALE[t])
        return expect_exact(res, w, w > tmax(t) or p > tmax(t) or p > U128 or x + p > tmax(t))
    l, r = a[2], a[3]; one = 10**SCALE[r]
    if 'from_decimal' in op:
        y = int(a[4]); w = (rescale_up if op.endswith('up') else rescale)(y, SCALE[r], SCALE[l]); p = 10**abs(SCALE[r] - SCALE[l])
        return expect_exact(res, w, w > tmax(l) or y > tmax(l) or p > U128 or y + p > min(tmax(l), tmax(r)))
    x, y = int(a[4]), int(a[5]); lim = 2**BIG[l] - 1 if 'big' in op else tmax(l)
    if 'mul' in op:
        w = cdiv(x * y, one) if op.endswith('up') else x * y // one
        return expect_exact(res, w, w > tmax(l) or x * y + one > lim or y > lim)
    w = None if y == 0 else cdiv(x * one, y) if op.endswith('up') else x * one // y
    return expect_exact(res, w, w is None or w > tmax(l) or x * one + y > lim or y > lim)
def j_cast(a, res):
    v = int(a[2]); lim = 2**CW[a[1]] - 1
    if v > lim: return None if res in ('err', 'panic') else f'{v} does not fit {a[1]} but a value was returned'
    return expect_exact(res, v, False)
def b(s): return s == '1'
def j_dx(a, res):
    p, q, l, up = int(a[0]), int(a[1]), int(a[2]), b(a[3])
    den = p * q // E24 if up else cdiv(p * q, E24)
    if den == 0: return expect_exact(res, None, True)
    w = dx(p, q, l, up); n = cdiv(abs(p - q) * l, E5) if up else abs(p - q) * l // E5
    bad = n * E24 + den > U448_ or cdiv(n * E24, den) + E24 > U384_ or w > U256_ or n > U384_
    m = expect_exact(res, w, bad)
    if m is None and res.startswith('ok'):
        t = int(res[3:])
        if up and not covers_x(t, p, q, l): return f'rounded-up token x amount {t} is below the exact amount'
        if not up and not within_x(t, p, q, l): return f'rounded-down token x amount {t} is above the exact amount'
    elif m and res.startswith('ok'):
        t = int(res[3:])
        if up and not covers_x(t, p, q, l): return f'rounded-up token x amount {t} is below the exact amount'
        if not up and not within_x(t, p, q, l): return f'rounded-down token x amount {t} is above the exact amount'
    return m
def j_dy(a, res):
    p, q, l, up = int(a[0]), int(a[1]), int(a[2]), b(a[3])
    w = dy(p, q, l, up)
    return expect_exact(res, w, w > U256_ or cdiv(abs(p - q) * l, E5) + E24 > U384_)
def nx_bad(p, l, x, add):
    den = l * E19 + p * x if add else l * E19 - p * x
    return x and (den <= 0 or den > U384_ or cdiv(p * l, E5) * E24 + den > U448_ or cdiv(p * l, E5) > U384_ or nx(p, l, x, add) > U128)
def ny_bad(p, l, y, add):
    if l == 0 or y * E24 > U384_ or l * E19 > U384_ or y * E24 * E24 + l * E19 > U448_: return True
    w = ny(p, l, y, add); return w > U128 or w < 0 or cdiv(y * E24 * E24, l * E19) > U128
def nin(p, l, x, xy): return nx(p, l, x, True) if xy else ny(p, l, x, True)
def nin_bad(p, l, x, xy): return nx_bad(p, l, x, True) if xy else ny_bad(p, l, x, True)
def nout(p, l, x, xy): return ny(p, l, x, False) if xy else nx(p, l, x, False)
def nout_bad(p, l, x, xy): return ny_bad(p, l, x, False) if xy else nx_bad(p, l, x, False)
def j_nx(a, res):
    p, l, x, add = int(a[0]), int(a[1]), int(a[2]), b(a[3])
    return expect_exact(res, nx(p, l, x, add), nx_bad(p, l, x, add))
def dx_bad(p, q, l, up):
    den = p * q // E24 if up else cdiv(p * q, E24); n = cdiv(abs(p - q) * l, E5) if up else abs(p - q) * l // E5
    return den == 0 or n * E24 + den > U448_ or cdiv(n * E24, den) + E24 > U384_ or cdiv(n, 1) > U384_ or dx(p, q, l, up) > U256_
def dy_bad(p, q, l, up): return dy(p, q, l, up) > U256_ or cdiv(abs(p - q) * l, E5) + E24 > U384_
def j_step(a, res):
    p, t, l, am, bi, f = int(a[0]), int(a[1]), int(a[2]), int(a[3]), b(a[4]), int(a[5])
    xy = p >= t
    if l == 0: return None if res == f'ok {t} 0 0 0' else 'with no liquidity the price must move to the target for free'
    if p < E12 or t < E12: return None
    up = (lambda n: dx(n, p, l, True)) if xy else (lambda n: dy(p, n, l, True))
    dn = (lambda n: dy(n, p, l, False)) if xy else (lambda n: dx(p, n, l, False))
    upb = (lambda n: dx_bad(n, p, l, True)) if xy else (lambda n: dy_bad(p, n, l, True))
    dnb = (lambda n: dy_bad(n, p, l, False)) if xy else (lambda n: dx_bad(p, n, l, False))
    if res in ('err', 'panic'):
        if bi:
            if f > E12 or am * (E12 - f) > 2**512: return None
            if upb(t): return None
            af = am * (E12 - f) // E12
            if af < up(t):
                if nin_bad(p, l, af, xy): return None
                n = nin(p, l, af, xy)
                if (xy and n <= t) or (not xy and n >= t): n = t
                elif up(n) > am: return None   # dust at extreme prices: the step refuses (nothing moves)
            else: n = t
            return None if upb(n) or dnb(n) else 'the step failed although every amount is representable'
        if dnb(t): return None
        n = t
        if am < dn(t):
            if nout_bad(p, l, am, xy): return None
            n = nout(p, l, am, xy)
        return None if upb(n) or dnb(n) or cdiv(up(n) * f, E12) > U256_ else 'the step failed although every amount is representable'
    n, ai, ao, fa = map(int, res.split()[1:])
    if not (min(p, t) <= n <= max(p, t)): return f'price {n} outside [current, target]'
    cov = covers_x(ai, n, p, l) if xy else covers_y(ai, p, n, l)
    if not cov: return f'amount in {ai} does not pay for the move to {n}'
    wi = within_y(ao, n, p, l) if xy else within_x(ao, p, n, l)
    if not wi: return f'amount out {ao} exceeds what the curve releases for the move to {n}'
    if bi:
        if f > E12: return 'accepted a fee above 100%'
        af = am * (E12 - f) // E12
        if ai + fa > am: return f'charges {ai}+{fa} for an input of {am}'
        if n != t and ai + fa != am: return f'charges {ai}+{fa} although the whole {am} must be consumed'
        if n == t and fa != cdiv(ai * f, E12): return f'fee {fa} is not {cdiv(ai * f, E12)}'
        if af >= up(t) and n != t: return f'target not reached although {af} pays for it'
        if n != t and n != nin(p, l, af, xy): return f'price {n} is not the price {nin(p, l, af, xy)} that {af} buys'
        if n != t and ai != up(n): return f'amount in {ai} is not {up(n)}'
        if n == t and ai not in (up(t), af): return f'amount in {ai} is not {up(t)}'
        if ao != dn(n): return f'amount out {ao} is not {dn(n)}'
    else:
        if ao > am: return f'gives {ao} although {am} was asked'
        if fa != cdiv(ai * f, E12): return f'fee {fa} is not {cdiv(ai * f, E12)}'
        if am >= dn(t) and (n != t or ao != dn(t)): return f'target not reached although {am} is asked'
        if n != t and n != nout(p, l, am, xy): return f'price {n} is not the price {nout(p, l, am, xy)} that {am} costs'
        if ai != up(n): return f'amount in {ai} is not {up(n)}'
        if ao != min(am, dn(n)): return f'amount out {ao} is not {min(am, dn(n))}'
    return None
def j_enough(a, res):
    am, p, l, f, bi, xy = int(a[0]), int(a[1]), int(a[2]), int(a[3]), b(a[4]), b(a[5])
    if l == 0: return None if res == 'ok 1' else 'no liquidity: any amount changes the price'
    if bi:
        if f > E12: return None if res in ('err', 'panic') else 'fee above 100% accepted'
        x = am * (E12 - f) // E12; bad = nin_bad(p, l, x, xy) or am * (E12 - f) > 2**512 - 1; w = nin(p, l, x, xy)
    else: bad = nout_bad(p, l, am, xy); w = nout(p, l, am, xy)
    if res in ('err', 'panic'): return None if bad else 'failed although the next price is representable'
    return None if res == f'ok {int(w != p)}' else f'next price {w} against {p}'
def j_min_out(a, res):
    x, s = int(a[0]), int(a[1])
    return expect_exact(res, None if s > E12 else cdiv(x * (E12 - s), E12), s > E12)

# ---------- generators
def gen_decimals(r):
    while True:
        t, q = r.choice(TY), r.choice(TY)
        k = r.randrange(4)
        if k == 0:
            op = r.choice(['add', 'sub', 'add_assign', 'sub_assign', 'checked_add', 'checked_sub', 'checked_div', 'sub_abs', 'mul_assign', 'div_assign'])
            x, y = num(r, WIDTH[t]), num(r, WIDTH[t])
            if r.random() < .2: y = x + r.randrange(-1, 2); y = max(0, min(tmax(t), y))
            if op in ('add', 'add_assign', 'checked_add') and r.random() < .4: y = max(0, min(tmax(t), tmax(t) - x + r.randrange(-1, 2)))
            yield f'd {t} {op} {x} {y}'
        elif k == 1:
            op = r.choice(['mul', 'mul_up', 'div', 'div_up', 'big_mul', 'big_mul_up', 'big_div', 'big_div_up', 'checked_big_div'])
            x, y = num(r, WIDTH[t]), num(r, WIDTH[q])
            if 'div' in op and r.random() < .5 and y:   # exact multiples and off-by-one remainders
                m = num(r, 64); x = max(0, min(tmax(t), y * m + r.randrange(-1, 2)))
            if 'mul' in op and r.random() < .5: x = num(r, min(64, WIDTH[t])); y = num(r, min(100, WIDTH[q]))
            yield f'd {t} {op} {t} {q} {x} {y}'
        elif k == 2:
            op = r.choice(['from_decimal', 'from_decimal_up', 'checked_from_decimal'])
            y = num(r, min(WIDTH[q], r.choice([128, 256])))
            if r.random() < .4: y = max(0, min(tmax(q), 10**abs(SCALE[q] - SCALE[t]) * num(r, 40) + r.randrange(-1, 2)))
            yield f'd {t} {op} {t} {q} {y}'
        else:
            op = r.choice(['from_integer', 'from_scale', 'from_scale_up', 'checked_from_scale', 'one', 'almost_one', 'max', 'scale'])
            if op in ('one', 'almost_one', 'max', 'scale'): yield f'd {t} {op}'
            elif op == 'from_integer': yield f'd {t} {op} {num(r, 128)}'
            else: yield f'd {t} {op} {num(r, 128)} {r.choice([0, 1, 2, 3, 5, 6, 12, 18, 24, 28, 30, r.randrange(0, 39)])}'
def gen_casts(r):
    while True:
        f, t = r.choice(CCAST)
        k = r.randrange(4); lim = 2**min(CW[f], CW[t])
        v = num(r, CW[f]) if k < 2 else min(2**CW[f] - 1, max(0, lim + r.randrange(-2, 3))) if k == 2 else min(2**CW[f] - 1, (1 << r.randrange(0, CW[f])) | num(r, min(CW[f], CW[t])))
        yield f'{"ccast" if r.random() < .7 or f == "u128" else "ucast"} {f} {t} {v}'
def tight(r):
    """a liquidity and two prices whose exact token x amount lies just above an integer"""
    a = price(r); c = near(r, a)
    if a == c: c = a + 1
    d = abs(a - c); t = amt(r) + 1
    l = t * a * c * E5 // (d * E24)
    return a, c, min(2**256 - 1, max(0, l + r.randrange(-2, 3)))
def gen_delta(r):
    while True:
        k = r.randrange(4)
        if k == 0: a, c, l = tight(r)
        elif k == 1:
            a = price(r); c = near(r, a); d = abs(a - c) or 1; l = (amt(r) * E24 * E5) // d + r.randrange(0, 2)
        elif k == 2: a, c, l = price(r), price(r), liq(r)
        else: a = num(r, 128); c = num(r, 128); l = num(r, 256)
        if l >= 2**256: l = 2**256 - 1
        yield f'{r.choice(["dx", "dx", "dy"])} {a} {c} {l} {r.randrange(2)}'
def gen_next(r):
    while True:
        k = r.randrange(5); p, l, x = price(r), liq(r), amt(r)
        if k == 0: yield f'nx {num(r, 128)} {num(r, 256)} {num(r, 256)} {r.randrange(2)}'
        elif k <= 2: yield f'nx {p} {l} {x} {r.randrange(2)}'
        else: yield f'enough {x} {p} {l} {fee(r)} {r.randrange(2)} {r.randrange(2)}'
        if k == 4:
            # removing almost everything
            x = max(0, l * E19 // p + r.randrange(-2, 3)); yield f'nx {p} {l} {x} 0'
            # price differences of one unit
            y = max(0, l * E19 // (E24 * E24) + r.randrange(-1, 2)); yield f'enough {y} {p} {l} 0 {r.randrange(2)} 0'
def gen_step(r):
    while True:
        p = price(r); t = near(r, p) if r.random() < .7 else price(r); l = liq(r); f = fee(r)
        if r.random() < .3: _, _, l = tight(r)
        xy = p >= t
        k = r.randrange(6)
        try:
            if k <= 1: am = amt(r)
            elif k <= 3:
                q = dx(t, p, l, True) if xy else dy(p, t, l, True)
                am = max(0, (cdiv(q * E12, E12 - f) if f < E12 else q) + r.randrange(-3, 4))
                if k == 3: am = am * r.randrange(1, 1000) // 1000
            else:
                q = dy(t, p, l, False) if xy else dx(p, t, l, False)
                am = max(0, q + r.randrange(-3, 4))
                if k == 5: am = am * r.randrange(1, 1000) // 1000
        except TypeError: am = amt(r)
        am = min(am, 2**256 - 1)
        bi = int(k <= 3) if r.random() < .9 else r.randrange(2)
        yield f'step {p} {t} {l} {am} {bi} {f}'
        if r.random() < .1: yield f'enough {am} {p} {l} {f} {bi} {int(xy)}'
UW = {f'U{w}': w for w in (128, 192, 256, 320, 384, 448, 512)}
def j_uop(a, res):
    """what units/uint.inc assumes of the big integers, against exact integers"""
    t, op = a[0], a[1]; w = UW[t]; top = 2**w - 1
    const = dict(MAX=top, max_value=top, zero=0, one=1, default=0)
    if op in const: return expect_exact(res, const[op], False)
    x = int(a[2]); y = int(a[3]) if len(a) > 3 else 0
    def fit(v): return expect_exact(res, v if v is not None and 0 <= v <= top else None, False)
    def text(s): return None if res == 'ok ' + s else f'expected {s}'
    if op == 'is_zero': return text('true' if x == 0 else 'false')
    if op == 'limbs': return text(' '.join(str(x >> (64 * i) & U64) for i in range(w // 64)))
    if op == 'low_u64': return fit(x & U64)
    if op == 'low_u128': return fit(x & U128)
    if op in ('as_u64', 'try_u64'): return fit(x if x <= U64 else None)
    if op in ('as_u128', 'try_u128'): return fit(x if x <= U128 else None)
    if op == 'shr': return fit(x >> y)
    if op == 'cmp': return text(f"{'Less' if x < y else 'Greater' if x > y else 'Equal'} {str(x == y).lower()} {str(x < y).lower()} {str(x >= y).lower()}")
    if op[-1] in 'iu' and op[:-1] in ('add', 'sub', 'mul', 'div'): op = op[:-1]
    op = op.replace('checked_', '')
    if op == 'pow':   # by the size first: 2^(2^500) is never computed
        return fit(x**y if x < 2 or y < 600 else None)
    return fit(x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else (None if y == 0 else x // y if op == 'div' else x % y))
def gen_uint(r):
    for t in UW:
        for c in ('MAX', 'max_value', 'zero', 'one', 'default'): yield f'uop {t} {c}'
    while True:
        t = r.choice(list(UW)); w = UW[t]; x = num(r, w)
        if r.random() < .5: x = min(x, num(r, r.randrange(1, w + 1)))
        k = r.randrange(8)
        if k == 0: yield f'uop {t} {r.choice(["is_zero", "limbs", "low_u64", "low_u128"])} {x}'
        elif k == 1:
            op, e = r.choice([('as_u64', 64), ('try_u64', 64), ('as_u128', 128), ('try_u128', 128)])
            v = r.choice([x, num(r, e), 2**e - 1, 2**e, 2**e + 1, 2**e << 64])
            yield f'uop {t} {op} {min(v, 2**w - 1)}'
        elif k == 2: yield f'uop {t} shr {x} {r.choice([0, 1, 63, 64, 65, 127, 128, w - 1, r.randrange(w)])}'
        elif k == 3: yield f'uop {t} {r.choice(["addi", "subi", "muli", "divi"])} {x} {r.choice([0, 1, 2, 2**31 - 1, r.randrange(2**31)])}'
        elif k == 4: yield f'uop {t} divu {x} {num(r, 128)}'
        elif k == 5: yield f'uop {t} checked_pow {r.choice([0, 1, 2, 10, num(r, 64), x])} {r.choice([0, 1, 2, 3, w - 1, w, w // 64, r.randrange(w + 2)])}'
        else:
            y = num(r, w)
            if r.random() < .5: y = min(y, num(r, r.randrange(1, w + 1)))
            op = r.choice(['add', 'sub', 'mul', 'div', 'rem', 'checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'checked_rem', 'cmp'])
            if 'add' in op and r.random() < .4: y = 2**w - 1 - x + r.choice([-1, 0, 1])
            elif 'mul' in op and r.random() < .4: y = (2**w - 1) // max(1, x) + r.choice([-1, 0, 1])
            elif r.random() < .3: y = x + r.choice([-1, 0, 1])
            yield f'uop {t} {op} {x} {max(0, min(2**w - 1, y))}'
J = dict(uop=j_uop, d=j_d, ccast=j_cast, ucast=j_cast, dx=j_dx, dy=j_dy, nx=j_nx, step=j_step, enough=j_enough, min_out=j_min_out)

GROUPS = dict(uint=gen_uint, decimals=gen_decimals, casts=gen_casts, delta=gen_delta, next=gen_next, step=gen_step)

def search(exe, groups, seed, budget, judge_fn=judge, mode='math'):
    """returns dict(evaluations, distinct, samples, violations)"""
    s = Srv(exe, mode); r = random.Random(seed); gens = [GROUPS[g](r) for g in groups]
    t0 = time.time(); n = 0; ok = 0; seen = set(); samples = []; viol = []
    while time.time() - t0 < budget and len(viol) < 3:
        lines = []
        for g in gens:
            for _ in range(1500): 
                try: lines.append(next(g))
                except StopIteration: gens = [x for x in gens if x is not g]; break
        if not lines: break
        outs = s.batch(lines)
        for c, o in zip(lines, outs):
            n += 1
            if o == '': viol.append(dict(call=c, result='(process died)', wrong='the process died')); s = Srv(exe, mode); break
            if o.startswith('ok'):
                ok += 1; seen.add(hash(c))
            m = judge_fn(c, o)
            if m: viol.append(dict(call=c, result=o, wrong=m)); 
            if len(viol) >= 3: break
        if len(samples) < 3: samples.append(f'{lines[0][:400]} -> {outs[0][:400]}')
    s.close()
    return dict(evaluations=n, distinct_nontrivial=len(seen), samples=samples, violations=viol, wall=round(time.time() - t0, 2))

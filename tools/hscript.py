"""small builder for histories used by demonstrations: lines for `replay svc`"""
X, Y, Z = 101, 102, 103          # tokens: check the order with key()
ADMIN, A, B, C = 1, 11, 12, 13
E24, E12 = 10**24, 10**12
MINP, MAXP = 15258932 * 10**12, 65535383934512647 * 10**12
def akey(a): return a.to_bytes(8, 'little')
def key(fee=6 * 10**9, sp=1, t0=X, t1=Y):
    return f'{t0} {t1} {fee} {sp}' if akey(t0) < akey(t1) else f'{t1} {t0} {fee} {sp}'
class H:
    def __init__(s, pf=10**10): s.l = [f'init 7777 {ADMIN} {pf}']; s.mid = 0; s.ts = 1000; s.h = 10
    def env(s, who, value=0, ts=None): s.l.append(f'env {who} {value} {s.ts if ts is None else ts} {s.h} 1000000000000'); return s
    def do(s, who, line, value=0, ts=None): s.env(who, value, ts); s.l.append(line); return s
    def q(s, line): s.l.append(line); return s
    def tier(s, fee=6 * 10**9, sp=1): return s.do(ADMIN, f'add_fee_tier {fee} {sp}')
    def pool(s, fee=6 * 10**9, sp=1, price=E24, tick=0, t0=X, t1=Y, who=ADMIN): return s.do(who, f'create_pool {t0} {t1} {fee} {sp} {price} {tick}')
    def dep(s, who, tok, amt, kind='true'):
        s.mid += 1; s.do(who, f'deposit_single_token {tok} {amt}'); s.l.append(f'reply {s.mid} {kind}'); return s
    def pos(s, who, lo, hi, liq, k=None, lim=(MINP, MAXP)): return s.do(who, f'create_position {k or key()} {lo} {hi} {liq} {lim[0]} {lim[1]}')
    def swap(s, who, xy, amt, by_in=1, lim=None, k=None): return s.do(who, f'swap {k or key()} {int(xy)} {amt} {by_in} {lim if lim is not None else (MINP if xy else MAXP)}')
    def dump(s, accounts=(ADMIN, A, B, C), ks=(), ticks=()):
        ks = ks or (key(),); s.l.append(f'dump {len(accounts)} {" ".join(map(str, accounts))} {len(ks)} ' + ' '.join(f'{k} {len(ticks)} {" ".join(map(str, ticks))}' for k in ks)); return s

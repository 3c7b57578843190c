"""Bounded search for inputs on which the client library and the contract disagree: every call is given to both compiled libraries.
A swap simulation is compared with the contract's swap as modelled call by call in svcsearch (whose formulas are the contract's own)."""
import random, time
from . import mathsearch as M, ticksearch, ctrsearch, svcsearch
from .mathsearch import MINP, MAXP, MAXTICK
from .oracle import *
from .svcsearch import Model, Fail, Unknown, LIQ, SQ, CUR, TI
from .ctrsearch import pr, greatest_tick

SKIP = ('ccast', 'ucast', 'nx', 'liq ', 'tick_', 'pool_', 'pos_')       # not in the client library (or private there)
SHARED = {'d', 'dx', 'dy', 'step', 'amount_delta', 'enough', 'max_liq', 'check_ticks', 'check_tick', 'min_out', 'price', 'from_tick', 'rel', 'max_tick', 'min_tick', 'max_price', 'min_price', 'tick_at', 'bdt', 'bdtu',
          'fg_add', 'fg_sub', 'fg_from', 'fg_to', 'fg_inside', 'owed', 'spl_add', 'spl_sub', 'spl_global', 'spl_inside', 'liq_x', 'liq_y', 'search_limit', 't2p', 'p2t', 'max_chunk', 'feetier', 'tm'}
def one_key(line):
    """the client keeps one pool's bitmap per map"""
    return ' ; '.join(c for c in line.split(' ; ') if c.split()[0] == 'tm' or c.split()[1] == '0')
def gen_owed(r):
    while True:
        lo, up, cur = r.randrange(-9, 9), r.randrange(-9, 9), r.randrange(-9, 9)
        if r.random() < .8: lo, up = min(lo, up), max(lo, up) + 1
        v = [M.num(r, 128) if r.random() < .6 else r.getrandbits(90) for _ in range(8)]
        yield f'owed {lo} {v[0]} {v[1]} {up} {v[2]} {v[3]} {cur} {v[4]} {v[5]} {v[6]} {v[7]} {M.liq(r)}'
M.GROUPS.setdefault('owed', gen_owed)

def owed_contract(s, c):
    a = c.split()[1:]
    r = s.one('fg_inside ' + ' '.join(a[:9]))
    if not r.startswith('ok'): return r
    x, y = r.split()[1:]; out = []
    for g, p in ((x, a[9]), (y, a[10])):
        d = s.one(f'fg_sub {g} {p}').split()[1]; q = s.one(f'fg_to {d} {a[11]}')
        if not q.startswith('ok'): return q
        out.append(q.split()[1])
    return 'ok ' + ' '.join(out)
def failed(o): return not o.startswith('ok')
def differ(call, c, s):
    """contract's answer, client's answer"""
    if 'bad' in (c, s): return None
    if c.startswith('ok'):
        return None if c == s else f'the contract answers {c[3:]}, the client library {s[3:] if s.startswith("ok") else s}'
    if failed(s): return None
    return (TAG if out_of_range(call) else '') + f'the contract refuses, the client library answers {s[3:]}'
TAG = 'PRICE-OUT-OF-RANGE: '
def out_of_range(call):
    """the listed finding: the next price leaves the representable range; the contract refuses, the client stops at the end of the range"""
    a = call.split()
    if a[0] not in ('step', 'enough'): return False
    v = list(map(int, a[1:]))
    p, l, am, bi, f, xy = (v[0], v[2], v[3], v[4], v[5], v[0] >= v[1]) if a[0] == 'step' else (v[1], v[2], v[0], v[4], v[3], bool(v[5]))
    if not l or f > E12: return False
    return bool(M.nin_bad(p, l, am * (E12 - f) // E12, xy) if bi else M.nout_bad(p, l, am, xy))

# ---- simulated swaps
def gen_sim(r):
    while True:
        sp = r.choice([1, 1, 2, 5, 10, 60, 100]); lim = MAXTICK // sp * sp; f = r.choice([0, 10**8, 6 * 10**8, 3 * 10**9, 10**10, 10**11, E12 // 2])
        c = r.choice([0, 0, r.randrange(-3000, 3000), r.randrange(-200000, 200000)]) // sp * sp
        w = r.choice([3, 10, 60, 260, 600]); base = r.choice([10**9, 10**12, 10**14, 10**16, 10**18, 10**20]) * r.randrange(1, 10)
        net = {}; liq = 0
        for _ in range(r.choice([1, 2, 3, 6])):
            a, b = (c + sp * r.randrange(-w, w + 1) for _ in range(2)); a, b = max(-lim, min(a, b)), min(lim, max(a, b))
            if a >= b: continue
            l = base * r.randrange(1, 5) // r.choice([1, 1, 1, 10**3, 10**6]) + 1; net[a] = net.get(a, 0) + l; net[b] = net.get(b, 0) - l
            if a <= c < b: liq += l
        p = pr(c) + (0 if r.random() < .4 or c >= lim else r.randrange(0, pr(min(MAXTICK, c + sp)) - pr(c)))
        for _ in range(4):
            xy = r.randrange(2); t = r.choice([c + sp * r.randrange(-w, w + 1), r.choice(list(net) or [c])]); t = max(-lim, min(lim, t))
            li = r.choice([MINP if xy else MAXP] * 3 + [pr(t), pr(t) + r.choice([-1, 0, 1])])
            am = max(base, liq) * w * sp * r.randrange(1, 1000) // r.choice([10**10, 10**11, 10**12, 10**13]) + r.randrange(0, 3)
            yield (f, sp, c, p, liq, xy, am, r.randrange(2), li, tuple(sorted(net.items())))
def sim_line(v):
    f, sp, c, p, l, xy, am, bi, li, net = v
    return f'sim {f} {sp} {c} {p} {l} {xy} {am} {bi} {li}' + ''.join(f' ; {t} {abs(d)} {int(d >= 0)}' for t, d in net)
def sim_contract(math, v):
    """None (the contract refuses and the client must not promise anything) or its answer"""
    f, sp, c, p, l, xy, am, bi, li, net = v
    m = Model(math); k = (1, 2, f, sp); pool = [0] * 10; pool[LIQ], pool[SQ], pool[CUR] = l, p, c
    m.pools[k] = pool; m.now = 5
    for t, d in net: m.ticks[(k, t)] = [t, d, abs(d), pr(t), 0, 0, 0]
    try: return m.sim(k, bool(xy), am, bool(bi), li)
    except Fail as e: return str(e) or 'refused'
def sim_differ(v, want, s):
    if isinstance(want, str):
        if not s.startswith('ok'): return None
        a = s[3:].split(' | ')[0].split(); out, insuff, steps, outd = int(a[1]), a[5] == '1', a[6] == '1', a[7] == '1'
        return None if out == 0 or insuff or steps or outd else (TAG if want in ('enough', 'step') else '') + f'the contract refuses the swap ({want}), the simulation promises {out}'
    if not s.startswith('ok'): return f'the contract swaps {want["ain"]} for {want["aout"]}, the simulation fails: {s}'
    a, t = s[3:].split(' |'); a = a.split()
    if a[6] == '1': return None                         # gave up after its maximum of steps and says so
    w = [want['ain'], want['aout'], want['start'], want['pool'][SQ], want['fee'], 0, 0, 0]
    if list(map(int, a)) != w: return f'the contract: in, out, start, end, fee, flags = {w}; the simulation: {a}'
    if list(map(int, t.split())) != [x[TI] for x in want['ticks']]: return f'the contract crosses {[x[TI] for x in want["ticks"]]}, the simulation {t.split()}'

def search(main, sdk, seed, budget):
    r = random.Random(seed); C, S = M.Srv(main), M.Srv(sdk)
    names = ['decimals', 'delta', 'step', 'amounts', 'liq', 'rel', 'fees', 'owed', 'tickmap', 'log_spacing', 'next', 'posrec']
    gens = {n: M.GROUPS[n](r) for n in names if n in M.GROUPS}; sims = gen_sim(r)
    fixed = [f'from_tick {t}' for t in range(-MAXTICK, MAXTICK + 1)] + [f'{f} {s}' for s in range(0, 300) for f in ('max_tick', 'min_tick', 'max_price', 'min_price', 'max_chunk', 'max_liq')] \
        + [f'tick_at {q} {s}' for t in range(-MAXTICK, MAXTICK + 1, 7) for q in (pr(t), max(MINP, pr(t) - 1)) for s in (1, 10)] + [f'feetier {f} {s}' for f in (0, 1, E12 - 1, E12, E12 + 1) for s in range(0, 103)] \
        + [f't2p {t} {s}' for s in (1, 2, 7, 100) for t in range(-MAXTICK // s * s, MAXTICK + 1, 97 * s)]
    tagged = []
    def note(v):
        if not v['wrong']: return
        if v['wrong'].startswith(TAG): tagged.append(v)
        else: viol.append(v)
    t0 = time.time(); n = 0; seen = set(); samples = []; viol = []; nsim = nok = 0; rounds = 0
    while time.time() - t0 < budget and len(viol) < 3 or fixed and len(viol) < 3:
        lines = []
        for k in range(10):
            lines += fixed[:4000]; fixed = fixed[4000:]
            if not fixed: break
        if not lines or rounds: 
            for g in gens.values():
                for _ in range(500):
                    c = next(g)
                    if c.split()[0] in SHARED: lines.append(one_key(c) if c.startswith('tm ') else c)
        rounds += 1
        cl = [c for c in lines if not c.startswith('owed')]
        co = dict(zip(cl, C.batch(cl))); so = S.batch(lines)
        for c, s in zip(lines, so):
            n += 1; k = co[c] if c in co else owed_contract(C, c)
            if k.startswith('ok'): seen.add(hash(c))
            if s == '' or k == '': viol.append(dict(call=c, result=s or k, wrong='the process died')); break
            m = differ(c, k, s)
            note(dict(call=c, result=s, wrong=m, sdk=1))
            if len(viol) >= 3: break
        if len(samples) < 3: samples.append(f'{lines[-1]} -> both {so[-1]}')
        if len(viol) >= 3: break
        vs = [next(sims) for _ in range(200)]
        for v, s in zip(vs, S.batch([sim_line(v) for v in vs])):
            try: w = sim_contract(C, v)
            except Unknown: continue
            n += 1; nsim += 1
            if not isinstance(w, str): nok += 1; seen.add(hash(v))
            m = sim_differ(v, w, s)
            note(dict(call=sim_line(v), result=s, wrong=m, sdk=1))
            if len(viol) >= 3: break
    C.close(); S.close()
    return dict(evaluations=n, distinct_nontrivial=len(seen), samples=samples, violations=viol + tagged[:1], listed=len(tagged), wall=round(time.time() - t0, 2), simulated=nsim, simulated_through=nok)

"""Build /repo's code, extract it into the Verus units, run the verifier, classify what it says."""
import json, os, re, shutil, signal, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
REPO = '/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.81', CARGO_NET_OFFLINE='true')
ENV.pop('CARGO_TARGET_DIR', None)

class Undecided(Exception): pass

def sh(cmd, cwd=None, env=None, timeout=800, stdout=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)

def seed_lock(d): pass

def build_vx():
    r = sh(['cargo', 'build', '--offline'], cwd=f'{V}/vx', env=dict(ENV, CARGO_TARGET_DIR=f'{B}/vx'))
    if r.returncode: raise Undecided('extractor does not build: ' + r.stderr[-2000:])
    return f'{B}/vx/debug/vx'

def build_harness():
    r = sh(['cargo', 'build', '--offline'], cwd=f'{V}/harness', env=dict(ENV, CARGO_TARGET_DIR=f'{B}/harness'))
    if r.returncode: raise Undecided('harness does not build against /repo: ' + r.stderr[-3000:])
    return f'{B}/harness/debug/replay'

def build_sdk_harness():
    r = sh(['cargo', 'build', '--offline'], cwd=f'{V}/harness-sdk', env=dict(ENV, CARGO_TARGET_DIR=f'{B}/harness-sdk'))
    if r.returncode: raise Undecided('sdk harness does not build against /repo: ' + r.stderr[-3000:])
    return f'{B}/harness-sdk/debug/replay-sdk'

def expand(pkg, sdk=False):
    """macro-expanded source of a /repo crate (the decimal impls are produced by /repo's proc macro); sdk: of the client library's crates"""
    out = f'{B}/expanded_{"sdk_" if sdk else ""}{pkg}.rs'
    os.makedirs(B, exist_ok=True)
    cmd = ['cargo', 'rustc', '--offline', '-p', pkg, '--lib'] + (['--crate-type=rlib'] if pkg == SDKPKG else []) + ['--', '-Zunpretty=expanded']
    with open(out + '.tmp', 'w') as f:
        r = sh(cmd, cwd=f'{V}/harness-sdk' if sdk else f'{V}/harness', env=dict(ENV, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=f'{B}/exp-sdk' if sdk else f'{B}/exp'), stdout=f)
    if r.returncode: raise Undecided(f'cannot expand {pkg}: ' + r.stderr[-2000:])
    os.replace(out + '.tmp', out)
    return out

SDKPKG = 'invariant-vara-wasm'
def expansions(units):
    exp = {}
    if any(not u.endswith('@sdk') for u in units): exp.update({p: expand(p) for p in ('decimal', 'math')})
    if any(u.endswith('@sdk') for u in units): exp.update({'sdk:math': expand(SDKPKG, True), 'sdk:decimal': expand('decimal', True)})
    return exp

# where the client library keeps its copy of a contract's file
W = 'sdk/src/wasm'
SDKMAP = {**{f'calc/math/types/{n}.rs': f'{W}/types/{n}.rs' for n in ('token_amount', 'liquidity', 'percentage', 'fixed_point')}, 'calc/math/clamm.rs': f'{W}/clamm.rs', 'calc/math/log.rs': f'{W}/log.rs', 'calc/math/consts.rs': f'{W}/consts.rs', 'calc/math/types/sqrt_price.rs': f'{W}/types/sqrt_price.rs',
    'calc/math/types/fee_growth.rs': f'{W}/types/fee_growth.rs', 'calc/math/types/seconds_per_liquidity.rs': f'{W}/types/seconds_per_liquidity.rs', 'src/contracts/logic/liquidity_result.rs': f'{W}/math.rs',
    'src/contracts/collections/tickmap.rs': f'{W}/collections/tickmap.rs', 'src/contracts/storage/pool.rs': f'{W}/storage/pool.rs', 'src/contracts/storage/tick.rs': f'{W}/storage/tick.rs'}

def extract(unit, vx, exp, probe=False):
    """unit NAME: template NAME.tpl over the contract's files; NAME@sdk: the same template over the client library's copies; NAME@X: with the parts the template marks for X"""
    d = f'{B}/units'; os.makedirs(d, exist_ok=True)
    fn = unit.replace('@', '_') + ('_probe' if probe else '')
    out, rep = f'{d}/{fn}.rs', f'{d}/{fn}.json'
    env = dict(ENV)
    if probe: env['VX_PROBE'] = '1'
    tpl, _, var = unit.partition('@')
    if var: env['VX_DEF'] = var
    if var != 'sdk': var = ''
    args = [f'expanded:{k}={v}' for k, v in exp.items() if ':' not in k] if not var else [f'expanded:{k[len(var) + 1:]}={v}' for k, v in exp.items() if k.startswith(var + ':')] + [f'{a}={os.environ.get("VX_REPO", "/repo")}/{b}' for a, b in SDKMAP.items()]
    r = sh([vx, f'{V}/units/{tpl}.tpl', out, rep] + args, env=env)
    if r.returncode: raise Undecided(f'{unit}: ' + (r.stderr.strip()[-1500:] or 'extraction failed'))
    return out, json.load(open(rep))

FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'possible arithmetic underflow/overflow', 'possible division by zero',
        'invariant not satisfied', 'decreases not satisfied', 'possible bit shift underflow/overflow', 'loop invariant', 'termination', 'recommendation not met',
        'precondition for this', 'unreachable', 'constructor of', 'unable to prove', 'might not', 'failed')
SOFT = ('rlimit', 'Resource limit', 'resource limit', 'timeout', 'timed out')

def marks(path):
    """generated line -> /repo item, from the extractor's markers"""
    m = []; cur = None; fn = None
    for i, l in enumerate(open(path), 1):
        if l.startswith('//#VX '): cur = l[6:].strip()
        elif l.startswith('//#VXEND'): cur = None
        m.append(cur)
    return m

DEADLINE = [None]   # time by which the proofs of this run have to be over
def verus(path, args=(), timeout=500):
    env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
    t = time.time()
    if DEADLINE[0]: timeout = max(10, min(timeout, DEADLINE[0] - t))
    try:
        p = subprocess.Popen(['verus', path, '--triggers-mode', 'silent', '--output-json', '--time', '--error-format=json', '--multiple-errors', '3', *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=f'{B}/units', start_new_session=True)
        try: out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.communicate(); raise   # with its solvers
        r = subprocess.CompletedProcess(p.args, p.returncode, out, err)
    except subprocess.TimeoutExpired:
        return dict(status='undecided', why='verifier ran out of its time', verified=0, errors=0, fails=[], wall=time.time() - t, smt_ms=0)
    try: j = json.loads(r.stdout[r.stdout.index('{'):])
    except Exception: return dict(status='undecided', why='no verifier output: ' + r.stderr[-1500:], verified=0, errors=0, fails=[], wall=time.time() - t, smt_ms=0)
    vr = j.get('verification-results', {})
    mk = marks(path)
    fails, soft, hard = [], [], []
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') != 'error': continue
        msg = d.get('message', '')
        if msg.startswith('aborting due to'): continue
        spans = d.get('spans', [])
        items = []
        for s in spans:
            if s.get('file_name', '').endswith(os.path.basename(path)) or s.get('file_name') == path:
                it = mk[s['line_start'] - 1] if s['line_start'] - 1 < len(mk) else None
                items.append((s.get('is_primary'), it, s['line_start'], (s['text'][0]['text'].strip() if s.get('text') else ''), s.get('label')))
        item = next((x[1] for x in items if x[1]), None)
        rec = dict(message=msg, item=item, at=[dict(line=x[2], text=x[3], label=x[4], item=x[1]) for x in items])
        if any(s in msg for s in SOFT): soft.append(rec)
        elif any(s in msg for s in FAIL) and not d.get('code'): fails.append(rec)
        else: hard.append(rec)
    smt = 0
    try: smt = j['times-ms']['smt']['total']
    except Exception: pass
    res = dict(verified=vr.get('verified', 0) or 0, errors=vr.get('errors', 0) or 0, fails=fails, soft=soft, hard=hard, wall=round(time.time() - t, 2), smt_ms=smt, raw=r.stderr if not vr.get('success') else '')
    if vr.get('encountered-vir-error') or vr.get('encountered-error') and not fails and not soft or hard:
        res['status'] = 'undecided'; res['why'] = 'the verifier does not accept the extracted text: ' + '; '.join(h['message'] for h in hard)[:600]
    elif vr.get('success') and res['errors'] == 0 and r.returncode == 0: res['status'] = 'proved' if res['verified'] else 'undecided'; res['why'] = '' if res['verified'] else 'no obligations'
    elif fails: res['status'] = 'failed'; res['why'] = '; '.join(sorted({(f['item'] or 'lemma') + ': ' + f['message'] for f in fails}))
    else: res['status'] = 'undecided'; res['why'] = 'solver resources: ' + '; '.join(h['message'] for h in soft)[:400]
    return res

def _origin():
    """which unit proves what a file included with `assume` (or a dec_*/casts_assumed file) declares; and what no unit proves"""
    import glob
    texts = {os.path.basename(f): open(f).read() for f in glob.glob(f'{V}/units/*.tpl') + glob.glob(f'{V}/units/*.inc')}
    plain, assumed = {}, set()
    for f, t in texts.items():
        for m in re.finditer(r'^//@include (\S+)( assume)?', t, re.M): assumed.add(m.group(1)) if m.group(2) else plain.setdefault(m.group(1), set()).add(f)
    for _ in texts:   # what an assumed file includes is assumed with it
        assumed |= {m.group(1) for f in assumed for m in re.finditer(r'^//@include (\S+)', texts[f], re.M)}
    def roots(f): return {f[:-4]} if f.endswith('.tpl') else {r for g in plain.get(f, ()) for r in roots(g)}
    proved, open_ = {}, set()
    for f, t in texts.items():
        ext = set(re.findall(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+|exec\s+)?(?:fn|struct)\s+(\w+)', t))
        if f.startswith('dec_') or f == 'casts_assumed.inc':
            for n in ext: proved.setdefault(n, set()).add('casts' if f == 'casts_assumed.inc' else 'decimals')
            continue
        open_ |= ext
        if f in assumed:
            for n in re.findall(r'^\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:open\s+)?(?:broadcast\s+)?(?:proof\s+)?fn\s+(\w+)', t, re.M) + [x.split('::')[-1] for x in re.findall(r'^//@(?:fn|m)\s+(?:\S+\.rs\s+)?([\w:<>]+)', t, re.M)]:
                if n not in ext: proved.setdefault(n, set()).update(roots(f))
    return proved, open_
def split_trusted(results):
    """(trusted_base, reused): a name in `reused` carries a contract another unit of this kit proves; every other assumed name is trusted"""
    proved, open_ = _origin(); base, reused = set(), {}
    for r in results:
        for k, v in r['trusted'].items():
            for n in v:
                u = r['unit'].split('@')[0]
                if k == 'external_body' and n in proved and n not in open_ and proved[n] - {u}: reused.setdefault(f'{n} (proved in {", ".join(sorted(proved[n] - {u}))})', set()).add(r['unit'])
                else: base.add(f'{r["unit"]}: {k} {n}')
    return sorted(base), [f'{n}: used by {", ".join(sorted(us))}' for n, us in sorted(reused.items())]
def trusted(path):
    """mechanical scan for what is assumed, not proved"""
    t = open(path).read()
    out = {}
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+|exec\s+)?(?:fn|struct)\s+(\w+)', t): out.setdefault('external_body', []).append(m.group(1))
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]+)\]', t): out.setdefault('assume_specification', []).append(m.group(1).strip())
    for m in re.finditer(r'\baxiom\s+fn\s+(\w+)|broadcast axiom fn (\w+)', t): out.setdefault('axiom', []).append(m.group(1) or m.group(2))
    n = len(re.findall(r'(?<![_\w])assume\s*\(', t)) ; a = len(re.findall(r'(?<![_\w])admit\s*\(', t))
    if n: out['assume'] = [f'{n} statement(s)']
    if a: out['admit'] = [f'{a} statement(s)']
    return out

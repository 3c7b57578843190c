#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree
   check.py --replay FILE       re-run a recorded failing input against /repo's current tree
   check.py --setup             build everything once"""
import json, os, sys, time, random, re, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, registry
V, B = core.V, core.B
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def known(pid):
    """known findings: lines `known: property=<id> key=<regex on the failing call> :: <what fails>`"""
    out = []
    try:
        for l in open(f'{V}/known_findings.txt'):
            m = re.match(r'known: property=(\S+) key=(\S+) :: (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    except FileNotFoundError: pass
    return out

def proof(units, vx, exp):
    """run every unit; returns list of results"""
    def one(u):
        try:
            path, rep = core.extract(u, vx, exp)
            pp, prep = core.extract(u, vx, exp, probe=True)
            with ThreadPoolExecutor(1) as pe:
                fp = pe.submit(core.verus, pp, ('--rlimit', '3'))
                r = core.verus(path)
                pr = fp.result()
            r.update(unit=u, items=rep['items'], notes=rep['notes'], trusted=core.trusted(path))
            lost = [n[10:] for n in rep['notes'] if n.startswith('lost hint|')]
            if lost and r['status'] == 'failed':   # what fails where a proof hint has lost its place decides nothing
                keep = [f for f in r['fails'] if not any(f['item'] and n.startswith(f['item'] + ':') for n in lost)]
                if not keep: r['status'] = 'undecided'; r['why'] = 'a proof hint has lost its place: ' + '; '.join(lost)[:400]
                r['fails'] = keep
            if r['status'] == 'proved':   # vacuity: at the start of every proved body `false` must not be provable
                want = {f"{i['path']}|{i['item']}|{i['line']}" for i in prep['items'] if i.get('probed')}
                got = {f['item'] for f in pr['fails'] + pr.get('soft', [])}
                r['probes'] = len(want); r['vacuous'] = sorted(want - got)
                if pr['status'] == 'undecided' and not got and want: r['vacuous'] = []; r['probes'] = 0
                if r['vacuous']: r['status'] = 'undecided'; r['why'] = 'contradictory preconditions: ' + ', '.join(r['vacuous'])
            return r
        except core.Undecided as e:
            return dict(unit=u, status='undecided', why=str(e), verified=0, errors=0, fails=[], wall=0, smt_ms=0, items=[], notes=[], trusted={})
    with ThreadPoolExecutor(4) as ex: return list(ex.map(one, units))

def main(pid):
    t0 = time.time(); cfg = registry.CHECKS[pid]
    if TIER == 'quick': core.DEADLINE[0] = t0 + 580
    os.makedirs(f'{V}/evidence', exist_ok=True); os.makedirs(f'{B}/replays', exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        fh = {k: ex.submit(f) for k, f in registry.HARNESSES.items() if k in cfg.get('harness', ('main',))}
        fv = ex.submit(core.build_vx) if cfg['units'] else None
        fe = ex.submit(core.expansions, cfg['units']) if cfg['units'] else None
        results = []
        budget = cfg.get('budget', 15) if TIER == 'quick' else cfg.get('thorough', 240)
        exes, hwhy = {}, None
        def first_search():
            for k, f in fh.items(): exes[k] = f.result()
            return cfg['search'](exes, SEED, budget)
        fs = ex.submit(first_search)
        try:
            if cfg['units']: results = proof(cfg['units'], fv.result(), fe.result())
        except core.Undecided as e:
            results = [dict(unit=u, status='undecided', why=str(e), verified=0, errors=0, fails=[], wall=0, smt_ms=0, items=[], notes=[], trusted={}) for u in cfg['units']]
        sres = dict(evaluations=0, distinct_nontrivial=0, samples=[], violations=[], wall=0)
        try: sres = fs.result()
        except core.Undecided as e: hwhy = str(e)
    own = cfg.get('owns')
    for r in results:   # an obligation of a function another property is about does not decide this one
        if r['status'] == 'failed' and own:
            mine = [f for f in r['fails'] if not f['item'] or re.search(own, f['item'].split('|')[1] if '|' in f['item'] else f['item'])]
            if not mine: r['status'] = 'undecided'; r['why'] = 'failed obligations belong to other properties: ' + r['why']
    failed = [r for r in results if r['status'] == 'failed']
    und = [r for r in results if r['status'] == 'undecided']
    kn = known(pid)
    listed = lambda v: next((i for i, (rx, _) in enumerate(kn) if re.search(rx, v['call'] + ' => ' + v['wrong'])), None)
    if (failed or und) and not hwhy and all(listed(v) is not None for v in sres['violations']):   # no input yet: look harder
        more = cfg['search'](exes, SEED + 7919, cfg.get('hard', 120))
        for k in ('evaluations', 'distinct_nontrivial', 'wall'): sres[k] += more[k]
        sres['violations'] += more['violations']
    # ---- what was found
    viol = [v for v in sres['violations'] if listed(v) is None]
    for i, (rx, what) in enumerate(kn):
        if registry.still_fails(exes, pid, rx): print(f'KNOWN-FINDING: property={pid} {what}')
    rc = 0; lines = []
    if viol:
        p = f'{B}/replays/{pid}.json'
        json.dump(dict(property=pid, violations=viol, failed_obligations=[dict(unit=r['unit'], fails=r['fails']) for r in failed], how=f'python3 {V}/check.py --replay {p}'), open(p, 'w'), indent=1)
        for v in viol: print(f'  {v["call"]} -> {v["result"]}: {v["wrong"]}')
        for r in failed: print(f'  obligation not discharged: {r["why"]}')
        print(f'VIOLATION property={pid} replay={p}'); rc = 1
    elif failed:
        p = f'{B}/replays/{pid}.json'
        json.dump(dict(property=pid, violations=[], failed_obligations=[dict(unit=r['unit'], fails=r['fails'], verifier_output=r.get('raw', '')[-20000:]) for r in failed]), open(p, 'w'), indent=1)
        for r in failed: print(f'  obligation not discharged: {r["why"]}')
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found'); rc = 1
    for r in und: print(f'  undecided by proof, bounded search only: {r["unit"]}: {r["why"][:400]}')
    if hwhy: print('  search not run: ' + hwhy[:600])
    # ---- evidence
    ob = sum(r['verified'] + r['errors'] for r in results); dis = sum(r['verified'] for r in results)
    asm = registry.assumptions(pid, results); base_, reused_ = core.split_trusted(results)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=cfg.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(viol) + (1 if failed and not viol else 0), assumptions=asm,
        coverage=dict(
            obligations=ob, discharged=dis, checker_cmd='verus <unit>.rs --triggers-mode silent (back end: z3, bundled with Verus) on text extracted from /repo by vx in this run',
            trusted_base=base_, contracts_proved_in_other_units=reused_,
            units=[dict(unit=r['unit'], status=r['status'], why=r['why'], obligations=r['verified'] + r['errors'], discharged=r['verified'], solver_ms=r['smt_ms'], wall_s=r['wall'], reachability_probes=r.get('probes', 0),
                functions_under_contract=[f'{i["path"]}:{i["line"]} {i["item"]}' for i in r['items'] if not i['assumed'] and i['line']],
                contracts_assumed_here=[f'{i["path"]}:{i["line"]} {i["item"]}' for i in r['items'] if i['assumed']], extraction_notes=r['notes']) for r in results],
            bounded_search=dict(note='bounded stand-in, never counted as proved', evaluations=sres['evaluations'], distinct_nontrivial=sres['distinct_nontrivial'], samples=sres['samples'], wall_s=sres['wall'], histories=sres.get('histories', 0), calls_by_kind=sres.get('kinds', {}), rule=cfg.get('rule', ''), not_run=hwhy or ''),
            evaluations=sres['evaluations'], distinct_nontrivial=sres['distinct_nontrivial'], rule=cfg.get('rule', ''), samples=sres['samples'] or ['(none)'],
            explanation=cfg.get('explanation', '')))
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid}: proof {dis}/{ob} obligations, {len(results)} unit(s) ' + ','.join(r['unit'] + '=' + r['status'] for r in results) + f'; search {sres["evaluations"]} cases; {ev["wall_s"]} s')
    if not rc and not ob and not sres['evaluations']: print('nothing could be decided'); return 2
    return rc

if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        core.build_vx(); core.expansions(['main', 'client@sdk'])
        for f in registry.HARNESSES.values(): f()
        sys.exit(0)
    if sys.argv[1] == '--replay': sys.exit(registry.replay(json.load(open(sys.argv[2]))))
    sys.exit(main(sys.argv[1]))

"""which units, which search, per property"""
import subprocess
from . import core, mathsearch, ticksearch, ctrsearch, svcsearch, sdksearch
HARNESSES = dict(main=core.build_harness, sdk=core.build_sdk_harness)

def ms(*groups):
    return lambda exes, seed, budget: mathsearch.search(exes['main'], groups, seed, budget)

def hist(pid, *groups, share=.35):
    """direct calls of the group(s), then histories of calls against the compiled service"""
    def f(exes, seed, budget):
        a = mathsearch.search(exes['main'], groups, seed, budget * share) if groups else dict(evaluations=0, distinct_nontrivial=0, samples=[], violations=[], wall=0)
        if a['violations']: return a
        b = svcsearch.search(exes['main'], pid, seed, budget * (1 - share) if groups else budget)
        if b['errors'] and not b['evaluations']: raise core.Undecided('history search: ' + b['errors'][0])
        return dict(evaluations=a['evaluations'] + b['evaluations'], distinct_nontrivial=a['distinct_nontrivial'] + b['distinct_nontrivial'], samples=a['samples'] + b['samples'], violations=b['violations'], wall=a['wall'] + b['wall'],
            histories=b['histories'], kinds=b['kinds'])
    return f

RULE = 'calls generated from VERIF_SEED: boundary values, powers of two and ten +-3, exact multiples +-1, random widths; non-trivial = the real function returned a value that was compared with the mathematical definition'
HRULE = 'direct calls (boundary values, random widths) compared with reference models in unbounded integers, then random histories of service calls (random callers, amounts, pools, replies; 8 processes) compared call by call and state by state with a reference model of the whole contract; every call is a case'
CHECKS = {
    'C01': dict(units=['decimals'], search=ms('decimals', 'uint'), rule=RULE),
    'C02': dict(units=['casts'], search=ms('casts'), rule=RULE),
    'C03': dict(units=['clamm', 'amounts'], search=ms('delta', 'amounts'), rule=RULE, owns=r'^(?!.*get_next|.*compute_swap|.*is_enough|.*checked_big_div|.*max_liquidity|.*min_amount)'),
    'C04': dict(units=['clamm'], search=ms('next'), rule=RULE, owns=r'^(?!.*get_delta|.*compute_swap|.*is_enough|.*big_div_values_to_token)'),
    'C05': dict(units=['clamm', 'amounts'], search=ms('step'), rule=RULE, owns=r'compute_swap_step|is_enough'),
    'C06': dict(units=['ticks'], search=ms('ticks_all', 'rel'), rule='every tick of the range (exhaustive) against 1.0001^(t/2) computed with 60 digits, its neighbours and the ends; random opening prices'),
    'C07': dict(units=['logt'], search=ms('log_all', 'log_spacing'), rule='EXHAUSTIVE over the 443637 ticks: the real get_tick_at_sqrt_price(., 1) at price(t) and price(t)-1 (the hypothesis `boundary` of lemma l_tick_correct); random prices and spacings besides',
        explanation='The proof reduces every price and every spacing to the boundary prices of the ticks (l_sel_mono, l_tick_of_price, l_tick_correct); the boundary prices themselves are evaluated exhaustively on the compiled code, which is evaluation, not proof.'),
    'C08': dict(units=['fees'], search=ms('fees'), rule=RULE),
    'C09': dict(units=['liq'], search=ms('liq'), rule=RULE),
    'C10': dict(units=['tickmap'], search=hist('C10', 'tickmap'), rule=HRULE),
    'C11': dict(units=['pool', 'amounts', 'entry', 'calc', 'swap'], search=hist('C11', 'tickrec'), rule=HRULE, owns=r'Tick::|calculate_max_liquidity_per_tick|Pool::update_tick|Invariant::(create_tick|get_or_create_tick|add_tick|remove_tick)|(create|remove)_position|::claim_fee'),
    'C12': dict(units=['pool', 'entry', 'calc'], search=hist('C12', 'poolrec'), rule=HRULE, owns=r'Pool::(add_fee|withdraw|update_tick|default)|withdraw_protocol_fee'),
    'C13': dict(units=['pool', 'entry'], search=hist('C13', 'posrec'), rule=HRULE, owns=r'Position::|Pool::(create|update_liquidity|default)|InvariantService::(create_position|remove_position|claim_fee)'),
    'C14': dict(units=['coll', 'entry'], search=hist('C14', 'poslists'), rule=HRULE, owns=r'Positions::|InvariantService::(create_position|remove_position|transfer_position)'),
    'C15': dict(units=['coll', 'entry'], search=hist('C15', 'registry'), rule=HRULE, owns=r'^(?!Positions::|Invariant(Service)?::)|Invariant::(create_tick|get_or_create_tick|add_tick|remove_tick)|InvariantService::(create_pool|add_fee_tier|remove_fee_tier)'),
    'C16': dict(units=['ledger'], search=hist('C16'), rule=HRULE),
    'C17': dict(units=['transfer'], search=hist('C17'), rule=HRULE),
    'C18': dict(units=['entry', 'swap'], search=hist('C18'), rule=HRULE, owns=r'InvariantService::(?!create_|swap|quote|route)'),
    'C19': dict(units=['calc', 'swap'], search=hist('C19'), rule=HRULE, owns=r'calculate_swap|InvariantService::(swap|quote)$'),
    'C20': dict(units=['swap', 'amounts'], search=hist('C20'), rule=HRULE, owns=r'InvariantService::(route|swap_route|quote_route)$|min_amount_out'),
    'C21': dict(units=['calc@solv', 'solv@solv', 'entry', 'transfer'], search=hist('C21'), rule=HRULE + '; every state of every history is also checked for: owed to everybody <= tokens there', owns=r'calculate_swap'),
    'C22': dict(units=['decimals@sdk', 'clamm@sdk', 'amounts@sdk', 'ticks@sdk', 'logt@sdk', 'liq@sdk', 'fees@sdk', 'tickmap@sdk', 'keys@sdk', 'sim@sdk', 'calc@sim'], owns=r'^(?!.*calculate_swap$)', harness=('main', 'sdk'), budget=25,
        search=lambda exes, seed, budget: sdksearch.search(exes['main'], exes['sdk'], seed, budget), rule='every call given to the compiled contract code and to the compiled client library (all ticks exhaustively, random and boundary arguments), simulated swaps compared with the contract\'s swap; non-trivial = the contract answered and the answers were compared'),
    'C23': dict(units=['query', 'coll'], search=hist('C23'), rule=HRULE, owns=r'InvariantService::(get_|is_tick_initialized|fee_tier_exists)|tickmap_slice|liquidity_ticks_count|Tick::from|::get_all|::get_slice|Positions::get|Pools::get|Ticks::get|PoolKeys::count'),
}
BASE_ASSUME = [
    'primitive-types/uint crates: U128..U512 arithmetic, comparison and From conversions behave as the mathematical integers below 2^width (assumed contracts in units/uint.inc; each C01 run also tests them, bounded, against exact integers)',
    'a panic ends the message without effect (Gear reverts it), so every obligation is partial correctness: total on inputs where the code returns',
    'the extraction (vx) rewrites error texts, macros and panics as listed in DESIGN.md; nothing else of the function bodies changes',
    'Verus, its bundled z3, rustc and syn/prettyplease are trusted',
]
def assumptions(pid, results):
    a = list(BASE_ASSUME)
    for r in results:
        n = [i for i in r['items'] if i['assumed']]
        if n: a.append(f'{r["unit"]}: {len(n)} contracts taken over from other units, where they are proved: ' + ', '.join(sorted({i["item"] for i in n}))[:600])
    if pid in ('C19', 'C20'): a.append('calculate_swap is a function of the state and its arguments (safe Rust, no hidden state; the block timestamp is fixed within a message): calc_of')
    if any(r['unit'] == 'calc' for r in results): a.append('ax_boundary: the real tick-of-price function answers t at price(t) and t-1 just below it; evaluated exhaustively over all 443637 ticks by the check of C07')
    return a
KNOWN_CALL = {'PRICE-OUT-OF-RANGE': 'enough 1 65535383934512647000000000000 1 0 0 0'}
def still_fails(exes, pid, rx):
    """the listed input of a known finding, on the code as it is now"""
    c = KNOWN_CALL.get(rx)
    if not c or 'sdk' not in exes: return False
    a, b = mathsearch.Srv(exes['main']).one(c), mathsearch.Srv(exes['sdk']).one(c)
    return bool(sdksearch.differ(c, a, b))
def replay(d):
    bad = 0
    exe = core.build_harness(); s = mathsearch.Srv(exe)
    for v in d['violations']:
        if v.get('sdk'):
            q = mathsearch.Srv(core.build_sdk_harness()); b = q.one(v['call']); q.close()
            if v['call'].startswith('sim '): print(f'{v["call"]} -> client library {b}; when found: {v["wrong"]}'); bad |= b == v['result']; continue
            a = sdksearch.owed_contract(s, v['call']) if v['call'].startswith('owed') else s.one(v['call']); m = sdksearch.differ(v['call'], a, b)
            print(f'{v["call"]} -> contract {a}, client library {b}: ' + (m or 'the same')); bad |= bool(m); continue
        if v.get('history'):
            h = svcsearch.Line(exe, 'svc'); out = h.batch(v['history'])
            for l, o in list(zip(v['history'], out))[-6:]: print(f'{l} -> {o[:300]}')
            print(f'wrong when found: {v["wrong"]}'); same = v['result'][:200] in [o[:200] for o in out[-3:]]; print('the real code answers ' + ('the same' if same else 'differently now')); bad |= same; continue
        r = s.one(v['call']); m = mathsearch.judge(v['call'], r)
        print(f'{v["call"]} -> {r}: ' + (m or 'as specified')); bad |= bool(m)
    for f in d.get('failed_obligations', []):
        for x in f['fails']: print(f'obligation in {f["unit"]}: {x["item"]}: {x["message"]}')
    return 1 if bad else 0

I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'
PROPS = [
dict(id='C01', title='Fixed-point arithmetic is exact up to its stated rounding',
 statement='Every addition, subtraction, multiplication, division and scale conversion on the protocol\'s fixed-point numbers returns the mathematically exact result rounded in the direction the operation names (down by default, up for the "up" variants). When the exact result does not fit the type, the operation fails visibly (error or panic) and never returns a wrapped or truncated value.',
 over=[I], quant='all operand pairs of all seven number types and all scales', why='Tests multiply a handful of small numbers; the operands are 128 to 256 bit and the interesting cases (exact multiples, off-by-one remainders, overflow of intermediates) are sampled once or twice.',
 files=['calc/decimal/decimal_core/src', 'calc/decimal/src/traits.rs', 'calc/math/types'], mech=[('derive macro producing the operations', 'calc/decimal/decimal_core/src/{ops,big_ops,others,factories,by_number,checked_ops,base}.rs'), ('casts', 'calc/decimal/src/traits.rs Conversion')], obs=['return values of the number types'],
 note='Proof over all inputs of every operation the derive macro generates for the seven number types, from the macro-expanded source. Trusts the big-integer library and the extraction.'),
dict(id='C02', title='Integer width conversions never lose value',
 statement='Converting an integer between widths either yields the same number or fails; a checked conversion reports an error exactly when the number does not fit the target width. No conversion silently drops high bits.',
 over=[I], quant='all values of all source/target width pairs (8 to 512 bits)', why='There are over 200 source/target pairs and tests convert small numbers for a few of them; values whose high limbs are zero only in part are never sampled.',
 files=['calc/decimal/decimal_core/src/uint_casts.rs', 'calc/decimal/src/uint.rs'], mech=[('generated cast impls', 'calc/decimal/decimal_core/src/uint_casts.rs'), ('u128/i32 casts', 'calc/decimal/src/uint.rs')], obs=['return values of the conversion traits'],
 note='Proof over all values for every generated conversion, from the macro-expanded source. Trusts limb access of the big-integer library.'),
dict(id='C03', title='Token amounts for a price move are rounded in the protocol\'s favour',
 statement='The amount of either token between two prices at a given liquidity, when rounded up (what users pay in), is never below the exact curve amount, and when rounded down (what users receive) never above it; both are within the stated rounding of the exact amount. Opening and then closing the same range at the same price never returns more than was paid.',
 over=[I], quant='all price pairs, liquidities and rounding directions, and all tick ranges and current prices', why='Tests compare fixed examples with precomputed numbers; a one-unit rounding error appears only for operands whose intermediate quotient leaves a particular remainder.',
 files=['calc/math/clamm.rs', 'calc/math/types/sqrt_price.rs'], mech=[('get_delta_x / get_delta_y', 'calc/math/clamm.rs'), ('calculate_amount_delta', 'calc/math/clamm.rs'), ('big_div_values_to_token(_up)', 'calc/math/types/sqrt_price.rs')], obs=['amounts returned and transferred when positions change'],
 note='Proof over all inputs that the real functions return the exact rounded amount and that it covers / stays within the curve amount. Number-type contracts proved in C01.'),
dict(id='C04', title='The price after a trade is rounded against the trader',
 statement='Adding or removing an amount of either token moves the price to the exact curve price, rounded up for token x and down for token y, so that the reached price never favours the trader. A step that cannot be represented fails instead of returning another price.',
 over=[I], quant='all starting prices, liquidities, amounts and directions', why='The formulas mix 128 to 448 bit intermediates; tests check a few decimal-friendly values.',
 files=['calc/math/clamm.rs', 'calc/math/types/sqrt_price.rs'], mech=[('get_next_sqrt_price_x_up / _y_down / from_input / from_output', 'calc/math/clamm.rs'), ('checked_big_div_values(_up)', 'calc/math/types/sqrt_price.rs')], obs=['price returned by a swap step'],
 note='Proof over all inputs. Number-type contracts proved in C01.'),
dict(id='C05', title='One swap step conserves value and stays inside its target',
 statement='A single swap step moves the price only between the current and the target price; what the trader pays covers the exact curve amount of that move and what the trader receives does not exceed it. An exact-input step never charges more than the given amount (and exactly it unless the target is reached), an exact-output step never pays out more than asked, and the fee is the fee rate applied to the input rounded up.',
 over=[I], quant='all current/target prices, liquidities, amounts, fees and both directions', why='Branches depend on comparisons between differently rounded quantities; the tests fix about ten numeric examples.',
 files=['calc/math/clamm.rs'], mech=[('compute_swap_step', 'calc/math/clamm.rs'), ('is_enough_amount_to_change_price', 'calc/math/clamm.rs')], obs=['fields of the swap step result'],
 note='Proof over all inputs with prices of at least 1e-12. Number-type contracts proved in C01, callee contracts proved in the same unit.'),

dict(id='C06', title='Every tick has one price and prices grow strictly with ticks',
 statement='Each tick index inside the supported range maps to exactly one square-root price, which matches 1.0001^(tick/2) to at least seven significant digits and lies between the published minimum and maximum price; a higher tick always has a strictly higher price. Ticks outside the range are refused, and a pool can only be opened with a price that belongs to its tick.',
 over=[I], quant='all tick indices (valid and invalid), tick spacings and prices', why='Tests look at a few ticks and the two ends; an error in one of the eighteen factors or in one branch shows only for ticks with particular bits.',
 files=['calc/math/types/sqrt_price.rs', 'calc/math/consts.rs'], mech=[('tick to price', 'calc/math/types/sqrt_price.rs calculate_sqrt_price'), ('opening price check', 'calc/math/types/sqrt_price.rs check_tick_to_sqrt_price_relationship')], obs=['tick price, pool opening price'],
 note='Proof over all inputs.'),
dict(id='C07', title='The tick of a price is the greatest usable tick not above it',
 statement='For every price in the supported range and every tick spacing, the tick reported for the price is the greatest multiple of the spacing whose price does not exceed it (below the lowest such multiple of the range, the multiple next below). Prices outside the range are refused.',
 over=[I], quant='all prices in range and all spacings', why='Tests walk the tick boundaries for three spacings; prices inside a tick and other spacings are not covered.',
 files=['calc/math/log.rs'], mech=[('logarithm and tick selection', 'calc/math/log.rs'), ('alignment', 'calc/math/log.rs align_tick_to_spacing')], obs=['current tick of a pool after a swap'],
 note='Proof that the reported tick is monotone in the price and that correctness at the boundary prices of the ticks implies correctness for every price and spacing; the 887273 boundary prices are evaluated exhaustively on the compiled code in every run (evaluation, not proof).'),
dict(id='C08', title='Fee growth accounting is exact and survives counter wrap-around',
 statement='Fees per unit of liquidity are accumulated rounded down, and paying them out to a position is rounded down, so a position never receives more than its share of the fees collected. The growth inside a range is the global growth minus the growth below and above it, computed modulo the counter width, and therefore unaffected by counter wrap-around.',
 over=[I], quant='all fee amounts, liquidities, counters (including wrapped ones), tick and current tick positions', why='Wrap-around needs counters near 2^128 and only a few fixed ones are tested.',
 files=['calc/math/types/fee_growth.rs', 'calc/math/types/seconds_per_liquidity.rs'], mech=[('from_fee / to_fee', 'calc/math/types/fee_growth.rs'), ('growth inside', 'calc/math/types/fee_growth.rs calculate_fee_growth_inside'), ('seconds per liquidity', 'calc/math/types/seconds_per_liquidity.rs')], obs=['fees owed to positions'],
 note='Proof over all inputs: exact rounded formulas, the growth inside a range modulo 2^128 and its independence of wrap-around, and that the shares paid to positions together never exceed the fee (lemma l_shares).'),
dict(id='C09', title='Liquidity computed from token amounts never exceeds what they buy',
 statement='The liquidity computed from given token amounts and a price range is the exact curve liquidity rounded down, limited by the scarcer token, and the token amounts reported with it are the given amount of the limiting token and the matching amount of the other one. Unusable ranges and prices are refused.',
 over=[I], quant='all amounts, ranges, current prices and rounding directions', why='Only decimal-friendly examples are tested.',
 files=['src/contracts/logic/liquidity_result.rs'], mech=[('get_liquidity*', 'src/contracts/logic/liquidity_result.rs')], obs=['liquidity and amounts returned'],
 note='Proof over all inputs; the matching amount of the other token is the code\'s two-step rounded formula, stated as such.'),
dict(id='C10', title='The tick search finds the nearest initialized tick, and only that',
 statement='Searching up or down from a tick returns the nearest initialized tick in that direction within the search range, and none if there is none; it never returns an uninitialized tick and never skips one. The price limit used for the next swap step is the nearer of that tick\'s price (or the end of the search range) and the caller\'s limit; marking a tick changes that tick of that pool only.',
 over=[I, H], quant='all bitmaps, pools, tick spacings, ticks and directions', why='Tests use a handful of initialized ticks; chunk borders, range ends and unusual spacings are sampled sparsely.',
 files=['src/contracts/collections/tickmap.rs'], mech=[('bitmap search', 'src/contracts/collections/tickmap.rs next_initialized, prev_initialized'), ('limits', 'src/contracts/collections/tickmap.rs get_search_limit, get_closer_limit'), ('flip', 'src/contracts/collections/tickmap.rs flip')], obs=['ticks crossed by a swap, tickmap queries']),
dict(id='C11', title='A tick\'s liquidity is the sum of the positions that end at it',
 statement='Adding or removing liquidity at a tick changes its gross liquidity by exactly that amount and its net signed liquidity by plus or minus that amount depending on the side; exceeding the per-tick limit or removing more than is there fails. Crossing a tick changes the pool\'s active liquidity by exactly the tick\'s net liquidity in the direction of the move and mirrors its outside counters, so crossing it twice restores both. In every reachable state a tick\'s gross and net liquidity are the sums over the open positions that end at it, and a pool\'s active liquidity is the sum over the positions whose range contains its current tick.',
 over=[I, H], quant='all tick states, liquidity changes, pool states and crossing directions', why='Sign handling depends on the order of deposits and withdrawals; tests cover a few fixed orders.',
 files=['src/contracts/storage/tick.rs', 'calc/math/clamm.rs'], mech=[('update / cross / create', 'src/contracts/storage/tick.rs'), ('per-tick limit', 'calc/math/clamm.rs calculate_max_liquidity_per_tick')], obs=['tick and pool liquidity']),
dict(id='C12', title='Every collected fee is split between protocol and positions without loss',
 statement='A collected fee is divided into the protocol share, rounded up, and the remainder, which is spread over the active liquidity rounded down; nothing is credited twice and only the counters of the token paid in change. Withdrawing the protocol share pays out exactly what was accumulated and leaves zero.',
 over=[I, H], quant='all fee amounts, protocol rates, pool states and directions', why='Tests use a few amounts with round numbers.',
 files=['src/contracts/storage/pool.rs'], mech=[('add_fee', 'src/contracts/storage/pool.rs'), ('withdraw_protocol_fee', 'src/contracts/storage/pool.rs'), ('update_liquidity / update_tick', 'src/contracts/storage/pool.rs')], obs=['pool fee counters']),
dict(id='C13', title='A position\'s liquidity, fees and range stay consistent for its whole life',
 statement='Opening a position adds its liquidity to both end ticks, and to the pool exactly when the current tick is inside the range, and charges the rounded-up token amounts; closing it takes exactly the same liquidity back and pays the rounded-down amounts plus the fees it is owed. Claiming pays exactly the fees accrued since the last claim, once, and leaves liquidity unchanged; opening outside the caller\'s price limits fails.',
 over=[I, H], quant='all position, tick and pool states, amounts and histories of claims', why='Depends on histories of fee growth and partial updates.',
 files=['src/contracts/storage/position.rs', 'src/contracts/storage/pool.rs', 'calc/math/clamm.rs'], mech=[('create / remove / claim / modify / update', 'src/contracts/storage/position.rs'), ('pool liquidity', 'src/contracts/storage/pool.rs update_liquidity')], obs=['positions, amounts paid and received']),
dict(id='C14', title='Each account\'s positions form a gapless list that only it can change',
 statement='The positions of an account are numbered from zero without gaps; adding appends one, removing deletes exactly the chosen one and moves the last into its place, transferring moves exactly one position to the receiver\'s list. No other account\'s positions change, no position is lost or duplicated, and a missing index is refused.',
 over=[I, H], quant='all histories of adding, removing, updating and transferring, all accounts and indices', why='Tests run two or three operations on one or two accounts.',
 files=['src/contracts/collections/positions.rs'], mech=[('positions registry', 'src/contracts/collections/positions.rs')], obs=['position queries']),
dict(id='C15', title='Pools, fee tiers and ticks are registered once and never mixed up',
 statement='A pool, a pool key, a fee tier or a tick can be added only when absent, and changed or removed only when present; every operation affects exactly the addressed entry. A pool is identified by its unordered pair of different tokens and its fee tier, so both token orders address the same pool, and listing returns every registered entry exactly once.',
 over=[I, H], quant='all histories of registry operations and all keys', why='Tests add and remove one or two entries.',
 files=['src/contracts/collections', 'src/contracts/storage/pool_key.rs', 'src/contracts/storage/fee_tier.rs'], mech=[('pools, pool_keys, fee_tiers, ticks', 'src/contracts/collections'), ('key ordering', 'src/contracts/storage/pool_key.rs')], obs=['pool, key, fee tier and tick queries']),
dict(id='C16', title='Deposited balances change only by the stated amount, never wrap or go negative',
 statement='Crediting an account adds exactly the amount to that account\'s balance of that token, debiting subtracts exactly the amount, or the whole balance when no amount is named; no other account or token changes. A debit above the balance and a credit above the maximum fail without changing anything.',
 over=[I, H], quant='all ledgers, accounts, tokens and amounts', why='No unit tests cover the ledger.',
 files=['src/invariant_storage.rs'], mech=[('increase / decrease balance', 'src/invariant_storage.rs')], obs=['user balances']),
dict(id='C17', title='Every token transfer is booked exactly once, whatever the token replies',
 statement='A deposit is credited if and only if the token confirmed the transfer, and a withdrawal is given back if and only if the token refused it or failed, each exactly once and to the account and token that asked; duplicate or unsolicited replies change nothing. A transfer to be sent must be of a non-zero amount between different accounts, and the native coin cannot go through the token path.',
 over=[I, H, F], quant='all reply contents and orders, amounts, tokens and accounts', why='Reply handling is not covered by unit tests; failures and duplicates need a misbehaving token.',
 files=['src/invariant_service.rs'], mech=[('sending and bookkeeping', 'src/invariant_service.rs send_transfer_token_message'), ('reply handling', 'src/invariant_service.rs handle_valid_reply, handle_panic, handle_transfer_result')], obs=['balances after replies']),
dict(id='C18', title='Only the entitled caller can change settings, fees or another\'s property',
 statement='The protocol fee, the fee tiers and a pool\'s fee receiver change only when the administrator asks; the protocol fee of a pool is paid out only to its fee receiver. Positions and balances of an account change only through its own calls, except for being credited.',
 over=[I, H], quant='all callers, states and operations', why='The entry points are not covered by unit tests.',
 files=['src/invariant_service.rs'], mech=[('caller checks', 'src/invariant_service.rs')], obs=['refused calls']),
dict(id='C19', title='A swap stays within the caller\'s limits and equals its quote',
 statement='A swap spends exactly the given input (or pays out exactly the requested output) or fails as a whole: it never spends more, pays out more, stops part-way, moves the price beyond the caller\'s limit, or succeeds without yielding anything. On the way it crosses exactly the stored ticks between the old and the new current tick, each once and in order, and ends with the liquidity of the positions around the new tick. Executing a swap has exactly the amounts, end price and crossed ticks that quoting it in the same state reports, and quoting changes nothing.',
 over=[I, H], quant='all pool states, amounts, limits, directions and tick layouts', why='Multi-step swaps over several ticks are only exercised by integration tests, which are not part of the unit suite.',
 files=['src/invariant_storage.rs', 'src/invariant_service.rs', 'src/contracts/storage/pool.rs'], mech=[('swap loop', 'src/invariant_storage.rs calculate_swap'), ('swap / quote', 'src/invariant_service.rs')], obs=['swap and quote results']),
dict(id='C20', title='A routed swap delivers the promised minimum or fails as a whole',
 statement='A route feeds the output of each hop into the next and returns the last output; it fails as a whole when the result is below the expected amount reduced by the slippage, rounded up. Quoting a route changes nothing and chains the results that single quotes in the present state give, so it equals the executed route when that visits each pool once.',
 over=[I, H], quant='all routes, amounts and slippages', why='Routes are only exercised by integration tests.',
 files=['src/invariant_service.rs', 'calc/math/clamm.rs'], mech=[('route', 'src/invariant_service.rs route, swap_route, quote_route'), ('minimum', 'calc/math/clamm.rs calculate_min_amount_out')], obs=['route results']),
dict(id='C21', title='The contract never owes more tokens than were deposited',
 statement='After any sequence of operations the sum of all user balances, accrued protocol fees, fees owed to positions and the amounts all positions could withdraw does not exceed, per token, what confirmed deposits brought in minus what withdrawals took out (a token that confirms a transfer has made it; a withdrawal still under way counts as owed). No operation pays a position more than its exact share or lets what is owed grow beyond what came in.',
 over=[I, H, F], quant='all histories', why='A relation over whole histories; unit tests see single calls.', note='one lemma per operation over the contracts proved of the entry points: the exact debts (real-valued) never grow beyond the tokens that came in; the induction over histories is the composition of these lemmas with wf (holds at creation, kept by every operation)',
 files=['src/invariant_service.rs', 'src/invariant_storage.rs', 'src/contracts'], mech=[('whole contract', 'src')], obs=['balances and positions']),
dict(id='C22', title='The client library computes exactly what the contract computes',
 statement='The client library\'s own copies of the contract\'s formulas (fixed-point arithmetic, prices and ticks, token amounts, swap step, liquidity, fee growth and fees owed, tick-map search, and the simulation of a whole swap) answer exactly what the contract answers whenever the contract\'s computation succeeds, and where the contract refuses the client library does not promise a result (a simulation may say so by its flags).',
 over=[I], quant='all inputs of all duplicated formulas', why='The two copies have separate tests.', note='proved function by function under the contracts the contract\'s own copies satisfy; the whole-swap simulation (simulate_invariant_swap, with Pool::update_tick, cross and update_liquidity of the client) is proved to follow the same sequence of rounds as the contract\'s calculate_swap (unit sim, variant calc@sim, lemma l_agree), given the tick map and the ticks of the pool; the JavaScript binding is not covered',
 files=['sdk/src/wasm'], mech=[('copied formulas', 'sdk/src/wasm/clamm.rs, log.rs, types')], obs=['client-side quotes']),
dict(id='C23', title='Queries report the stored state faithfully and change nothing',
 statement='Every query returns exactly the stored pools, positions, ticks, tick maps and counts for the addressed keys and ranges, with nothing missing, duplicated or taken from another key; no query changes the state.',
 over=[I, H], quant='all states, ranges and keys', why='The entry points are not covered by unit tests.',
 files=['src/invariant_service.rs', 'src/invariant_storage.rs'], mech=[('queries', 'src/invariant_service.rs')], obs=['query results']),
]

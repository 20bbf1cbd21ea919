# executed by props.py; p(id, title, statement, over, quantifier, why_tests_cant, files, mechanism, observe, state)
CM = ["calc/math/clamm.rs"]
p("C01", "A swap step stays within its target price and its amount",
  "For every current price, target price, liquidity, amount and fee, one swap step that does not fail ends at a price between the current price and the target (never beyond either). By input, amount in plus fee never exceeds the amount offered and equals it when the target is not reached; by output, the amount out never exceeds the amount asked for.",
  ["inputs"], "all 128-bit prices in range, all 256-bit liquidities and amounts, all fees up to 100 %, both directions, by input and by output",
  "Tests run a few dozen hand-picked tuples; a price overshoot needs a particular relation of rounding, liquidity and remaining amount.",
  CM, [("compute_swap_step", "calc/math/clamm.rs"), ("get_next_sqrt_price_*", "calc/math/clamm.rs")], ["result of compute_swap_step"])
p("C02", "The fee of a swap step is at least the fee rate, rounded up, and not more",
  "The fee of a swap step is never less than the fee rate times the amount that goes in. A step that reaches its target, and every step by output, charges exactly that rate rounded up; a step by input that stops short charges everything offered and not swapped, so input plus fee is exactly the amount offered.",
  ["inputs"], "all prices, liquidities, amounts and fees of one step", "Tests check fixed fee values on fixed inputs; rounding-direction errors show only for particular residues.",
  CM, [("compute_swap_step fee branch", "calc/math/clamm.rs")], ["fee_amount of a swap step"])
p("C03", "Token amounts between two prices are the exact value, rounded as asked",
  "The amount of either token between two prices is the exact quotient or product, rounded down when paid out and up when charged, up to one unit of the intermediate price precision, or an error. It does not depend on the order of the two prices, and rounding up never gives less than rounding down.",
  ["inputs"], "all pairs of 128-bit prices and all 256-bit liquidities", "Unit tests sample a handful of price pairs and liquidities; overflow and rounding edges lie elsewhere.",
  CM, [("get_delta_x / get_delta_y", "calc/math/clamm.rs")], ["get_delta_x", "get_delta_y"])
p("C04", "The price after an amount favours the pool",
  "After a given amount enters or leaves, the new price is the exact one rounded in the pool's favour. A whole swap step never pays out more than the exact curve value of its price move and never charges less than it.",
  ["inputs"], "all prices, liquidities and amounts of one step", "Tests fix single inputs; an off-by-one in the rounding direction changes no sampled value.",
  CM, [("get_next_sqrt_price_from_input/output", "calc/math/clamm.rs"), ("compute_swap_step", "calc/math/clamm.rs")], ["next_sqrt_price", "amount_in", "amount_out"])
p("C06", "Fixed-point arithmetic gives the exact rounded value or fails",
  "Every product, quotient, sum, difference and change of scale of the decimal types used by the contract is the mathematically exact value rounded down or up as named, or reports failure; it never wraps or truncates silently.",
  ["inputs"], "all values of both operands for the type pairs the contract uses", "Tests check a few small constants per operation; limb boundaries and overflow are untested for most pairs.",
  ["calc/decimal/decimal_core/src", "calc/decimal/src"], [("big_ops/ops/by_number/checked_ops macros", "calc/decimal/decimal_core/src"), ("decimal types", "calc/math/types")], ["big_mul, big_div, checked_add, ..."])
p("C07", "Narrowing a big integer gives the same number or fails",
  "Converting between the big integer widths and the primitive integers returns exactly the same number when it fits in the target and an error when it does not.",
  ["inputs"], "all values of all source widths (64 to 512 bits) and target widths", "Tests use a few values with a single limb set.",
  ["calc/decimal/decimal_core/src/uint_casts.rs", "calc/decimal/src"], [("checked_*_to_* casts", "calc/decimal/decimal_core/src/uint_casts.rs")], ["uint cast functions"])
p("C08", "Fees handed to liquidity are never more than fees collected",
  "Turning a fee into growth per unit of liquidity and back pays at most the fee to any set of holders whose liquidity adds up to the pool's liquidity, also when the growth counter wraps around. Growth counters add and subtract modulo their width, so the difference of two readings is the growth in between.",
  ["inputs"], "all fees, liquidities and counter values", "Tests use a few growth values far from the wrap-around and the rounding edge.",
  ["calc/math/types/fee_growth.rs"], [("from_fee / to_fee", "calc/math/types/fee_growth.rs"), ("unchecked_add / unchecked_sub", "calc/math/types/fee_growth.rs")], ["FeeGrowth::from_fee", "FeeGrowth::to_fee"])
p("C09", "A price's tick is the greatest grid tick whose price is not above it",
  "For every price in the range and every tick spacing, the tick computed from the price is a multiple of the spacing, its price is not above the given price, and the next grid tick's price is. Prices outside the range have no tick, ticks outside the range have no price; prices rise with the tick by the square root of 1.0001 and opposite ticks have inverse prices.",
  ["inputs"], "every square root price between the least and the greatest, every spacing", "A binary logarithm iterated in fixed point with error margins: tests check tick prices and their neighbours, not the prices between.",
  ["calc/math/log.rs", "calc/math/types/sqrt_price.rs"], [("get_tick_at_sqrt_price", "calc/math/log.rs"), ("calculate_sqrt_price", "calc/math/types/sqrt_price.rs")], ["the tick computed", "the price of a tick"], hook=HOOK)
p("C10", "Fee growth inside a range counts exactly what accrues while inside",
  "The growth inside a tick range increases by exactly the pool's growth while the current tick is inside the range and by nothing while it is outside, regardless of wrap-around. Two adjacent ranges add up to their union, and crossing a tick changes no range's inside growth at that moment.",
  ["inputs", "histories"], "all tick orders and counter values; a fee event or a crossing at any of them", "Tests cover three positions of the current tick with small counters.",
  CM + ["calc/math/types/fee_growth.rs"], [("calculate_fee_growth_inside", "calc/math/types/fee_growth.rs"), ("cross_tick / Tick::cross", "src/contracts/storage/tick.rs")], ["calculate_fee_growth_inside"])
p("C11", "Tick liquidity: gross and net follow positions, limits hold",
  "Adding or removing a position's liquidity at a tick changes the tick's gross liquidity by exactly that amount and its signed net liquidity by plus or minus it depending on the end, or fails without wrapping. Gross liquidity beyond the per-tick limit is refused, and a new tick starts with the pool's growth as outside growth exactly when it lies at or below the current tick.",
  ["inputs"], "all gross, net and delta values; all tick indices and spacings", "Tests use single small values on one tick.",
  ["src/contracts/storage/tick.rs", CL], [("Tick::update / Tick::create", "src/contracts/storage/tick.rs"), ("calculate_max_liquidity_per_tick", CL)], ["Tick fields"])
p("C12", "Crossing a tick applies its net liquidity once and flips its outside growth",
  "Crossing a tick replaces each outside counter by the pool's counter minus it (modulo the width) and moves the pool's liquidity by the tick's net liquidity, with the sign given by the direction, or fails when the result would not be a valid liquidity. Crossing back at once restores both tick and pool liquidity.",
  ["inputs"], "all ticks, pools and directions", "Tests check four constant ticks.",
  ["src/contracts/storage/tick.rs", "src/contracts/storage/pool.rs"], [("Tick::cross", "src/contracts/storage/tick.rs"), ("Pool::update_tick", "src/contracts/storage/pool.rs")], ["Tick", "Pool.liquidity"])
p("C13", "The tick map finds exactly the nearest initialised tick",
  "Setting or clearing a tick changes that tick's mark and no other, for every spacing. Searching up or down from a tick returns the nearest marked tick within the search window in that direction, and nothing when there is none.",
  ["inputs"], "all ticks and spacings; every content of the chunks searched", "Tests mark one or two ticks at fixed places.",
  ["src/contracts/collections/tickmap.rs"], [("Tickmap::flip/get/next_initialized/prev_initialized", "src/contracts/collections/tickmap.rs")], ["Tickmap"])
p("C14", "A swap step never moves past an initialised tick or the user's limit",
  "The price a swap may move to next is the nearer of the user's limit and the next initialised tick or the end of the search window, in the direction of the swap. A marked tick between the current price and the target is never skipped, and at the end of the grid the swap is refused.",
  ["inputs"], "all limits, current ticks and chunk contents", "Tests use four fixed tick maps.",
  ["src/contracts/collections/tickmap.rs"], [("get_closer_limit", "src/contracts/collections/tickmap.rs")], ["get_closer_limit"])
p("C15", "A position is paid exactly the growth since its last claim, once",
  "Claiming pays a position its liquidity times the inside growth since its last checkpoint, rounded down, and moves the checkpoint, so that claiming again at once pays nothing. Changing its liquidity changes exactly that and never to a negative or wrapped value.",
  ["inputs", "histories"], "all liquidities, counters and checkpoints; claims and liquidity changes in sequence", "Tests claim once with fixed counters.",
  ["src/contracts/storage/position.rs"], [("Position::modify / claim_fee / update", "src/contracts/storage/position.rs")], ["Position", "amounts returned"])
p("C16", "Opening and closing a position never returns more than was put in",
  "With the pool price unchanged and no fees in between, closing a position returns at most what opening it took, of each token. A range above the price takes only the first token, one below only the second, and the pool's liquidity changes exactly when the price is inside the range.",
  ["inputs", "histories"], "all liquidities and prices, ranges below, at, inside and above the price", "Tests open and close a few positions of fixed size.",
  ["src/contracts/storage/position.rs", CL], [("calculate_amount_delta", CL), ("Position::create / remove", "src/contracts/storage/position.rs")], ["amounts of create and remove"])
p("C17", "Swap fees split exactly between protocol and liquidity",
  "Of every swap fee the protocol gets its percentage rounded up and liquidity gets growth for no more than the rest; without liquidity nothing accrues to positions. Withdrawing the protocol fee returns exactly what had accumulated per token and resets it to zero.",
  ["inputs"], "all fees, protocol percentages, liquidities", "Tests use a fixed percentage and fee.",
  ["src/contracts/storage/pool.rs"], [("Pool::add_fee / withdraw_protocol_fee", "src/contracts/storage/pool.rs")], ["Pool counters"])
p("C18", "Seconds per liquidity count the time spent inside a range",
  "The pool's seconds per unit of liquidity grow by elapsed time over liquidity, rounded down, and the part inside a tick range is additive over adjacent ranges and consistent with crossing, modulo the counter's width.",
  ["inputs"], "all counters, times, liquidities and tick orders", "Tests use a few constants.",
  ["calc/math/types/seconds_per_liquidity.rs"], [("calculate_seconds_per_liquidity_*", "calc/math/types/seconds_per_liquidity.rs")], ["SecondsPerLiquidity"])
p("C19", "Only the admin administers; nobody else changes the configuration",
  "Changing the protocol fee, adding or removing a fee tier and changing a pool's fee receiver succeed for the admin and fail for every other caller without changing anything. No operation open to everybody changes the admin, the protocol fee, the fee tiers or an existing pool's fee receiver; a new pool's receiver is the admin.",
  ["inputs", "configurations"], "every caller, argument and pool record", "The service layer has no unit tests; gtest samples two callers.",
  [SVC, STO], [("admin checks in the service", SVC), ("InvariantStorage config", STO)], ["result and state after each operation"], hook=HOOK)
p("C20", "The list of fee tiers holds exactly the valid tiers added and not removed",
  "A fee tier is accepted exactly if its fee is below 100 %, its spacing is between 1 and 100 and it is not listed yet; removing takes exactly that tier away and leaves existing pools alone, and it can be added again.",
  ["inputs", "histories"], "every fee and spacing in sequences of additions and removals", "Tests add and remove one or two constant tiers.",
  [SVC, "src/contracts/collections/fee_tiers.rs", "src/contracts/storage/fee_tier.rs"], [("add_fee_tier / remove_fee_tier", SVC), ("FeeTiers", "src/contracts/collections/fee_tiers.rs")], ["fee_tier_exists", "get_fee_tiers"], hook=HOOK)
p("C21", "A pool exists at most once per pair and tier and starts empty at its tick",
  "Creating a pool succeeds exactly if the tokens differ, the fee tier is listed, the tick is on the grid within the bounds, the price lies at that tick and no pool exists for the unordered pair and tier. It then starts with zero liquidity and fees at the tick's price, is found in either token order and is listed once; other pools are untouched.",
  ["inputs", "histories"], "every token pair, tier, price and caller", "Tests create a few pools with constant tokens.",
  [SVC, "src/contracts/collections/pools.rs", "src/contracts/collections/pool_keys.rs", "src/contracts/storage/pool_key.rs"],
  [("create_pool", SVC), ("Pools / PoolKeys", "src/contracts/collections/pools.rs"), ("PoolKey::new", "src/contracts/storage/pool_key.rs")], ["get_pool", "get_pool_keys", "get_all_pools_for_pair"], hook=HOOK)
p("C22", "Internal balances are exact, isolated and never overdrawn",
  "Crediting or debiting a user's internal balance of a token changes exactly that balance by exactly that amount, and no other user's or token's. A debit beyond the balance and a credit beyond 256 bits are refused and change nothing; the balances listed are exactly those held.",
  ["inputs", "histories"], "every amount; present and absent accounts; sequences of credits and debits", "Tests use single small amounts of one account.",
  [STO], [("increase_token_balance / decrease_token_balance", STO)], ["get_balances, balances map"], hook=HOOK)
p("C28", "Each position stays with its owner; removal and transfer move exactly one",
  "Only the owner's list is reachable by the owner's index. Removing, transferring or updating a position affects exactly the one at that index, with the last one taking a removed one's place, other users' lists unchanged; a transferred position arrives unaltered at the end of the receiver's list. Pages list every position in their range once, grouped with its pool, under its index.",
  ["inputs", "histories"], "every index, receiver, position content and page", "Tests use two or three constant positions.",
  ["src/contracts/collections/positions.rs", SVC], [("Positions", "src/contracts/collections/positions.rs"), ("transfer_position / get_positions", SVC)], ["Positions::get", "get_positions"], hook=HOOK)
p("C30", "Protocol fees go to the receiver, exactly and once",
  "Withdrawing a pool's protocol fee succeeds only for the pool's fee receiver, credits exactly the accumulated amounts of both tokens to the receiver's balances and resets them, so that a second withdrawal pays nothing; no other pool or balance changes.",
  ["inputs", "histories"], "every pool record, balance and caller", "The service layer has no unit tests.",
  [SVC, "src/contracts/storage/pool.rs"], [("withdraw_protocol_fee", SVC), ("Pool::withdraw_protocol_fee", "src/contracts/storage/pool.rs")], ["balances", "Pool counters"], hook=HOOK)
p("C26", "Opening a position takes exactly its price and records exactly it",
  "Opening a position takes from the caller's balances exactly the curve amounts rounded up, adds its liquidity to both ticks (created and marked if new, with the right outside growth) and, exactly when in range, to the pool, and appends one position with no fees owed and the present inside growth as checkpoint. Everything else stays. It is refused, without effect, for zero liquidity, bad ticks or pool, a price outside the caller's limits, insufficient balances or a full tick, and for no other reason.",
  ["inputs"], "every liquidity, price, limit, balance and content of pool and ticks around a range", "The service layer has no unit tests; gtest samples a few openings.",
  [SVC, STO, "src/contracts/storage/position.rs"], [("create_position", SVC), ("get_or_create_tick / add_tick", STO), ("Position::create", "src/contracts/storage/position.rs")], ["balances", "pool", "ticks", "tick map", "positions"], hook=HOOK)
p("C27", "Closing a position pays its owner its amounts and fees, exactly once",
  "Closing a position credits its owner with exactly the curve amounts of its liquidity rounded down plus the fees earned since its checkpoint and those owed, takes its liquidity from both ticks and, if in range, from the pool, removes a tick and its mark exactly when no liquidity is left on it, and removes that position only. A position that is backed can always be closed, by its owner only, once.",
  ["inputs", "histories"], "every position, pool, tick and balance content; every index and caller", "The service layer has no unit tests; gtest samples a few removals.",
  [SVC, STO, "src/contracts/storage/position.rs"], [("remove_position", SVC), ("remove_tick", STO), ("Position::remove", "src/contracts/storage/position.rs")], ["balances", "pool", "ticks", "tick map", "positions"], hook=HOOK)
p("C29", "Claiming fees pays the owner what was earned and changes nothing else",
  "Claiming credits a position's owner with exactly the fees earned since the checkpoint plus those owed, per token, and leaves liquidity, ticks, pool and other positions unchanged; claiming again at once pays nothing, and nobody else can claim.",
  ["inputs", "histories"], "every position, pool, tick and balance content", "The service layer has no unit tests; gtest claims once.",
  [SVC, "src/contracts/storage/position.rs"], [("claim_fee", SVC), ("Position::claim_fee", "src/contracts/storage/position.rs")], ["balances", "position", "amounts returned"], hook=HOOK)
p("C23", "A swap keeps price, tick, liquidity and reserves consistent",
  "A swap ends within its price limit, in its direction, at a price that belongs to the current tick, with the active liquidity of exactly the positions in range there, having crossed exactly the initialised ticks it passed, in order. By input it uses exactly the amount, by output it pays at most the amount, or it is refused. What it pays out is covered by the price move and what it takes in pays for it plus the reported fee; fees accrue only in the token paid in.",
  ["inputs", "histories"], "every amount, price limit, growth and balance against a pool with nested positions, both directions, by input and by output, over several ticks", "Tests swap a few constant amounts; gtest samples.",
  [STO, "src/contracts/storage/pool.rs", "src/contracts/collections/tickmap.rs"], [("calculate_swap", STO), ("Pool::update_tick / add_fee", "src/contracts/storage/pool.rs"), ("get_closer_limit", "src/contracts/collections/tickmap.rs")], ["price, tick, liquidity, ticks crossed, amounts"], hook=HOOK)
p("C24", "A swap settles exactly what was quoted; a quote changes nothing",
  "A quote gives the amounts, final price and crossed ticks of the swap that would happen and leaves pools, ticks and balances unchanged. The swap takes exactly the quoted input from the caller's balance and credits exactly the quoted output, stores the new pool and the crossed ticks, and changes no other balance, tick or pool; it is refused exactly if there is no quote or the caller cannot pay or be paid.",
  ["inputs", "histories"], "every amount, limit and balance, in both directions", "The service layer has no unit tests; gtest samples.",
  [SVC, STO], [("swap / quote", SVC), ("calculate_swap", STO)], ["quote result", "swap result", "balances", "pools", "ticks"], hook=HOOK)
p("C25", "A route is its hops, with a floor on what it delivers",
  "A quoted route gives the output of its hops one after the other, each fed with the output of the one before; a route swap delivers exactly that, paying the first token and receiving the last with nothing of the tokens between left or owed. It succeeds exactly if every hop does, the caller can pay and the output is at least the expected amount less the slippage, rounded up.",
  ["inputs", "histories"], "every amount, expectation, slippage and balance; two hops in every combination of directions but down twice, one hop and none", "The service layer has no unit tests; gtest samples one route.",
  [SVC, "calc/math/clamm.rs"], [("swap_route / quote_route / route", SVC), ("calculate_min_amount_out", "calc/math/clamm.rs")], ["route results", "balances", "pools"], hook=HOOK)
p("C31", "A token's answer settles its transfer exactly once",
  "The answer to a pending transfer credits its user with exactly its amount when it was a deposit that moved or a withdrawal that did not (said so or failed), and nothing otherwise; it stops being pending either way, so a second answer changes nothing. Answers to no pending transfer, of another token or of another kind credit nothing; other transfers and balances stay.",
  ["inputs", "histories", "schedules"], "every amount, balance, user, transfer kind and answer; two transfers pending, of one token or two", "The handlers have no unit tests; gtest samples a few answers.",
  [SVC], [("reply_handler / handle_valid_reply / handle_panic", SVC)], ["balances", "pending transfers"], hook=HOOK)
p("C32", "Tokens deposited are credited, tokens withdrawn are debited, exactly once",
  "A deposit or withdrawal (of one token or two) asks the tokens' own programs to move exactly the amounts between the caller and the contract, debits withdrawals before asking and credits deposits only after the token said they moved. Whatever the answers, their order and their delay, each balance ends changed by exactly what moved, success is reported only if all tokens said so, and nothing is credited twice. What is not covered, cannot be credited or cannot be paid for is not asked for.",
  ["inputs", "schedules", "fault_sequences"], "every amount and balance, every kind of answer for each message, both orders, the message running in between or not, answers after the wait timed out, two operations at once", "The flow needs a token contract that misbehaves and answers in a particular order; gtest samples a few.",
  [SVC], [("deposit_* / withdraw_*", SVC), ("transfer_single_token / transfer_token_pair", SVC), ("handle_transfer_result", SVC)], ["messages sent", "balances", "results"], hook=HOOK)
p("C33", "Native value is credited as it came and paid out as it was debited",
  "Depositing native value credits the sender with exactly the value of the message. Withdrawing it replies with exactly the value asked for (or all of it) and debits exactly that; it is refused exactly when it is not covered, zero, or wider than a message can carry. Nothing else changes.",
  ["inputs"], "every value, amount and balance", "The service layer has no unit tests; gtest samples a few amounts.",
  [SVC], [("deposit_vara / withdraw_vara", SVC)], ["balances", "value and payload of the reply"], hook=HOOK)
p("C34", "Queries report exactly the state, page by page",
  "A pool's tick map and tick count show exactly its marked ticks, at both ends of the grid and between; ticks are reported by index and position as stored, and refused if there are none. Positions come with their own pool and ticks, pools of a pair with their own tiers, and pages list every pool key and position in their range once. Queries change nothing.",
  ["inputs", "histories"], "every set of marked ticks, every page bound, index and pair, every position, tick and pool content", "Tests query a few constant positions; the tick map's last chunk is in none of them.",
  [STO, SVC], [("get_tickmap / get_liquidity_ticks / liquidity_ticks_count", STO), ("queries in the service", SVC)], ["query results"], hook=HOOK)
p("C35", "The SDK computes what the contract computes",
  "For every argument the contract answers, the SDK's exported mathematics gives the same answer: swap steps, amounts of a price move, liquidity of an amount and back, least output, ticks and prices, places and neighbours in the tick map, fees of a position. Simulating a swap on the state the contract reports gives the contract's own quote (amounts, fee, final price, crossed ticks), and reports a reservation where the contract refuses.",
  ["inputs", "programs"], "every argument of both implementations", "The SDK repeats the contract's mathematics in a second copy with its own types; its tests compare constants.",
  ["sdk/src/wasm/clamm.rs", "sdk/src/wasm/swap.rs", "sdk/src/wasm/math.rs", "sdk/src/wasm/custom.rs", "sdk/src/wasm/log.rs", "sdk/src/wasm/collections/tickmap.rs"],
  [("simulate_invariant_swap", "sdk/src/wasm/swap.rs"), ("compute_swap_step", "sdk/src/wasm/clamm.rs"), ("calculate_fee", "sdk/src/wasm/custom.rs")], ["results of both implementations"], hook=HOOK)
p("C05", "What is owed never exceeds what was given",
  "Over any history of opening positions, trading in both directions, claiming fees, and leaving, the sum of all balances and protocol fees of a token never exceeds what there was of it: rounding, fees and crossings create nothing. Every provider can leave. One who comes after a trade takes nothing from it and gets back no more than it brought.",
  ["inputs", "histories"], "every amount traded, in both directions, by input and by output, there and back, within a range and across its end, with one or two providers", "Tests follow constant amounts through single operations; solvency is about what the rounding of all operations together allows.",
  [SVC, STO, "calc/math/clamm.rs"], [("create_position / swap / remove_position", SVC), ("calculate_amount_delta / compute_swap_step", "calc/math/clamm.rs")], ["the sum of balances and protocol fees", "whether a provider can leave"], hook=HOOK)
p("C36", "Liquidity computed from an amount is what the amount pays for",
  "The liquidity computed from an amount of one token or of both is the most whose share of that token at the price and range costs no more than the amount; opening a position with it costs at most the amounts given. The other token's amount, rounded up, is at least what opening costs: exactly that for the second token, within two units for the first. By a token the range holds none of at the price there is no answer, and with both tokens there always is one.",
  ["inputs"], "every amount and every price below, at the ends of, inside and above the range", "Tests compare a few constants; what comes back is used to fund and open a position, which fails when it is one unit short.",
  ["src/contracts/logic/liquidity_result.rs"], [("get_liquidity / get_liquidity_by_x / get_liquidity_by_y", "src/contracts/logic/liquidity_result.rs")], ["liquidity", "amounts"], hook=HOOK)
p("C37", "Ticks, their map and the active liquidity are what the open positions make them",
  "After any history of opening, closing and transferring positions and of trades: a tick exists and is marked in the tick map exactly while some open position ends there; its gross liquidity is the sum and its net liquidity the signed sum of those positions' liquidities; the pool's liquidity is the sum of the positions whose range holds the current tick.",
  ["inputs", "histories"], "every liquidity, over histories of up to four operations by two users on overlapping ranges", "Tests check single updates; that records, marks and sums stay in step is a statement about histories.",
  [SVC, STO, "src/contracts/storage/position.rs"], [("create_position / remove_position / transfer_position", SVC), ("create_tick / remove_tick", STO), ("Position::create / modify / remove", "src/contracts/storage/position.rs")], ["ticks", "tick map", "pool liquidity", "positions"], hook=HOOK)
p("C38", "What the contract announces is what happened",
  "Opening and closing a position and every swap, alone or in a route, emit exactly one event each, with the time, the caller, the pool, and the liquidity, range and price or the amounts, fee, prices and direction that really applied; a swap that crosses ticks also emits exactly those ticks, in order, before it. Quotes, refused operations and the rest emit none.",
  ["inputs", "histories"], "every liquidity, price, time and amount", "Events are all an indexer sees; no unit test looks at them, gtest compares a few.",
  [SVC], [("create_position / remove_position / swap", SVC)], ["events"], hook="cfg(verif) recording of encoded events (io/src/lib.rs)")
NA = {}

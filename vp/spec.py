"""Which harness functions decide which property, and within what bounds (see DESIGN.md)."""
LEVEL = "model_checking"
ASSUME = [
    "the MIR the pinned nightly rustc prints for the mirrored tree means what the contract compiled for wasm32 means (same source, cfg(verif) only adds re-exports; overflow checks on)",
    "library code outside the repository is modelled: primitive big integers as exact integers with their documented overflow behaviour, hash maps as association lists over the keys' own equality, Vec/Option/iterators, gear system calls as symbolic environment values",
    "z3 and cvc5 are right when they answer unsat; a model they give counts only after the compiled code behaves as it says",
]


def P(roots, bounds, deep=(), assume=(), **kw):
    return dict(roots=roots.split(), deep=deep.split() if isinstance(deep, str) else list(deep), bounds=bounds, assume=list(assume), **kw)


def fam(fmt, *xs):
    return " ".join(fmt % x for x in xs)


FULL = "none on the values: every u128 price in [MIN_SQRT_PRICE, MAX_SQRT_PRICE], every 256-bit liquidity and amount, every fee up to 100 %"
PROPS = {
    "C01": P("h_step_in_xy h_step_in_yx h_step_out_xy h_step_out_yx", FULL + "; one step"),
    "C02": P("h_fee_in_xy h_fee_in_yx h_fee_out_xy h_fee_out_yx", FULL + "; one step"),
    "C03": P("h_dx_down h_dx_up h_dx_order h_dy_down h_dy_up h_dy_order", "none on the values: every pair of u128 prices, every 256-bit liquidity"),
    "C04": P("h_next_x_add h_next_x_sub h_fav_in_xy h_fav_in_yx h_fav_out_xy h_fav_out_yx", FULL + "; one step"),
    "C06": P(fam("h_big_%s", "price_price", "amount_pct", "amount_price", "pct_pct", "liq_price") + " " + fam("h_plain_%s", "pct_pct", "fixed_fixed", "price_fixed", "amount_pct") + " " +
             fam("h_addsub_%s", "amount", "price", "liq", "pct") + " h_value h_by_number h_div_values h_rescale_value " + fam("h_rescale_%s", "price_fixed", "fixed_price", "amount_liq", "liq_amount"),
             "none on the values; the type pairs the contract uses (SqrtPrice, TokenAmount, Liquidity, Percentage, FixedPoint)"),
    "C07": P("h_cast_small h_cast_small_more h_cast_down h_cast_up h_cast_widen h_cast_named", "none: every value of every source type"),
    "C08": P("h_growth_wrap h_growth_from h_growth_to h_growth_pays h_inside_swap_up h_inside_swap_down h_inside_swap_out_down", "none on the values: every u128 growth, every 256-bit fee and liquidity; whole swaps over two steps, every amount below 2^100", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C09": P("h_log_zero h_log_zero_3 h_log_zero_10 h_log_zero_100 h_log_high h_log_high_100 h_log_low h_log_low_100 h_log_up_a h_log_up_b h_log_down_a h_log_down_b h_log_ends h_price_steps h_price_ends " + fam("h_log_at_%d", *range(41)),
             "quick: every price within 53 windows of 60 to 200 ticks all over the range, spacings 1 to 100; thorough: every price of the whole range at spacing 1; prices outside the range without bound; the growth of prices at 180 ticks",
             deep=fam("h_log_all_%d", *range(111))),
    "C10": P("h_inside_adds_x h_inside_adds_y h_inside_accrues_x h_inside_accrues_y h_inside_cross h_inside_swap_up h_inside_swap_down h_inside_swap_out_down" + " h_tick_cross",
             "every i32 tick order, every u128 growth counter of pool and ticks; one token's counters at a time, the other's zero; two adjacent ranges, one fee event, one crossing; and whole swaps over one end of a range, every amount below 2^100 by input and down by output, one fee tier", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C11": P("h_tick_update h_tick_limit h_limit_create h_tick_create" + " h_open_inside_new h_open_below h_open_above h_open_at_lower", "every 256-bit gross and delta, every signed net; one update; spacings 1..100 for the limit, an opening at the spacings 1, 2, 5, 10, 60, 100; openings through the service as in C26"),
    "C12": P("h_tick_cross" + " h_inside_swap_up h_inside_swap_down h_swap_m1", "every tick, pool and time value of one crossing; whole swaps over one and several crossings as in C10 and C23", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C13": P("h_map_place h_map_grid h_map_flip_1 h_map_flip_10 h_map_flip_fresh h_map_next_a h_map_next_b h_map_next_c h_map_next_top h_map_prev_a h_map_prev_b h_map_prev_c h_map_prev_bottom",
             "every tick and spacing for placement; flips at spacings 1 and 10 against arbitrary other ticks; search over three arbitrary 64-bit chunks (quick) or every start bit (thorough), window of 256 steps",
             deep=fam("h_map_next_%d", 16, 32, 48, 64) + " " + fam("h_map_prev_%d", 16, 32, 48, 64)),
    "C14": P("h_map_limit_xy h_map_limit_yx h_map_limit_end" + " h_swap_m1 h_swap_m2 h_swap_far_up h_swap_far_out_down h_swap_end_up h_swap_end_down h_swap_end_dry", "arbitrary price limit; arbitrary chunk around the current tick; ends of the grid; whole swaps as in C23 and at both ends of the grid with and without liquidity", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C15": P("h_pos_update h_pos_claim_x h_pos_claim_y" + " h_solv_claim_up h_solv_claim_down h_claim_inside_y", "every counter, liquidity and fee value; one update, one claim; one token's counters at a time in the claims; claims through the service as in C05 and C29", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C16": P("h_pos_round_below h_pos_round_low h_pos_round_inside h_pos_round_above h_pos_amounts" + " h_solv_there_inside h_solv_there_at h_solv_there_above h_solv_there_below", "every liquidity, pool price and tick; ranges at fixed ticks with the price at, below, inside and above the range; through the service: every liquidity in four ranges at price one", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C17": P("h_pool_fee h_pool_leftover h_pool_withdraw h_inside_swap_up h_inside_swap_down h_inside_swap_out_down" + " h_protocol_fee", "every 256-bit fee, liquidity, counter; protocol fee up to 100 %; the rest at a tick for every amount at one liquidity, fee tier and price; the fees of whole swaps over two steps; the withdrawal through the service as in C30", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C18": P("h_spl_inside h_spl_global" + " h_tick_cross h_tick_create", "every u128 counter; elapsed time up to the overflow bound; the crossing and creation of a tick as in C11 and C12"),
    "C19": P("h_admin_only h_admin_frame", "every caller among 256 actors, every argument and pool record; one operation after set-up"),
    "C20": P("h_tier_add h_tier_remove", "every fee and spacing; up to two additions, one removal among three tiers"),
    "C21": P("h_pool_create h_pool_registry h_pool_grid", "every token pair among 256 actors, every price; starting ticks -10 and 0 (every off-grid tick refused at spacings 1, 10, 100)"),
    "C22": P("h_bal_increase h_bal_decrease h_bal_empty h_bal_listed h_bal_history", "two users with up to two tokens each and a newcomer, every 256-bit amount; up to two operations"),
    "C28": P("h_list_remove_1 h_list_remove_3 h_list_remove_none h_list_transfer h_list_update h_page_positions" + " h_close_others", "up to three positions per user, every index, receiver and position content; pages of size and offset up to 4"),
    "C30": P("h_protocol_fee" + " h_solv_claim_up h_solv_claim_down", "every pool record and balance, every caller among 256 actors; and the histories of C05 with claims", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C26": P("h_open_inside_new h_open_inside_old_x h_open_inside_old_y h_open_inside_low h_open_inside_up h_open_below h_open_above h_open_at_lower h_open_refused",
             "the range -10..20 at spacing 10 with the current tick at -20, -10, 0 and 20, either end new or with any content; every price of the tick, liquidity, balance, growth, time and price limit; refused arguments over every tick"),
    "C27": P("h_close_inside_x h_close_inside_y h_close_below_x h_close_above_y h_close_others",
             "the range -10..20 with the current tick at -20, 0 and 20; every position, pool and tick content, one token's counters at a time; every index"),
    "C29": P("h_claim_inside_x h_claim_inside_y h_claim_above_x h_claim_below_y h_close_others" + " h_solv_claim_up h_solv_claim_down",
             "the range -10..20 with the current tick at -20, 0 and 20; every position, pool and tick content, one token's counters at a time; and the histories of C05 with claims", assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C23": P("h_swap_m0 h_swap_m1 h_swap_m2 h_swap_m3 h_swap_m6" + " h_inside_swap_up h_inside_swap_down h_swap_far_up h_swap_far_down h_swap_far_out_down h_swap_end_up h_swap_end_down",
             "one pool at a fixed price between the ticks -30, -10, 20, 40 of two nested positions; every amount below 2^100 and every price limit within ticks -50..60; up to 6 steps by input and down, one exact step and three contract steps up by output (thorough: two exact steps); two nested positions ending 3000 and 4000 ticks away, past the search window of 2560, every limit within 5560 ticks; the last 1810 ticks of the grid at both ends",
             assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)", "up by output over several steps, compute_swap_step obeys the contract that C01 and C02 decide"], deep="h_swap_m5"),
    "C24": P("h_swap_settle_up h_swap_settle_down h_swap_settle_one_up h_swap_settle_one_down h_swap_settle_free_up h_swap_settle_free_down",
             "the pool of C23; every amount below 2^100, limit within ticks -50..60 and 256-bit balance; by input upwards and by output downwards; up to 6 steps; with and, one crossing either way with a fee of 0.6% or none, any growth of the token paid in and any time outside of the tick",
             assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C25": P("h_route_up_up h_route_down_up h_route_up_down h_route_three_up h_route_short h_route_min",
             "two or three pools at fixed prices; every amount below 3000 (within the first pool's ticks), every expectation below 2^120, every slippage and balance; up to two hops in three directions, three hops in one (thorough: two)",
             assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"], deep="h_route_three_mixed"),
    "C31": P("h_reply_result h_reply_panic h_reply_unknown h_reply_kinds",
             "two pending transfers of any content, of one token or two; two users with every 256-bit balance; two answers in a row; six kinds of payload"),
    "C32": P("h_dep_single h_wd_single h_wd_single_all h_dep_pair h_wd_pair h_dep_pair_edges h_wd_pair_edges h_wd_pair_all h_dep_late h_wd_late h_dep_crossed",
             "one operation, or a deposit and a withdrawal at once; every 256-bit amount and balance, every gas; seven kinds of answer per message in both orders, with or without a run in between, or after the wait timed out; sending may fail",
             assume=["gstd's message futures: pending until the reply to their message is recorded, then its decoded payload or an error; reply hooks run once, when the reply arrives (natively the real gstd runs over recorded system calls)"]),
    "C33": P("h_vara_deposit h_vara_withdraw", "every 128-bit value and 256-bit amount and balance; one operation"),
    "C34": P("h_query_map_100 h_query_map_60 h_query_ticks h_query_positions h_query_pairs h_page_pools h_page_positions",
             "every choice among six places of the grid (both ends, ends of a chunk, the middle) at spacings 100 and 60; up to three positions, ticks and pools of any content; pages of size and offset up to 4"),
    "C35": P(fam("h_sdk_step_%s", "in_down", "in_up", "out_down", "out_up") + " h_sdk_delta h_sdk_amounts h_sdk_enough h_sdk_min_out h_sdk_grid h_sdk_ends h_sdk_prices h_sdk_place h_sdk_next h_sdk_prev h_sdk_next_wide h_sdk_prev_wide h_sdk_next_top h_sdk_prev_bottom h_sdk_window " +
             fam("h_sdk_fee_%s", "inside_x", "inside_y", "below", "above") + " " + fam("h_sdk_swap_%s", "down", "up", "out_down", "far_up", "far_down", "end_up", "end_dry") + " " + fam("h_sdk_log_%s", "zero", "high", "low") + " h_sdk_liquidity_x h_sdk_liquidity_y h_sdk_tick_price",
             "every u128 price, 256-bit amount and liquidity and fee for the arithmetic; up to three arbitrary chunks for the tick map, in the middle at spacings 1, 10, 100 and at both ends of the grid; every grid tick at six spacings for the search window; three windows of 20 to 50 ticks for price to tick; the pool of C23 for the simulation, and pools whose next tick is past the search window or at the end of the grid; ranges at fixed ticks for amounts and fees",
             assume=["in the simulation, get_tick_at_sqrt_price of contract and SDK answer the greatest grid tick whose price is not above (C09 and h_sdk_log_* compare them)"]),
    "C05": P(fam("h_solv_%s", "claim_up", "claim_down", "outside_up", "outside_down", "in_up", "in_down", "out_up", "out_down", "back_up", "back_down", "cross_in_up", "cross_in_down", "cross_out_up", "cross_out_down", "late_up", "late_down"),
             "histories through the service from a fresh pool at price one: one or two providers (ranges -10..20 and -30..40, a latecomer's three ranges; fixed liquidity, small and large), one or two trades of any amount up to the far end of the wider range, fees claimed twice inside and outside the range, protocol fees withdrawn, everyone leaves; up to 4 steps per trade",
             assume=["get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C36": P(fam("h_liq_x_%s", "below", "low", "inside", "above", "wide", "full_low", "full_high") + " " + fam("h_liq_y_%s", "below", "low", "inside", "above", "wide", "full_low", "full_high") + " " + fam("h_liq_both_%s", "below", "low", "inside", "above"),
             "every amount below 2^128 and every price of ten ticks below, at the ends of, inside and above three ranges"),
    "C37": P(fam("h_hist_%d", *range(5)) + " h_hist_swap_up h_hist_swap_down",
             "histories of four operations by two users over five overlapping ranges with every liquidity below 2^120; histories with a trade of any amount below 9000 over the ticks; the grid ticks -20..30",
             assume=["in the histories with a trade, get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
    "C38": P("h_event_position_inside h_event_position_below h_event_position_above h_event_swap_up h_event_swap_down h_event_route h_event_none",
             "every liquidity, price of the tick and time for positions; every amount below 2^100 for swaps over four ticks; one route of two hops; up to 6 steps",
             assume=["sails sends every event the service encodes (the encoding is what is observed)", "get_tick_at_sqrt_price answers the greatest grid tick whose price is not above (its contract, on ticks -60..60)"]),
}

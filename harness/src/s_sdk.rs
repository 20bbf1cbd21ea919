//! The SDK computes what the contract computes.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;
use sdk as w;

fn wu(v: U256) -> decimal_sdk::U256 {
    decimal_sdk::U256(v.0)
}
fn wp(p: SqrtPrice) -> w::types::sqrt_price::SqrtPrice {
    w::types::sqrt_price::SqrtPrice(p.0)
}
fn wl(l: Liquidity) -> w::types::liquidity::Liquidity {
    w::types::liquidity::Liquidity(wu(l.0))
}
fn wa(a: TokenAmount) -> w::types::token_amount::TokenAmount {
    w::types::token_amount::TokenAmount(wu(a.0))
}
fn wf(f: Percentage) -> w::types::percentage::Percentage {
    w::types::percentage::Percentage(f.0)
}
fn same(a: TokenAmount, b: w::types::token_amount::TokenAmount) -> bool {
    z(a.0) == z(b.0)
}
fn step(by_in: bool, x_to_y: bool) {
    let (p, q) = (any_price("current"), any_price("target"));
    assume((p >= q) == x_to_y);
    let (l, a, fee) = (any_liq("liquidity"), any_amt("amount"), any_fee("fee"));
    let r = catch(|| compute_swap_step(p, q, l, a, by_in, fee));
    let s = catch(|| w::clamm::compute_swap_step(wp(p), wp(q), wl(l), wa(a), by_in, wf(fee)));
    if let Ok(Ok(r)) = r {
        check(matches!(s, Ok(Ok(_))), "the SDK answers where the contract does");
        if let Ok(Ok(s)) = s {
            reach("both");
            check(r.next_sqrt_price.0 == s.next_sqrt_price.0, "the same price");
            check(same(r.amount_in, s.amount_in), "the same amount in");
            check(same(r.amount_out, s.amount_out), "the same amount out");
            check(same(r.fee_amount, s.fee_amount), "the same fee");
        }
    }
}
pub fn h_sdk_step_in_down() {
    step(true, true)
}
pub fn h_sdk_step_in_up() {
    step(true, false)
}
pub fn h_sdk_step_out_down() {
    step(false, true)
}
pub fn h_sdk_step_out_up() {
    step(false, false)
}

// ---------------------------------------------------------------- amounts and prices
fn both(a: TrackableResult<TokenAmount>, b: TrackableResult<w::types::token_amount::TokenAmount>) {
    check(a.is_ok() == b.is_ok(), "both answer or neither");
    if let (Ok(a), Ok(b)) = (a, b) {
        reach("both");
        check(same(a, b), "the same amount");
    }
}
pub fn h_sdk_delta() {
    let (p, q) = (any_price("from"), any_price("to"));
    let l = any_liq("liquidity");
    let up = any::<bool>("up");
    if any::<bool>("x") {
        both(get_delta_x(p, q, l, up), w::clamm::get_delta_x(wp(p), wp(q), wl(l), up));
    } else {
        both(get_delta_y(p, q, l, up), w::clamm::get_delta_y(wp(p), wp(q), wl(l), up));
    }
}
pub fn h_sdk_amounts() {
    let p = any_price("price");
    let l = any_liq("liquidity");
    let (up, cur) = (any::<bool>("add"), any::<i32>("current"));
    let (lo, hi) = match pick(3) {
        0 => (-10, 20),
        1 => (0, 10),
        _ => (-221810, 221810),
    };
    let a = catch(|| calculate_amount_delta(cur, p, l, up, hi, lo));
    let b = catch(|| w::clamm::calculate_amount_delta(cur, wp(p), wl(l), up, hi, lo));
    match (a, b) {
        (Ok(Ok((ax, ay, au))), Ok(Ok((bx, by, bu)))) => {
            reach("both");
            check(and(same(ax, bx), same(ay, by)), "the same amounts");
            check(au == bu, "the same reach");
        }
        (Ok(Ok(_)), _) => check(false, "both answer or neither"),
        (_, Ok(Ok(_))) => check(false, "both answer or neither"),
        _ => {}
    }
}
pub fn h_sdk_enough() {
    let p = any_price("price");
    let (l, a, f) = (any_liq("liquidity"), any_amt("amount"), any_fee("fee"));
    let (by_in, down) = (any::<bool>("by in"), any::<bool>("down"));
    let c = catch(|| is_enough_amount_to_change_price(a, p, l, f, by_in, down));
    let d = catch(|| w::clamm::is_enough_amount_to_change_price(wa(a), wp(p), wl(l), wf(f), by_in, down));
    if let Ok(Ok(c)) = c {
        reach("answered");
        check(matches!(d, Ok(Ok(_))), "the SDK answers where the contract does");
        if let Ok(Ok(d)) = d {
            check(c == d, "the same answer");
        }
    }
}
pub fn h_sdk_min_out() {
    let (e, s) = (any_amt("expected"), any_fee("slippage"));
    let a = catch(|| calculate_min_amount_out(e, s));
    let b = catch(|| w::clamm::calculate_min_amount_out(wa(e), wf(s)));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            reach("both");
            check(same(a, b), "the same least amount");
        }
        (Err(_), Err(_)) => {}
        _ => check(false, "both answer or neither"),
    }
}
pub fn h_sdk_grid() {
    let s = any::<u16>("spacing");
    assume(and(s >= 1, s <= 100));
    let s = cases(s as i128, 101) as u16;
    check(w::types::sqrt_price::get_max_tick(s).ok() == Some(get_max_tick(s)), "the same highest tick");
    check(w::types::sqrt_price::get_min_tick(s).ok() == Some(get_min_tick(s)), "the same lowest tick");
    check(w::consts::get_max_chunk(s).ok() == Some(get_max_chunk(s)), "the same last chunk");
    check(z(w::clamm::calculate_max_liquidity_per_tick(s).0) == z(calculate_max_liquidity_per_tick(s).0), "the same limit per tick");
    let t = any::<i32>("tick");
    check(check_tick(t, s).is_ok() == w::clamm::check_tick(t, s).is_ok(), "the same ticks");
    reach("grid");
}
pub fn h_sdk_prices() {
    let t = match pick(8) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => 221818,
        4 => -221818,
        5 => 131071,
        6 => -131072,
        _ => 87381,
    };
    check(w::types::sqrt_price::calculate_sqrt_price(t).unwrap().0 == calculate_sqrt_price(t).unwrap().0, "the same price");
    reach("priced");
}

pub fn h_sdk_ends() {
    let s = any::<u16>("spacing");
    assume(and(s >= 1, s <= 100));
    let s = cases(s as i128, 101) as u16;
    check(w::types::sqrt_price::get_max_sqrt_price(s).ok().map(|p| p.0) == Some(get_max_sqrt_price(s).0), "the same highest price");
    check(w::types::sqrt_price::get_min_sqrt_price(s).ok().map(|p| p.0) == Some(get_min_sqrt_price(s).0), "the same lowest price");
    check(w::consts::get_global_max_sqrt_price() == MAX_SQRT_PRICE, "the same highest price of all");
    check(w::consts::get_global_min_sqrt_price() == MIN_SQRT_PRICE, "the same lowest price of all");
    let (a, b) = (any::<i32>("lower"), any::<i32>("upper"));
    check(math::clamm::check_ticks(a, b, s).is_ok() == w::clamm::check_ticks(a, b, s).is_ok(), "the same ranges");
    reach("ends");
}

// ---------------------------------------------------------------- tick map
fn empty_map() -> w::Tickmap {
    w::Tickmap { bitmap: Default::default() }
}
pub fn h_sdk_place() {
    let s = pick(3);
    let s = [1u16, 10, 100][s as usize];
    let n = any::<i32>("tick");
    assume(and(n >= -2218, n <= 2218));
    let t = n * s as i32;
    let (c, b) = tick_to_position(t, s);
    let (d, e) = w::collections::tickmap::tick_to_position(t, s);
    check(and(c == d, b == e), "the same place");
    check(w::collections::tickmap::tick_to_position_js(t, s).ok() == Some((c, b)), "the same place");
    check(w::collections::tickmap::position_to_tick(c, b, s).ok() == Some(t), "back to the tick");
    check(position_to_tick(c, b, s) == t, "back to the tick");
    reach("placed");
}
fn search(spacing: u16, at: i32, down: bool) {
    let inv = init(any_fee("protocol fee"));
    let k = key(3, 4, 1_000_000_000, spacing);
    let mut m = empty_map();
    let (c, _) = tick_to_position(at, spacing);
    let mut i = 0u16;
    while i < 3 {
        let v = any::<u64>("chunk");
        let n = c + i;
        if n == 0 || n - 1 > get_max_chunk(spacing) {
            i += 1;
            continue;
        }
        let n = n - 1;
        inv.tickmap.bitmap.insert((n, k), v);
        m.bitmap.insert(n as u64, v);
        i += 1;
    }
    let lim = any_price("limit");
    let a = catch(|| inv.tickmap.get_closer_limit(lim, down, at, spacing, k));
    let b = catch(|| m.get_closer_limit(wp(lim), down, at, spacing));
    match (a, b) {
        (Ok(Ok((p, t))), Ok(Ok((q, u)))) => {
            reach("both");
            check(and(p.0 == q.0, t == u), "the same next stop");
        }
        (Ok(Ok(_)), _) => check(false, "both answer or neither"),
        (_, Ok(Ok(_))) => check(false, "both answer or neither"),
        _ => {}
    }
}
pub fn h_sdk_next() {
    search(1, 0, false)
}
pub fn h_sdk_prev() {
    search(1, 0, true)
}
pub fn h_sdk_next_wide() {
    search(10, -20, false)
}
pub fn h_sdk_prev_wide() {
    search(100, 600, true)
}
pub fn h_sdk_next_top() {
    search(10, 221700, false)
}
pub fn h_sdk_prev_bottom() {
    search(100, -221700, true)
}
/// how far a search goes, from every tick of the grid
pub fn h_sdk_window() {
    let s = [1u16, 2, 5, 10, 60, 100][pick(6) as usize];
    let n = any::<i32>("tick");
    let m = 221818 / s as i32;
    assume(and(n >= -m, n <= m));
    let t = n * s as i32;
    for up in [false, true] {
        let (a, b) = (catch(|| contracts::get_search_limit(t, s, up)), catch(|| w::collections::tickmap::get_search_limit(t, s, up)));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                reach("both");
                check(a == b, "the same window");
            }
            (Ok(_), _) => check(false, "both answer or neither"),
            (_, Ok(_)) => check(false, "both answer or neither"),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- fees
fn wg(g: FeeGrowth) -> w::types::fee_growth::FeeGrowth {
    w::types::fee_growth::FeeGrowth(g.0)
}
/// what the SDK says a position has earned is what it gets on a claim
fn fees(at: i32, in_x: bool) {
    let k = k1();
    let mut p = pool_at(at);
    let (mut lo, mut up) = (any_tick(-10), any_tick(20));
    let mut pos = Position {
        pool_key: k,
        liquidity: any_liq("liquidity"),
        lower_tick_index: -10,
        upper_tick_index: 20,
        fee_growth_inside_x: any_growth("inside x"),
        fee_growth_inside_y: any_growth("inside y"),
        last_block_number: 0,
        tokens_owed_x: amt(0),
        tokens_owed_y: amt(0),
    };
    let no = FeeGrowth::new(0);
    if in_x {
        lo.fee_growth_outside_y = no;
        up.fee_growth_outside_y = no;
        pos.fee_growth_inside_y = no;
        p.fee_growth_global_y = no;
    } else {
        lo.fee_growth_outside_x = no;
        up.fee_growth_outside_x = no;
        pos.fee_growth_inside_x = no;
        p.fee_growth_global_x = no;
    }
    let s = catch(|| {
        w::custom::calculate_fee(
            -10, wg(lo.fee_growth_outside_x), wg(lo.fee_growth_outside_y),
            20, wg(up.fee_growth_outside_x), wg(up.fee_growth_outside_y),
            at, wg(p.fee_growth_global_x), wg(p.fee_growth_global_y),
            wg(pos.fee_growth_inside_x), wg(pos.fee_growth_inside_y), wl(pos.liquidity),
        )
    });
    let c = catch(|| pos.claim_fee(&mut p, &mut up, &mut lo, 5));
    if let Ok((x, y)) = c {
        reach("claimed");
        check(matches!(s, Ok(Ok(_))), "the SDK answers where the contract pays");
        if let Ok(Ok((a, b))) = s {
            check(and(same(x, a), same(y, b)), "the SDK tells what a claim pays");
        }
    }
}
pub fn h_sdk_fee_inside_x() {
    fees(0, true)
}
pub fn h_sdk_fee_inside_y() {
    fees(0, false)
}
pub fn h_sdk_fee_below() {
    fees(-20, true)
}
pub fn h_sdk_fee_above() {
    fees(20, false)
}

// ---------------------------------------------------------------- the simulation
/// the contract of the SDK's get_tick_at_sqrt_price, as stub_tick
pub fn stub_sdk_tick(p: w::types::sqrt_price::SqrtPrice, spacing: u16) -> TrackableResult<i32> {
    stub_tick(SqrtPrice::new(p.0), spacing)
}
fn simulate(down: bool, by_in: bool, far: i32, steps: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    let b = crate::s_swap::lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    let lim = any_price("limit");
    assume(lim.get() >= crate::s_swap::price(if down { far } else { -50 }));
    assume(lim.get() <= crate::s_swap::price(if down { 60 } else { far }));
    compare(inv, b.k, &b.p, &b.t, down, by_in, lim, steps);
}
fn compare(inv: &mut Invariant, k: PoolKey, p: &Pool, t: &[Tick], down: bool, by_in: bool, lim: SqrtPrice, steps: u128) {
    set_env("stub_sdk_tick", 1);
    let mut m = empty_map();
    let mut ticks = Vec::new();
    for t in t.iter() {
        let (c, bit) = tick_to_position(t.index, SP);
        let v = m.bitmap.get(&(c as u64)).copied().unwrap_or(0);
        m.bitmap.insert(c as u64, v | 1 << bit);
        ticks.push(w::LiquidityTick { index: t.index as i64, liquidity_change: wl(t.liquidity_change), sign: t.sign });
    }
    let pool = w::Pool {
        liquidity: wl(p.liquidity),
        sqrt_price: wp(p.sqrt_price),
        current_tick_index: p.current_tick_index as i64,
        fee_growth_global_x: wg(p.fee_growth_global_x),
        fee_growth_global_y: wg(p.fee_growth_global_y),
        fee_protocol_token_x: wa(p.fee_protocol_token_x),
        fee_protocol_token_y: wa(p.fee_protocol_token_y),
        start_timestamp: p.start_timestamp,
        last_timestamp: p.last_timestamp,
        fee_receiver: String::new(),
    };
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    set_env("bound compute_swap_step", 2 * steps);
    let r = catch(|| inv.calculate_swap(k, down, a, by_in, lim));
    let tier = w::FeeTier { fee: wf(k.fee_tier.fee), tick_spacing: SP as u64 };
    let s = catch(|| w::swap::simulate_invariant_swap(m, tier, pool, ticks, down, wa(a), by_in, wp(lim)));
    match r {
        Ok(Ok(r)) => {
            reach("swapped");
            check(matches!(s, Ok(Ok(_))), "simulated where the contract swaps");
            if let Ok(Ok(s)) = s {
                check(!s.global_insufficient_liquidity && !s.max_swap_steps_reached && !s.state_outdated, "with no reservation");
                check(and(same(r.amount_in, s.amount_in), same(r.amount_out, s.amount_out)), "the same amounts");
                check(same(r.fee, s.fee), "the same fee");
                check(and(r.start_sqrt_price.0 == s.start_sqrt_price.0, r.target_sqrt_price.0 == s.target_sqrt_price.0), "the same prices");
                check(r.ticks.len() == s.crossed_ticks.len(), "the same ticks");
                let mut i = 0;
                while i < r.ticks.len() {
                    check(r.ticks[i].index as i64 == s.crossed_ticks[i].index, "the same ticks");
                    i += 1;
                }
            }
        }
        Ok(Err(e)) => {
            reach("refused");
            if let Ok(Ok(s)) = s {
                check(s.global_insufficient_liquidity || s.amount_out.0.is_zero(), "a swap the contract refuses is simulated with a reservation or without gain");
            }
        }
        Err(_) => {}
    }
}
pub fn h_sdk_swap_down() {
    simulate(true, true, -50, 6)
}
pub fn h_sdk_swap_up() {
    simulate(false, true, 60, 6)
}
pub fn h_sdk_swap_out_down() {
    simulate(true, false, -50, 6)
}
/// past the search window, with a crossing on the way
fn simulate_far(down: bool, by_in: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let (k, p, t) = crate::s_swap::far_pool(inv);
    let lim = any_price("limit");
    assume(and(lim.get() > crate::s_swap::price(-5560), lim.get() < crate::s_swap::price(5560)));
    compare(inv, k, &p, &t, down, by_in, lim, 6);
}
pub fn h_sdk_swap_far_up() {
    simulate_far(false, true)
}
pub fn h_sdk_swap_far_down() {
    simulate_far(true, true)
}
/// at the ends of the grid
fn simulate_end(down: bool, liquid: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let (k, p, t) = crate::s_swap::end_pool(inv, down, liquid);
    let lim = SqrtPrice::new(any::<u128>("limit"));
    compare(inv, k, &p, &t, down, true, lim, 4);
}
pub fn h_sdk_swap_end_up() {
    simulate_end(false, true)
}
pub fn h_sdk_swap_end_dry() {
    simulate_end(pick(2) == 0, false)
}

// ---------------------------------------------------------------- price to tick
fn same_tick(from: i32, to: i32, spacing: u16) {
    let p = any::<u128>("price");
    assume(p >= crate::s_swap::price(from));
    assume(p < crate::s_swap::price(to));
    let a = catch(|| get_tick_at_sqrt_price(SqrtPrice::new(p), spacing));
    let b = catch(|| w::log::get_tick_at_sqrt_price(w::types::sqrt_price::SqrtPrice(p), spacing));
    check(matches!((a, b), (Ok(Ok(a)), Ok(Ok(b))) if a == b), "the same tick");
    reach("answered");
}
pub fn h_sdk_log_zero() {
    same_tick(-25, 25, 1)
}
pub fn h_sdk_log_high() {
    same_tick(MAX_TICK - 20, MAX_TICK, 10)
}
pub fn h_sdk_log_low() {
    same_tick(-MAX_TICK + 20, -MAX_TICK + 40, 1)
}

// ---------------------------------------------------------------- liquidity from amounts
fn from_amount(in_x: bool) {
    let a = any_amt("amount");
    let p = any_price("price");
    let up = any::<bool>("up");
    let (lo, hi) = match pick(3) {
        0 => (-10, 20),
        1 => (100, 200),
        _ => (-221818, 221818),
    };
    let c = catch(|| if in_x { get_liquidity_by_x(a, lo, hi, p, up) } else { get_liquidity_by_y(a, lo, hi, p, up) });
    let s = catch(|| if in_x { w::math::get_liquidity_by_x(wa(a), lo, hi, wp(p), up) } else { w::math::get_liquidity_by_y(wa(a), lo, hi, wp(p), up) });
    match (c, s) {
        (Ok(Ok(c)), Ok(Ok(s))) => {
            reach("both");
            check(and(z(c.l.0) == z(s.l.0), same(c.amount, s.amount)), "the same liquidity and amount");
        }
        (Ok(Ok(_)), _) => check(false, "both answer or neither"),
        (_, Ok(Ok(_))) => check(false, "both answer or neither"),
        _ => {}
    }
}
pub fn h_sdk_liquidity_x() {
    from_amount(true)
}
pub fn h_sdk_liquidity_y() {
    from_amount(false)
}
pub fn h_sdk_tick_price() {
    let p = any_price("price");
    let s = [1u16, 10, 100][pick(3) as usize];
    let t = match pick(5) {
        0 => -100,
        1 => 0,
        2 => 100,
        3 => 221800,
        _ => 221700,
    };
    let a = check_tick_to_sqrt_price_relationship(t, s, p);
    let b = w::custom::check_tick_to_sqrt_price_relationship(t, s, wp(p));
    check(a.is_ok() == b.is_ok(), "both answer or neither");
    if let (Ok(a), Ok(b)) = (a, b) {
        reach("both");
        check(a == b, "the same answer");
    }
    let (f, n) = (any::<u128>("fee"), any::<u16>("tier spacing"));
    let c = FeeTier::new(Percentage::new(f), n);
    let d = w::FeeTier::new(w::types::percentage::Percentage(f), n);
    check(c.is_ok() == d.is_ok(), "the same fee tiers");
}

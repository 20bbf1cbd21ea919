//! What the contract announces is what happened.
use crate::kit::*;
use crate::maps::events;
use crate::vk::*;
use crate::world::*;
use io::InvariantEvent as E;

/// opening and closing a position
fn position(at: i32, inside: bool) {
    let inv = init(any_fee("protocol fee"));
    let w = world(inv, at, false, false);
    let l = any_liq("liquidity");
    let mut s = service(actor(5));
    let before = events().len();
    let r = catch(|| s.create_position(w.k, LO, UP, l, SqrtPrice::new(0), SqrtPrice::new(u128::MAX)));
    if r.is_err() {
        return;
    }
    let v = events();
    check(v.len() == before + 1, "one announcement");
    match &v[before] {
        E::PositionCreatedEvent { timestamp, address, pool_key, liquidity_delta, lower_tick, upper_tick, current_sqrt_price } => {
            check(*timestamp == w.now, "when");
            check(and(*address == actor(5), *pool_key == w.k), "whose and where");
            check(z(liquidity_delta.0) == z(l.0), "how much");
            check(*lower_tick == LO && *upper_tick == UP, "which range");
            check(current_sqrt_price.0 == w.p.sqrt_price.0, "at which price");
        }
        _ => check(false, "a position was created"),
    }
    reach("created");
    let now = any::<u64>("later");
    assume(now >= w.now);
    set_env("block_timestamp", now as u128);
    let mut s = service(actor(5));
    let r = catch(|| s.remove_position(0));
    if r.is_err() {
        return;
    }
    let v = events();
    check(v.len() == before + 2, "one announcement");
    match &v[before + 1] {
        E::PositionRemovedEvent { timestamp, address, pool_key, liquidity, lower_tick_index, upper_tick_index, sqrt_price } => {
            check(*timestamp == now, "when");
            check(and(*address == actor(5), *pool_key == w.k), "whose and where");
            check(z(liquidity.0) == z(l.0), "how much");
            check(*lower_tick_index == LO && *upper_tick_index == UP, "which range");
            check(sqrt_price.0 == w.p.sqrt_price.0, "at which price");
        }
        _ => check(false, "a position was removed"),
    }
    check(inside == (at >= LO && at < UP), "inside or not");
    reach("removed");
}
pub fn h_event_position_inside() {
    position(0, true)
}
pub fn h_event_position_below() {
    position(-20, false)
}
pub fn h_event_position_above() {
    position(20, false)
}
fn swap(v: &'static Vec<E>, i: usize, k: PoolKey, now: u64, who: u8, down: bool, r: &CalculateSwapResult) {
    match &v[i] {
        E::SwapEvent { timestamp, address, pool_key, amount_in, amount_out, fee, start_sqrt_price, target_sqrt_price, x_to_y } => {
            check(*timestamp == now, "when");
            check(and(*address == actor(who), *pool_key == k), "whose and where");
            check(and(*amount_in == r.amount_in, *amount_out == r.amount_out), "the amounts");
            check(*fee == r.fee, "the fee");
            check(and(start_sqrt_price.0 == r.start_sqrt_price.0, target_sqrt_price.0 == r.target_sqrt_price.0), "the prices");
            check(*x_to_y == down, "the direction");
        }
        _ => check(false, "a swap happened"),
    }
}
/// the ticks of a swap, announced before it, if it crossed any
fn crossed(v: &'static Vec<E>, i: usize, k: PoolKey, now: u64, who: u8, ticks: &[Tick]) {
    match &v[i] {
        E::CrossTickEvent { timestamp, address, pool_key, indexes } => {
            check(*timestamp == now, "when");
            check(and(*address == actor(who), *pool_key == k), "whose and where");
            check(indexes.len() == ticks.len(), "every tick crossed");
            let mut j = 0;
            while j < ticks.len() {
                check(indexes[j] == ticks[j].index, "every tick crossed, in order");
                j += 1;
            }
        }
        _ => check(false, "ticks were crossed"),
    }
}
fn trade(down: bool, by_in: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let b = crate::s_swap::lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    for t in [3, 4] {
        inv.increase_token_balance(&actor(t), &actor(5), amt(1 << 120)).unwrap();
    }
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    let lim = SqrtPrice::new(crate::s_swap::price(if down { -50 } else { 60 }));
    set_env("bound compute_swap_step", 6);
    let mut s = service(actor(5));
    let before = events().len();
    let r = catch(|| s.swap(b.k, down, a, by_in, lim));
    let r = match r {
        Ok(r) => r,
        Err(_) => return,
    };
    let v = events();
    let mut i = before;
    if r.ticks.len() > 0 {
        reach("crossed");
        check(v.len() == before + 2, "two announcements");
        crossed(v, i, b.k, b.now, 5, &r.ticks);
        i += 1;
    } else {
        reach("inside");
        check(v.len() == before + 1, "one announcement");
    }
    swap(v, i, b.k, b.now, 5, down, &r);
}
pub fn h_event_swap_up() {
    trade(false, true)
}
pub fn h_event_swap_down() {
    trade(true, true)
}
/// every hop of a route is announced as a swap of the caller's
pub fn h_event_route() {
    let inv = init(Percentage::new(10_000_000_000));
    let a = crate::s_swap::lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    let kb = key(3, 8, 1_000_000_000, SP);
    let mut pb = Pool::create(calculate_sqrt_price(10).unwrap(), 10, 5, 1, actor(9)).unwrap();
    pb.liquidity = liq(900_000_000_000);
    inv.pools.add(&kb, &pb).unwrap();
    inv.increase_token_balance(&actor(4), &actor(5), amt(1 << 120)).unwrap();
    let n = any_amt("amount");
    assume(n.get() < U256::from(1500u128));
    let hops = vec![SwapHop { pool_key: a.k, x_to_y: false }, SwapHop { pool_key: kb, x_to_y: true }];
    set_env("bound compute_swap_step", 6);
    let before = events().len();
    let mut s = service(actor(5));
    let q = catch(|| s.quote_route(n, hops.clone()));
    check(events().len() == before, "a quote is not announced");
    let w = match catch(|| s.swap_route(n, amt(0), Percentage::new(0), hops)) {
        Ok(w) => w,
        Err(_) => return,
    };
    let v = events();
    reach("routed");
    check(v.len() >= before + 2, "a swap for each hop");
    let mut swaps = 0;
    let mut last = amt(0);
    let mut i = before;
    while i < v.len() {
        if let E::SwapEvent { address, pool_key, amount_in, amount_out, x_to_y, .. } = &v[i] {
            check(*address == actor(5), "the caller's");
            if swaps == 0 {
                check(and(*pool_key == a.k, !*x_to_y), "the first hop");
                check(*amount_in == n, "fed with the amount put in");
            } else {
                check(and(*pool_key == kb, *x_to_y), "the second hop");
                check(*amount_in == last, "fed with the output of the first");
                check(*amount_out == w, "the route's output");
            }
            last = *amount_out;
            swaps += 1;
        }
        i += 1;
    }
    check(swaps == 2, "a swap for each hop");
}
/// what moves no price and no position is not announced
pub fn h_event_none() {
    let inv = init(Percentage::new(10_000_000_000));
    let b = crate::s_swap::lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    let q = Position { pool_key: b.k, liquidity: liq(7), lower_tick_index: -10, upper_tick_index: 20, ..Position::default() };
    inv.positions.add(&actor(5), &q);
    let before = events().len();
    let mut s = service(actor(5));
    let a = any_amt("amount");
    assume(a.get() < U256::from(1000));
    set_env("bound compute_swap_step", 2);
    match pick(5) {
        0 => {
            let _ = catch(|| s.quote(b.k, true, a, true, SqrtPrice::new(MIN_SQRT_PRICE)));
        }
        1 => {
            let _ = catch(|| s.claim_fee(0));
        }
        2 => {
            let _ = catch(|| s.transfer_position(0, actor(6)));
        }
        3 => {
            let _ = catch(|| s.withdraw_protocol_fee(b.k));
        }
        _ => {
            let _ = catch(|| s.swap(b.k, true, amt(0), true, SqrtPrice::new(MIN_SQRT_PRICE)));
        }
    }
    check(events().len() == before, "not announced");
    reach("quiet");
}

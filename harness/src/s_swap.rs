//! Swaps through the service, step by step and as a whole.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;

pub fn price(t: i32) -> u128 {
    calculate_sqrt_price(t).unwrap().get()
}
/// ticks of two nested positions, -30..40 with 3M and -10..20 with 2M, and the pool in between
const TICKS: [i32; 4] = [-30, -10, 20, 40];
fn nets() -> [(i32, bool, u128); 4] {
    [(-30, true, 300_000_000_000), (-10, true, 200_000_000_000), (20, false, 200_000_000_000), (40, false, 300_000_000_000)]
}
pub struct Lab {
    pub k: PoolKey,
    pub p: Pool,
    pub t: [Tick; 4],
    pub now: u64,
}
fn liquidity_at(t: i32) -> u128 {
    let mut l = 0;
    for (i, s, c) in nets() {
        if i <= t {
            l = if s { l + c } else { l - c };
        }
    }
    l
}
/// everything fixed but the growth counters, the amount, the limit and the time
pub fn lab(inv: &mut Invariant, at: i32, sqrt_price: u128, fee: u128) -> Lab {
    let k = key(3, 4, fee, SP);
    let mut p = Pool::create(SqrtPrice::new(price(at)), at, any::<u64>("start"), 1, actor(9)).unwrap();
    p.fee_growth_global_x = FeeGrowth::new(1 << 100);
    p.fee_growth_global_y = FeeGrowth::new(7 << 99);
    p.sqrt_price = SqrtPrice::new(sqrt_price);
    p.current_tick_index = at;
    p.liquidity = liq(liquidity_at(at));
    let now = any::<u64>("now");
    assume(now >= p.start_timestamp);
    set_env("block_timestamp", now as u128);
    set_env("stub_tick", 1);
    inv.pools.add(&k, &p).unwrap();
    let mut t = [Tick::default(); 4];
    let mut i = 0;
    for (x, s, c) in nets() {
        t[i] = Tick { index: x, sign: s, liquidity_change: liq(c), liquidity_gross: liq(c), sqrt_price: SqrtPrice::new(price(x)), fee_growth_outside_x: FeeGrowth::new((i as u128 + 1) << 97), fee_growth_outside_y: FeeGrowth::new((9 - i as u128) << 98), seconds_outside: 3 + i as u64 };
        inv.add_tick(k, t[i]).unwrap();
        i += 1;
    }
    Lab { k, p, t, now }
}
fn multi(at: i32, sqrt_price: u128, fee: u128, down: bool, by_in: bool, far: i32, steps: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    let b = lab(inv, at, sqrt_price, fee);
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    let lim = any_price("limit");
    assume(lim.get() >= price(if down { far } else { -50 }));
    assume(lim.get() <= price(if down { 60 } else { far }));
    set_env("bound compute_swap_step", steps);
    let r = catch(|| inv.calculate_swap(b.k, down, a, by_in, lim));
    let r = match r {
        Ok(Ok(r)) => r,
        _ => return,
    };
    reach("swapped");
    let p = &r.pool;
    check(if down { p.sqrt_price >= lim } else { p.sqrt_price <= lim }, "never beyond the limit");
    check(if down { p.sqrt_price <= b.p.sqrt_price } else { p.sqrt_price >= b.p.sqrt_price }, "only in the swap's direction");
    let n = p.current_tick_index;
    check(and(p.sqrt_price.get() >= price(n), p.sqrt_price.get() <= price(n + SP as i32)), "the tick belongs to the price");
    check(p.liquidity == liq(liquidity_at(n)), "the liquidity is that of the positions in range");
    check(if by_in { r.amount_in == a } else { r.amount_out <= a }, "the amount");
    let mut c = 0;
    for i in 0..4 {
        let t = TICKS[if down { 3 - i } else { i }];
        let crossed = if down { t <= at && n < t } else { t > at && t <= n };
        if crossed {
            check(c < r.ticks.len() && r.ticks[c].index == t, "every tick passed is crossed, in order");
            c += 1;
        }
    }
    check(c == r.ticks.len(), "no other is");
    // what the result says and what the pool keeps
    check(and(r.start_sqrt_price == b.p.sqrt_price, r.target_sqrt_price == p.sqrt_price), "the reported prices");
    check(!r.amount_out.is_zero(), "a swap that pays nothing is refused");
    check(r.fee <= r.amount_in, "the fee is part of what goes in");
    if down {
        check(and(p.fee_growth_global_y == b.p.fee_growth_global_y, p.fee_protocol_token_y == b.p.fee_protocol_token_y), "no fee in the token paid out");
    } else {
        check(and(p.fee_growth_global_x == b.p.fee_growth_global_x, p.fee_protocol_token_x == b.p.fee_protocol_token_x), "no fee in the token paid out");
    }
    check(and(p.start_timestamp == b.p.start_timestamp, p.fee_receiver == b.p.fee_receiver), "nothing else of the pool changes");
    check(p.last_timestamp == if c > 0 { b.now } else { b.p.last_timestamp }, "the pool's time is that of the last crossing");
    // the reserves: y is linear in the price
    let mut owed = z(0u8);
    let (lo, hi) = if down { (p.sqrt_price, b.p.sqrt_price) } else { (b.p.sqrt_price, p.sqrt_price) };
    let edges = [-60, -30, -10, 20, 40, 70];
    for i in 0..5 {
        let (a, e) = (price(edges[i]), price(edges[i + 1]));
        // the part of [lo, hi] inside this segment; the fixed end decides on which side it is
        let from = if lo.get() > a { lo.get() } else { a };
        let to = if hi.get() < e { hi.get() } else { e };
        if from < to {
            owed = owed + z(liquidity_at(edges[i])) * (z(to) - z(from));
        }
    }
    if get_env("stub_step") == 1 {
        // the contract of a step says nothing about the amounts' relation to the price
    } else if down {
        check(z(r.amount_out.get()) * pow10(29) <= owed, "y paid out is covered by the price move");
    } else {
        check(z(r.amount_in.get()) * pow10(29) >= owed + z(r.fee.get()) * pow10(29), "y taken in pays for the price move and the fee");
    }
}
/// the service: quote and swap do what calculate_swap says, on exactly the state it names
fn settle(down: bool, by_in: bool, far: i32, steps: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    let b = lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    settled(inv, b, down, by_in, far, steps)
}
/// the same over one crossing, with whatever growth in the token paid in and whatever time outside the tick in the way
/// has; without a fee the other token's growth is none at all
fn settle_one(down: bool, fee: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    let mut b = lab(inv, 0, 1_000_200_000_000_000_000_000_000, fee);
    let i = if down { 1 } else { 2 };
    let (g, o) = (any_growth("growth"), any_growth("outside"));
    if down {
        b.p.fee_growth_global_x = g;
        b.t[i].fee_growth_outside_x = o;
    } else {
        b.p.fee_growth_global_y = g;
        b.t[i].fee_growth_outside_y = o;
    }
    if fee == 0 {
        let no = FeeGrowth::new(0);
        if down {
            b.p.fee_growth_global_y = no;
            b.t[i].fee_growth_outside_y = no;
        } else {
            b.p.fee_growth_global_x = no;
            b.t[i].fee_growth_outside_x = no;
        }
    }
    b.t[i].seconds_outside = any::<u64>("seconds outside");
    inv.pools.update(&b.k, &b.p).unwrap();
    inv.ticks.update(b.k, b.t[i].index, b.t[i]).unwrap();
    settled(inv, b, down, true, if down { -20 } else { 30 }, 4)
}
pub fn h_swap_settle_one_up() {
    settle_one(false, 6_000_000_000)
}
pub fn h_swap_settle_one_down() {
    settle_one(true, 6_000_000_000)
}
pub fn h_swap_settle_free_up() {
    settle_one(false, 0)
}
pub fn h_swap_settle_free_down() {
    settle_one(true, 0)
}
fn settled(inv: &mut Invariant, b: Lab, down: bool, by_in: bool, far: i32, steps: u128) {
    let other = key(3, 4, 1_000_000_000, SP);
    inv.pools.add(&other, &b.p).unwrap();
    let spare = Tick { index: -10, ..fixed_tick(-10) };
    inv.add_tick(other, spare).unwrap();
    let (ti, to) = if down { (actor(3), actor(4)) } else { (actor(4), actor(3)) };
    let (bi, bo) = (any_amt("balance in"), any_amt("balance out"));
    assume(and(!bi.is_zero(), !bo.is_zero()));
    inv.increase_token_balance(&ti, &actor(5), bi).unwrap();
    inv.increase_token_balance(&to, &actor(5), bo).unwrap();
    inv.increase_token_balance(&ti, &actor(6), amt(11)).unwrap();
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    let lim = any_price("limit");
    assume(lim.get() >= price(if down { far } else { -50 }));
    assume(lim.get() <= price(if down { 60 } else { far }));
    set_env("bound compute_swap_step", steps * 3);
    let r = catch(|| inv.calculate_swap(b.k, down, a, by_in, lim));
    let mut s = service(actor(5));
    let q = catch(|| s.quote(b.k, down, a, by_in, lim));
    // a quote answers like the calculation and changes nothing
    match (&r, &q) {
        (Ok(Ok(r)), Ok(Ok(q))) => {
            check(and(q.amount_in == r.amount_in, q.amount_out == r.amount_out), "the quoted amounts");
            check(and(q.target_sqrt_price == r.pool.sqrt_price, q.ticks == r.ticks), "the quoted price and ticks");
        }
        (Ok(Ok(_)), _) => check(false, "a quote for every swap there is"),
        (_, Ok(Ok(_))) => check(false, "no quote without a swap"),
        _ => {}
    }
    check(inv.pools.get(&b.k) == Ok(b.p.clone()), "a quote leaves the pool");
    for t in b.t {
        check(inv.ticks.get(b.k, t.index) == Ok(&t), "a quote leaves the ticks");
    }
    check(and(balance(ti, actor(5)) == bi, balance(to, actor(5)) == bo), "a quote leaves the balances");
    let w = catch(|| s.swap(b.k, down, a, by_in, lim));
    let r = match r {
        Ok(Ok(r)) => r,
        _ => {
            check(w.is_err(), "no swap without a quote");
            return;
        }
    };
    let w = match w {
        Ok(w) => w,
        Err(_) => {
            reach("cannot pay");
            check(or(r.amount_in > bi, z(bo.get()) + z(r.amount_out.get()) > z(U256::MAX)), "refused only when the caller cannot pay or be paid");
            return;
        }
    };
    reach("swapped");
    check(r.amount_in <= bi, "the caller can pay");
    check(w == r, "the swap is what the calculation says");
    check(z(balance(ti, actor(5)).get()) == z(bi.get()) - z(r.amount_in.get()), "the caller pays exactly the input");
    check(z(balance(to, actor(5)).get()) == z(bo.get()) + z(r.amount_out.get()), "the caller receives exactly the output");
    check(and(balance(ti, actor(6)) == amt(11), balance(to, actor(6)).is_zero()), "nobody else's balance changes");
    check(inv.pools.get(&b.k) == Ok(r.pool), "the new pool is stored");
    check(inv.pools.get(&other) == Ok(b.p.clone()), "other pools stay");
    check(inv.ticks.get(other, -10) == Ok(&spare), "other pools' ticks stay");
    let mut crossed = 0;
    for t in b.t {
        let mut want = t;
        for c in r.ticks.iter() {
            if c.index == t.index {
                want = *c;
                crossed += 1;
            }
        }
        check(inv.ticks.get(b.k, t.index) == Ok(&want), "crossed ticks are stored, others stay");
        check(inv.tickmap.get(t.index, SP, b.k), "the marks stay");
    }
    check(crossed == r.ticks.len(), "every crossed tick is one of the pool's");
}
pub fn h_swap_settle_up() {
    settle(false, true, 60, 6)
}
pub fn h_swap_settle_down() {
    settle(true, false, -50, 6)
}

/// two hops through two pools with one token in common
fn route(up1: bool, up2: bool, max: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    let a = lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    // the second pool shares the token the first pays out
    let mid = if up1 { 3 } else { 4 };
    let kb = if up2 { key(8, mid, 1_000_000_000, SP) } else { key(mid, 8, 1_000_000_000, SP) };
    let mut pb = Pool::create(SqrtPrice::new(price(10)), 10, 5, 1, actor(9)).unwrap();
    pb.liquidity = liq(900_000_000_000);
    inv.pools.add(&kb, &pb).unwrap();
    let tin = actor(if up1 { 4 } else { 3 });
    let (bal, out_bal) = (any_amt("balance"), amt(77));
    assume(!bal.is_zero());
    inv.increase_token_balance(&tin, &actor(5), bal).unwrap();
    inv.increase_token_balance(&actor(8), &actor(5), out_bal).unwrap();
    let n = any_amt("amount");
    assume(n.get() < U256::from(max));
    let (expected, slip) = (any_amt("expected"), any_fee("slippage"));
    assume(expected.get() < U256::from(1u128 << 120));
    let hops = || vec![SwapHop { pool_key: a.k, x_to_y: !up1 }, SwapHop { pool_key: kb, x_to_y: !up2 }];
    let far = |up: bool| SqrtPrice::new(if up { MAX_SQRT_PRICE } else { MIN_SQRT_PRICE });
    set_env("bound compute_swap_step", 10);
    let r1 = catch(|| inv.calculate_swap(a.k, !up1, n, true, far(up1)));
    let r1 = match r1 {
        Ok(Ok(r)) => r,
        _ => {
            let q = catch(|| service(actor(5)).quote_route(n, hops()));
            check(!matches!(q, Ok(Ok(_))), "no route past a hop that fails");
            return;
        }
    };
    let r2 = catch(|| inv.calculate_swap(kb, !up2, r1.amount_out, true, far(up2)));
    let mut s = service(actor(5));
    let q = catch(|| s.quote_route(n, hops()));
    check(inv.pools.get(&a.k) == Ok(a.p.clone()) && inv.pools.get(&kb) == Ok(pb.clone()), "a quote leaves the pools");
    let w = catch(|| s.swap_route(n, expected, slip, hops()));
    let r2 = match r2 {
        Ok(Ok(r)) => r,
        _ => {
            check(!matches!(q, Ok(Ok(_))), "no route past a hop that fails");
            check(w.is_err(), "no route past a hop that fails");
            return;
        }
    };
    match q {
        Ok(Ok(q)) => check(q == r2.amount_out, "the route is quoted hop by hop"),
        _ => check(false, "a route whose hops work is quoted"),
    }
    let least = (z(ONE_PCT) - z(slip.get())) * z(expected.get());
    let got = z(r2.amount_out.get()) * z(ONE_PCT);
    match w {
        Ok(w) => {
            reach("routed");
            check(w == r2.amount_out, "the route delivers what was quoted");
            check(got >= least, "never less than the accepted minimum");
            check(z(balance(tin, actor(5)).get()) == z(bal.get()) - z(n.get()), "pays exactly the amount put in");
            check(balance(actor(mid), actor(5)).is_zero(), "nothing of the token between is kept or owed");
            check(z(balance(actor(8), actor(5)).get()) == z(77u8) + z(w.get()), "receives exactly the amount put out");
            check(inv.pools.get(&a.k) == Ok(r1.pool) && inv.pools.get(&kb) == Ok(r2.pool), "both pools move as quoted");
        }
        Err(_) => {
            reach("refused");
            check(or(got < least, n > bal), "refused only under the minimum or when the caller cannot pay");
        }
    }
}
pub fn h_route_up_up() {
    route(true, true, 3000)
}
pub fn h_route_down_up() {
    route(false, true, 3000)
}
pub fn h_route_up_down() {
    route(true, false, 3000)
}
/// a route of no hops, of one hop, and of a hop through a pool that is not there
pub fn h_route_short() {
    let inv = init(Percentage::new(10_000_000_000));
    let a = lab(inv, 0, 1_000_200_000_000_000_000_000_000, 6_000_000_000);
    let n = any_amt("amount");
    let mut s = service(actor(5));
    check(s.quote_route(n, vec![]) == Ok(n), "a route of no hops keeps the amount");
    let q = s.quote_route(n, vec![SwapHop { pool_key: key(8, 9, 1, SP), x_to_y: true }]);
    check(q.is_err(), "no route through a pool that is not there");
    assume(n.get() < U256::from(3000u128));
    set_env("bound compute_swap_step", 3);
    let r = catch(|| inv.calculate_swap(a.k, false, n, true, SqrtPrice::new(MAX_SQRT_PRICE)));
    let q = catch(|| s.quote_route(n, vec![SwapHop { pool_key: a.k, x_to_y: false }]));
    match (r, q) {
        (Ok(Ok(r)), Ok(Ok(q))) => {
            reach("one hop");
            check(r.amount_out == q, "a route of one hop is that swap");
        }
        (Ok(Ok(_)), _) => check(false, "a route of one hop is that swap"),
        (_, Ok(Ok(_))) => check(false, "a route of one hop is that swap"),
        _ => {}
    }
}
pub fn h_swap_m0() {
    multi(0, 1_000_200_000_000_000_000_000_000, 6_000_000_000, true, true, -50, 6)
}
pub fn h_swap_m1() {
    multi(0, 1_000_200_000_000_000_000_000_000, 6_000_000_000, false, true, 60, 6)
}
pub fn h_swap_m2() {
    multi(0, 1_000_200_000_000_000_000_000_000, 6_000_000_000, true, false, -50, 6)
}
pub fn h_swap_m3() {
    multi(0, 1_000_200_000_000_000_000_000_000, 6_000_000_000, false, false, 15, 1)
}
pub fn h_swap_m6() {
    set_env("stub_step", 1);
    multi(0, 1_000_200_000_000_000_000_000_000, 6_000_000_000, false, false, 60, 3)
}
pub fn h_swap_m5() {
    multi(0, 1_000_200_000_000_000_000_000_000, 6_000_000_000, false, false, 30, 2)
}
/// the least a route may deliver
pub fn h_route_min() {
    let (e, slip) = (any_amt("expected"), any_fee("slippage"));
    let m = match catch(|| calculate_min_amount_out(e, slip)) {
        Ok(m) => m,
        Err(_) => {
            check(z(e.get()) * (z(ONE_PCT) - z(slip.get())) > z(U256::MAX) - z(ONE_PCT), "answers where the product fits");
            return;
        }
    };
    reach("minimum");
    let p = z(e.get()) * (z(ONE_PCT) - z(slip.get()));
    check(z(m.get()) * z(ONE_PCT) >= p, "not below the accepted share");
    check(z(m.get()) * z(ONE_PCT) < p + z(ONE_PCT), "the least such amount");
}
/// a swap over one end of the narrower range: what is earned before the crossing is earned inside it, the rest is not
fn inside_swap(down: bool, by_in: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let start = 1_000_200_000_000_000_000_000_000;
    let fee = 6_000_000_000;
    let b = lab(inv, 0, start, fee);
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    let lim = SqrtPrice::new(price(if down { -20 } else { 30 }));
    set_env("bound compute_swap_step", 3);
    let r = match catch(|| inv.calculate_swap(b.k, down, a, by_in, lim)) {
        Ok(Ok(r)) => r,
        _ => return,
    };
    let end = if down { -10 } else { 20 };
    let p = &r.pool;
    let n = p.current_tick_index;
    let crossed = if down { n < end } else { n >= end };
    let mut t = b.t;
    for c in r.ticks.iter() {
        for x in t.iter_mut() {
            if x.index == c.index {
                *x = *c;
            }
        }
    }
    let inside = |t: &[Tick; 4], p: &Pool, l: usize, u: usize| {
        let (x, y) = calculate_fee_growth_inside(t[l].index, t[l].fee_growth_outside_x, t[l].fee_growth_outside_y, t[u].index, t[u].fee_growth_outside_x, t[u].fee_growth_outside_y, p.current_tick_index, p.fee_growth_global_x, p.fee_growth_global_y);
        if down { (x, y) } else { (y, x) }
    };
    let global = |p: &Pool| if down { p.fee_growth_global_x } else { p.fee_growth_global_y };
    let (narrow, none) = (inside(&t, p, 1, 2), inside(&b.t, &b.p, 1, 2));
    let (wide, some) = (inside(&t, p, 0, 3), inside(&b.t, &b.p, 0, 3));
    check(and(narrow.1 == none.1, wide.1 == some.1), "nothing is earned in the token paid out");
    let all = global(p).unchecked_sub(global(&b.p));
    check(wide.0.unchecked_sub(some.0) == all, "the wider range earns all of it");
    let own = narrow.0.unchecked_sub(none.0);
    if crossed {
        reach("crossed");
        // the step to the end of the range, whatever comes after
        let first = compute_swap_step(SqrtPrice::new(start), SqrtPrice::new(price(end)), liq(liquidity_at(0)), amt(1 << 90), true, Percentage::new(fee)).unwrap();
        let cut = first.fee_amount.big_mul_up(Percentage::new(10_000_000_000));
        let want = FeeGrowth::from_fee(liq(liquidity_at(0)), first.fee_amount - cut).unwrap();
        check(own == want, "the narrower range earns what was paid up to its end");
        // and then the liquidity beyond earns the rest
        let l = z(liquidity_at(n));
        let more = z(r.fee.get()) - z(first.fee_amount.get());
        let rest = more - z_divup(more, z(100u8));
        let g = z(all.get()) - z(want.get());
        check(and(g * l <= rest * pow10(33), (g + z(1u8)) * l > rest * pow10(33)), "the liquidity beyond earns the rest");
        let (f0, f1) = if down { (b.p.fee_protocol_token_x, p.fee_protocol_token_x) } else { (b.p.fee_protocol_token_y, p.fee_protocol_token_y) };
        check(z(f1.get()) == z(f0.get()) + z(cut.get()) + z_divup(more, z(100u8)), "the protocol gets its part of both steps");
    } else {
        reach("stayed");
        check(own == all, "inside, the narrower range earns the same");
    }
}
pub fn h_inside_swap_up() {
    inside_swap(false, true)
}
pub fn h_inside_swap_down() {
    inside_swap(true, true)
}
pub fn h_inside_swap_out_down() {
    inside_swap(true, false)
}
/// three hops through three pools; the one in the middle pays out more than it is given
fn three(up: [bool; 3], max: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    set_env("stub_tick", 1);
    let tokens = [actor(3), actor(4), actor(8), actor(10)];
    let tier = FeeTier { fee: Percentage::new(1_000_000_000), tick_spacing: SP };
    let mut keys = [PoolKey::default(); 3];
    let mut pools = [Pool::default(), Pool::default(), Pool::default()];
    for i in 0..3 {
        let (f, t) = (tokens[i], tokens[i + 1]);
        keys[i] = if up[i] { PoolKey { token_x: t, token_y: f, fee_tier: tier } } else { PoolKey { token_x: f, token_y: t, fee_tier: tier } };
        let at = if i != 1 { 0 } else if up[i] { -40 } else { 40 };
        let mut p = Pool::create(SqrtPrice::new(price(at)), at, 5, 1, actor(9)).unwrap();
        p.liquidity = liq(900_000_000_000);
        inv.pools.add(&keys[i], &p).unwrap();
        pools[i] = p;
    }
    let first = pools[0].clone();
    let bal = any_amt("balance");
    assume(!bal.is_zero());
    inv.increase_token_balance(&tokens[0], &actor(5), bal).unwrap();
    let n = any_amt("amount");
    assume(n.get() < U256::from(max));
    let expected = any_amt("expected");
    assume(expected.get() < U256::from(1u128 << 120));
    let hops = || vec![SwapHop { pool_key: keys[0], x_to_y: !up[0] }, SwapHop { pool_key: keys[1], x_to_y: !up[1] }, SwapHop { pool_key: keys[2], x_to_y: !up[2] }];
    let far = |up: bool| SqrtPrice::new(if up { MAX_SQRT_PRICE } else { MIN_SQRT_PRICE });
    set_env("bound compute_swap_step", 12);
    let mut next = n;
    let mut all = true;
    for i in 0..3 {
        if all {
            match catch(|| inv.calculate_swap(keys[i], !up[i], next, true, far(up[i]))) {
                Ok(Ok(r)) => {
                    next = r.amount_out;
                    pools[i] = r.pool;
                }
                _ => all = false,
            }
        }
    }
    let mut s = service(actor(5));
    let q = catch(|| s.quote_route(n, hops()));
    check(inv.pools.get(&keys[0]) == Ok(first), "a quote leaves the pools");
    let w = catch(|| s.swap_route(n, expected, Percentage::new(0), hops()));
    if !all {
        check(!matches!(q, Ok(Ok(_))), "no route past a hop that fails");
        check(w.is_err(), "no route past a hop that fails");
        return;
    }
    check(q == Ok(Ok(next)), "the route is quoted hop by hop");
    match w {
        Ok(w) => {
            reach("routed");
            check(and(w == next, w >= expected), "the route delivers what was quoted and accepted");
            check(z(balance(tokens[0], actor(5)).get()) == z(bal.get()) - z(n.get()), "pays exactly the amount put in");
            check(and(balance(tokens[1], actor(5)).is_zero(), balance(tokens[2], actor(5)).is_zero()), "nothing of the tokens between is kept or owed");
            check(balance(tokens[3], actor(5)) == w, "receives exactly the amount put out");
            for i in 0..3 {
                check(inv.pools.get(&keys[i]) == Ok(pools[i].clone()), "every pool moves as quoted");
            }
        }
        Err(_) => {
            reach("refused");
            check(or(next < expected, n > bal), "refused only under the minimum or when the caller cannot pay");
        }
    }
}
pub fn h_route_three_up() {
    three([true, true, true], 2000)
}
pub fn h_route_three_mixed() {
    three([true, false, true], 1200)
}
/// a swap over more than one search window: the ends of two nested positions are further away than one search looks
pub fn far_pool(inv: &mut Invariant) -> (PoolKey, Pool, Vec<Tick>) {
    let k = key(3, 4, 6_000_000_000, SP);
    let (l, m) = FAR;
    let mut p = Pool::create(SqrtPrice::new(price(0)), 0, 0, 1, actor(9)).unwrap();
    p.sqrt_price = SqrtPrice::new(FAR_START);
    p.liquidity = liq(l + m);
    inv.pools.add(&k, &p).unwrap();
    set_env("stub_tick", 2);
    let ends = [(-4000, true, l), (-3000, true, m), (3000, false, m), (4000, false, l)];
    let mut ts = Vec::new();
    for (i, s, c) in ends {
        let t = Tick { index: i, sign: s, liquidity_change: liq(c), liquidity_gross: liq(c), sqrt_price: SqrtPrice::new(price(i)), ..Tick::default() };
        inv.add_tick(k, t).unwrap();
        ts.push(t);
    }
    (k, p, ts)
}
const FAR: (u128, u128) = (300_000_000_000, 200_000_000_000);
const FAR_START: u128 = 1_000_200_000_000_000_000_000_000;
fn far(down: bool, by_in: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let ((l, m), start) = (FAR, FAR_START);
    let (k, _, _) = far_pool(inv);
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    let lim = any_price("limit");
    assume(and(lim.get() >= price(-5560), lim.get() <= price(5560)));
    set_env("bound compute_swap_step", 6);
    let r = match catch(|| inv.calculate_swap(k, down, a, by_in, lim)) {
        Ok(Ok(r)) => r,
        _ => return,
    };
    reach("swapped");
    let q = &r.pool;
    let n = q.current_tick_index;
    check(if down { and(q.sqrt_price >= lim, q.sqrt_price.get() <= start) } else { and(q.sqrt_price <= lim, q.sqrt_price.get() >= start) }, "within the limit, in the swap's direction");
    check(if by_in { r.amount_in == a } else { r.amount_out <= a }, "the amount");
    for t in SEEN {
        check(or(implies(n >= t, q.sqrt_price.get() >= price(t)), and(n == t, q.sqrt_price.get() == price(t))), "the tick is not above the price");
        check(implies(n < t, q.sqrt_price.get() <= price(t)), "the price is not above the tick");
    }
    let inner = and(n >= -3000, n < 3000);
    let outer = and(n >= -4000, n < 4000);
    let z0 = z(0u8);
    let held = if inner { z(l + m) } else if outer { z(l) } else { z0 };
    check(z(q.liquidity.get()) == held, "the liquidity is that of the positions in range");
    let crossed = if down { [n < -3000, n < -4000] } else { [n >= 3000, n >= 4000] };
    let names = if down { [-3000, -4000] } else { [3000, 4000] };
    let mut c = 0;
    for i in 0..2 {
        if crossed[i] {
            check(c < r.ticks.len() && r.ticks[c].index == names[i], "every tick passed is crossed, in order");
            c += 1;
        }
    }
    check(c == r.ticks.len(), "no other is");
    if c == 1 {
        reach("crossed one");
    }
    if c == 0 && (if down { n < -2560 } else { n >= 2560 }) {
        reach("past the first window");
    }
    check(z(q.fee_protocol_token_x.get()) + z(q.fee_protocol_token_y.get()) <= z(r.amount_in.get()), "the protocol's part comes from what was paid");
}
pub fn h_swap_far_up() {
    far(false, true)
}
pub fn h_swap_far_down() {
    far(true, true)
}
pub fn h_swap_far_out_down() {
    far(true, false)
}
/// at the ends of the grid: a swap stays below the last tick and above the first, or is refused
pub fn end_pool(inv: &mut Invariant, down: bool, liquid: bool) -> (PoolKey, Pool, Vec<Tick>) {
    let k = key(3, 4, 6_000_000_000, SP);
    let l = 300_000_000_000u128;
    let (at, end) = if down { (-220000, -221810) } else { (220000, 221810) };
    let mut p = Pool::create(SqrtPrice::new(price(at)), at, 0, 1, actor(9)).unwrap();
    set_env("stub_tick", 3);
    let mut ts = Vec::new();
    if liquid {
        // held between a tick near the end and the end itself, or so far that the end of it is past the window
        p.liquidity = liq(l);
        let (lo, up) = if down { (end, at + 10) } else { (at, end) };
        for (i, s) in [(lo, true), (up, false)] {
            let t = Tick { index: i, sign: s, liquidity_change: liq(l), liquidity_gross: liq(l), sqrt_price: SqrtPrice::new(price(i)), ..Tick::default() };
            inv.add_tick(k, t).unwrap();
            ts.push(t);
        }
    }
    inv.pools.add(&k, &p).unwrap();
    (k, p, ts)
}
fn grid_end(down: bool, by_in: bool, liquid: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let l = 300_000_000_000u128;
    let end = if down { -221810 } else { 221810 };
    let (k, _, _) = end_pool(inv, down, liquid);
    let a = any_amt("amount");
    assume(a.get() < U256::from(1u128 << 100));
    let lim = SqrtPrice::new(any::<u128>("limit"));
    set_env("bound compute_swap_step", 3);
    match catch(|| inv.calculate_swap(k, down, a, by_in, lim)) {
        Ok(Ok(r)) => {
            check(liquid, "nothing is swapped without liquidity");
            if !liquid {
                return;
            }
            reach("swapped");
            let n = r.pool.current_tick_index;
            check(if down { n > end } else { n < end }, "the last tick of the grid is not reached");
            check(if down { r.pool.sqrt_price.get() > price(end) } else { r.pool.sqrt_price.get() < price(end) }, "nor its price");
            check(r.ticks.is_empty(), "and no tick is crossed on the way");
            check(r.pool.liquidity == liq(l), "the liquidity stays");
        }
        Ok(Err(_)) => reach("refused"),
        Err(_) => {}
    }
}
pub fn h_swap_end_up() {
    grid_end(false, true, true)
}
pub fn h_swap_end_down() {
    grid_end(true, true, true)
}
pub fn h_swap_end_dry() {
    let down = pick(2) == 0;
    grid_end(down, true, false)
}

//! Opening, closing and claiming through the service: every piece of the state.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;

/// what the position operations may not touch
pub fn frame(inv: &Invariant, w: &World) {
    check(inv.ticks.get(w.k, 40) == Ok(&w.other), "other ticks stay");
    check(inv.tickmap.get(40, SP, w.k), "other marks stay");
    check(!inv.tickmap.get(30, SP, w.k), "no mark appears");
    check(!inv.tickmap.get(0, SP, w.k), "no mark appears");
    check(inv.ticks.get(w.k, 0).is_err(), "no tick appears");
    check(balance(w.k.token_x, actor(6)) == amt(11), "nobody else's balance changes");
    check(balance(w.k.token_y, actor(6)) == amt(0), "nobody else's balance changes");
}
/// a tick exists exactly if it is marked
pub fn in_step(inv: &Invariant, w: &World) {
    check(inv.ticks.get(w.k, LO).is_ok() == inv.tickmap.get(LO, SP, w.k), "the lower tick is stored exactly if it is marked");
    check(inv.ticks.get(w.k, UP).is_ok() == inv.tickmap.get(UP, SP, w.k), "the upper tick is stored exactly if it is marked");
}
fn is_tick(n: &Tick, o: &Tick, gross: Z, netd: Z) {
    check(n.index == o.index, "the tick's index");
    check(z(n.liquidity_gross.get()) == z(o.liquidity_gross.get()) + gross, "the tick's gross liquidity");
    let (nc, oc) = (z(n.liquidity_change.get()), z(o.liquidity_change.get()));
    check(implies(and(n.sign, o.sign), nc == oc + netd), "the tick's net liquidity");
    check(implies(and(n.sign, !o.sign), nc + oc == netd), "the tick's net liquidity");
    check(implies(and(!n.sign, o.sign), nc + oc + netd == z(0u8)), "the tick's net liquidity");
    check(implies(and(!n.sign, !o.sign), oc == nc + netd), "the tick's net liquidity");
    check(n.sqrt_price == o.sqrt_price, "the tick's price");
    check(and(n.fee_growth_outside_x == o.fee_growth_outside_x, n.fee_growth_outside_y == o.fee_growth_outside_y), "the tick's growth");
    check(n.seconds_outside == o.seconds_outside, "the tick's seconds");
}
fn fresh(index: i32, w: &World) -> Tick {
    let below = index <= w.p.current_tick_index;
    Tick {
        index,
        sign: true,
        liquidity_change: liq(0),
        liquidity_gross: liq(0),
        sqrt_price: calculate_sqrt_price(index).unwrap(),
        fee_growth_outside_x: if below { w.p.fee_growth_global_x } else { FeeGrowth::new(0) },
        fee_growth_outside_y: if below { w.p.fee_growth_global_y } else { FeeGrowth::new(0) },
        seconds_outside: if below { w.now - w.p.start_timestamp } else { 0 },
    }
}
fn create(at: i32, lower: bool, upper: bool) {
    let inv = init(any_fee("protocol fee"));
    let w = world(inv, at, lower, upper);
    created(inv, w, at)
}
fn create_on_old(at: i32, x_side: bool) {
    let inv = init(any_fee("protocol fee"));
    let mut w = world(inv, at, true, true);
    one_token(&mut w, &mut Position::default(), x_side);
    put(inv, &w);
    created(inv, w, at)
}
fn created(inv: &mut Invariant, w: World, at: i32) {
    let l = any_liq("liquidity");
    let (lim0, lim1) = (any::<u128>("slippage lower"), any::<u128>("slippage upper"));
    // what it costs, by the curve (C03, C16)
    let cost = catch(|| calculate_amount_delta(w.p.current_tick_index, w.p.sqrt_price, l, true, UP, LO));
    let mut s = service(actor(5));
    let r = catch(|| s.create_position(w.k, LO, UP, l, SqrtPrice::new(lim0), SqrtPrice::new(lim1)));
    let (x, y, inside) = match cost {
        Ok(Ok(c)) => c,
        _ => {
            check(r.is_err(), "no position without a price");
            return;
        }
    };
    if r.is_err() {
        // every refusal has one of these reasons
        let max = z(calculate_max_liquidity_per_tick(SP).get());
        let g = |t: Option<Tick>| match t {
            Some(t) => z(t.liquidity_gross.get()),
            None => z(0u8),
        };
        let c = |t: Option<Tick>| match t {
            Some(t) => z(t.liquidity_change.get()),
            None => z(0u8),
        };
        let full = or(z(l.get()) + g(w.lower) >= max, z(l.get()) + g(w.upper) >= max);
        let over = or(z(l.get()) + c(w.lower) >= pow2(256), z(l.get()) + c(w.upper) >= pow2(256));
        let limit = or(w.p.sqrt_price.get() < lim0, w.p.sqrt_price.get() > lim1);
        let poor = or(w.bx < x, w.by < y);
        let big = z(w.p.liquidity.get()) + z(l.get()) >= pow2(256);
        let early = w.now < w.p.start_timestamp;
        check(or(or(or(l.is_zero(), limit), or(poor, full)), or(over, or(big, early))), "a position that can be paid is not refused");
        return;
    }
    let q = r.unwrap();
    reach("created");
    check(!l.is_zero(), "not without liquidity");
    check(and(w.p.sqrt_price.get() >= lim0, w.p.sqrt_price.get() <= lim1), "not outside the price limits");
    check(inside == (at >= LO && at < UP), "in range or not");
    check(z(balance(w.k.token_x, actor(5)).get()) + z(x.get()) == z(w.bx.get()), "exactly the first token's amount is taken");
    check(z(balance(w.k.token_y, actor(5)).get()) + z(y.get()) == z(w.by.get()), "exactly the second token's amount is taken");
    // the pool
    let p = inv.pools.get(&w.k).unwrap();
    check(z(p.liquidity.get()) == if inside { z(w.p.liquidity.get()) + z(l.get()) } else { z(w.p.liquidity.get()) }, "the pool's liquidity");
    check(p == Pool { liquidity: p.liquidity, last_timestamp: w.now, ..w.p.clone() }, "nothing else of the pool changes but its time");
    // the ticks
    let (ol, ou) = (w.lower.unwrap_or_else(|| fresh(LO, &w)), w.upper.unwrap_or_else(|| fresh(UP, &w)));
    let (nl, nu) = (*inv.ticks.get(w.k, LO).unwrap(), *inv.ticks.get(w.k, UP).unwrap());
    is_tick(&nl, &ol, z(l.get()), z(l.get()));
    is_tick(&nu, &ou, z(l.get()), z(0u8) - z(l.get()));
    let max = calculate_max_liquidity_per_tick(SP);
    check(and(nl.liquidity_gross <= max, nu.liquidity_gross <= max), "the limit per tick holds");
    in_step(inv, &w);
    check(inv.tickmap.get(LO, SP, w.k), "the lower tick is marked");
    check(inv.tickmap.get(UP, SP, w.k), "the upper tick is marked");
    frame(inv, &w);
    // the position
    let (gx, gy) = calculate_fee_growth_inside(LO, ol.fee_growth_outside_x, ol.fee_growth_outside_y, UP, ou.fee_growth_outside_x, ou.fee_growth_outside_y, w.p.current_tick_index, w.p.fee_growth_global_x, w.p.fee_growth_global_y);
    check(q == Position { pool_key: w.k, liquidity: l, lower_tick_index: LO, upper_tick_index: UP, fee_growth_inside_x: gx, fee_growth_inside_y: gy, last_block_number: get_env("block_height") as u64, tokens_owed_x: amt(0), tokens_owed_y: amt(0) },
        "the position is as ordered, with no fees yet");
    check(inv.positions.get_length(&actor(5)) == 1, "one position for the caller");
    check(inv.positions.get(&actor(5), 0) == Ok(&q), "the one returned");
    check(inv.positions.get_length(&actor(6)) == 0, "none for others");
}
pub fn h_open_inside_new() {
    create(0, false, false)
}
pub fn h_open_inside_old_x() {
    create_on_old(0, true)
}
pub fn h_open_inside_old_y() {
    create_on_old(0, false)
}
pub fn h_open_inside_low() {
    create(0, true, false)
}
pub fn h_open_inside_up() {
    create(0, false, true)
}
pub fn h_open_below() {
    create(-20, false, true)
}
pub fn h_open_above() {
    create(20, true, false)
}
pub fn h_open_at_lower() {
    create(-10, false, false)
}
/// arguments that never open a position, whatever else holds
pub fn h_open_refused() {
    let inv = init(any_fee("protocol fee"));
    let w = world(inv, 0, false, false);
    let (mut k, mut lo, mut up) = (w.k, LO, UP);
    let t = any::<i32>("tick");
    let a = if t < 0 { -(t as i64) } else { t as i64 };
    match pick(7) {
        0 => k = key(3, 5, 1_000_000_000, SP),
        1 => k = key(3, 4, 1_000_000_001, SP),
        2 => {
            lo = UP;
            up = LO
        }
        3 => up = LO,
        4 => {
            assume(or(a % (SP as i64) != 0, a > MAX_TICK as i64));
            lo = t
        }
        5 => {
            assume(or(a % (SP as i64) != 0, a > MAX_TICK as i64));
            up = t
        }
        _ => k = key(4, 3, 1_000_000_000, SP),
    }
    let mut s = service(actor(5));
    let l = any_liq("liquidity");
    let r = catch(|| s.create_position(k, lo, up, l, SqrtPrice::new(0), SqrtPrice::new(u128::MAX)));
    check(r.is_err(), "refused");
    reach("refused");
}

/// any position of the pool between the two ticks
fn any_position(k: PoolKey) -> Position {
    Position {
        pool_key: k,
        liquidity: any_liq("position liquidity"),
        lower_tick_index: LO,
        upper_tick_index: UP,
        fee_growth_inside_x: any_growth("checkpoint x"),
        fee_growth_inside_y: any_growth("checkpoint y"),
        last_block_number: any::<u32>("block") as u64,
        tokens_owed_x: any_amt("owed x"),
        tokens_owed_y: any_amt("owed y"),
    }
}
fn far(k: PoolKey) -> Position {
    Position { pool_key: k, liquidity: liq(3), lower_tick_index: 40, upper_tick_index: 50, ..Position::default() }
}
/// what the position has earned since its checkpoint, per token (C10, C08, C15)
fn earned(w: &World, q: &Position) -> Result<(TokenAmount, TokenAmount), Panicked> {
    let (l, u) = (w.lower.unwrap(), w.upper.unwrap());
    let (gx, gy) = calculate_fee_growth_inside(LO, l.fee_growth_outside_x, l.fee_growth_outside_y, UP, u.fee_growth_outside_x, u.fee_growth_outside_y, w.p.current_tick_index, w.p.fee_growth_global_x, w.p.fee_growth_global_y);
    catch(|| (gx.unchecked_sub(q.fee_growth_inside_x).to_fee(q.liquidity).unwrap(), gy.unchecked_sub(q.fee_growth_inside_y).to_fee(q.liquidity).unwrap()))
}
/// which token's counters are arbitrary; the other's are zero
fn one_token(w: &mut World, q: &mut Position, x: bool) {
    if x {
        w.p.fee_growth_global_y = FeeGrowth::new(0);
        q.fee_growth_inside_y = FeeGrowth::new(0);
        q.tokens_owed_y = amt(0);
        w.lower.as_mut().unwrap().fee_growth_outside_y = FeeGrowth::new(0);
        w.upper.as_mut().unwrap().fee_growth_outside_y = FeeGrowth::new(0);
    } else {
        w.p.fee_growth_global_x = FeeGrowth::new(0);
        q.fee_growth_inside_x = FeeGrowth::new(0);
        q.tokens_owed_x = amt(0);
        w.lower.as_mut().unwrap().fee_growth_outside_x = FeeGrowth::new(0);
        w.upper.as_mut().unwrap().fee_growth_outside_x = FeeGrowth::new(0);
    }
}
fn put(inv: &mut Invariant, w: &World) {
    inv.pools.update(&w.k, &w.p).unwrap();
    inv.ticks.update(w.k, LO, w.lower.unwrap()).unwrap();
    inv.ticks.update(w.k, UP, w.upper.unwrap()).unwrap();
}
fn close(at: i32, x_side: bool) {
    let inv = init(any_fee("protocol fee"));
    let mut w = world(inv, at, true, true);
    let mut q = any_position(w.k);
    one_token(&mut w, &mut q, x_side);
    put(inv, &w);
    let f = far(w.k);
    inv.positions.add(&actor(5), &f);
    inv.positions.add(&actor(5), &q);
    inv.positions.add(&actor(6), &q);
    let e = earned(&w, &q);
    let c = catch(|| calculate_amount_delta(at, w.p.sqrt_price, q.liquidity, false, UP, LO));
    let mut s = service(actor(5));
    let r = catch(|| s.remove_position(1));
    if r.is_err() {
        check(inv.positions.get(&actor(6), 0) == Ok(&q), "others keep their positions");
        // a position that is backed can always be closed
        let l = z(q.liquidity.get());
        let (g, h) = (w.lower.unwrap(), w.upper.unwrap());
        let unbacked = or(or(z(g.liquidity_gross.get()) < l, z(h.liquidity_gross.get()) < l), and(at >= LO && at < UP, z(w.p.liquidity.get()) < l));
        let over = or(z(g.liquidity_change.get()) + l >= pow2(256), z(h.liquidity_change.get()) + l >= pow2(256));
        match (e, c) {
            (Ok((ex, ey)), Ok(Ok((cx, cy, _)))) => {
                let rich = |b: TokenAmount, c: TokenAmount, e: TokenAmount, o: TokenAmount| z(b.get()) + z(c.get()) + z(e.get()) + z(o.get()) >= pow2(256);
                let full = or(rich(w.bx, cx, ex, q.tokens_owed_x), rich(w.by, cy, ey, q.tokens_owed_y));
                let high = or(z(g.liquidity_gross.get()) >= z(calculate_max_liquidity_per_tick(SP).get()), z(h.liquidity_gross.get()) >= z(calculate_max_liquidity_per_tick(SP).get()));
                check(or(or(unbacked, or(over, high)), or(full, q.liquidity.is_zero())), "a backed position can be closed");
            }
            _ => {}
        }
        return;
    }
    let (x, y) = r.unwrap();
    check(e.is_ok(), "not without its fees");
    let ((ex, ey), (cx, cy, inside)) = (e.unwrap(), c.unwrap().unwrap());
    check(z(x.get()) == z(cx.get()) + z(ex.get()) + z(q.tokens_owed_x.get()), "the first token: its liquidity's amount and its fees, no more");
    check(z(y.get()) == z(cy.get()) + z(ey.get()) + z(q.tokens_owed_y.get()), "the second token: its liquidity's amount and its fees, no more");
    check(z(balance(w.k.token_x, actor(5)).get()) == z(w.bx.get()) + z(x.get()), "credited to its owner");
    check(z(balance(w.k.token_y, actor(5)).get()) == z(w.by.get()) + z(y.get()), "credited to its owner");
    let p = inv.pools.get(&w.k).unwrap();
    check(z(p.liquidity.get()) + if inside { z(q.liquidity.get()) } else { z(0u8) } == z(w.p.liquidity.get()), "the pool's liquidity");
    check(p == Pool { liquidity: p.liquidity, last_timestamp: w.now, ..w.p.clone() }, "nothing else of the pool changes but its time");
    let (ol, ou) = (w.lower.unwrap(), w.upper.unwrap());
    let l = q.liquidity;
    check(implies(or(ol.liquidity_gross < l, ou.liquidity_gross < l), false), "not more than the ticks hold");
    if inv.ticks.get(w.k, LO).is_ok() {
        is_tick(inv.ticks.get(w.k, LO).unwrap(), &ol, z(0u8) - z(l.get()), z(0u8) - z(l.get()));
        check(ol.liquidity_gross != l, "a tick nobody uses goes");
        reach("lower stays");
    } else {
        check(ol.liquidity_gross == l, "a tick somebody uses stays");
        reach("lower goes");
    }
    if inv.ticks.get(w.k, UP).is_ok() {
        is_tick(inv.ticks.get(w.k, UP).unwrap(), &ou, z(0u8) - z(l.get()), z(l.get()));
        check(ou.liquidity_gross != l, "a tick nobody uses goes");
    } else {
        check(ou.liquidity_gross == l, "a tick somebody uses stays");
    }
    in_step(inv, &w);
    frame(inv, &w);
    check(inv.positions.get_length(&actor(5)) == 1, "the position is gone");
    check(inv.positions.get(&actor(5), 0) == Ok(&f), "the other one stays");
    check(inv.positions.get(&actor(6), 0) == Ok(&q), "others keep theirs");
    check(catch(|| s.remove_position(1)).is_err(), "not twice");
}
pub fn h_close_inside_x() {
    close(0, true)
}
pub fn h_close_inside_y() {
    close(0, false)
}
pub fn h_close_below_x() {
    close(-20, true)
}
pub fn h_close_above_y() {
    close(20, false)
}
fn claim(at: i32, x_side: bool) {
    let inv = init(any_fee("protocol fee"));
    let mut w = world(inv, at, true, true);
    let mut q = any_position(w.k);
    one_token(&mut w, &mut q, x_side);
    put(inv, &w);
    let f = far(w.k);
    inv.positions.add(&actor(5), &f);
    inv.positions.add(&actor(5), &q);
    inv.positions.add(&actor(6), &q);
    let e = earned(&w, &q);
    let mut s = service(actor(5));
    let r = catch(|| s.claim_fee(1));
    if r.is_err() {
        if e.is_ok() {
            let (ex, ey) = e.unwrap();
            let rich = |b: TokenAmount, e: TokenAmount, o: TokenAmount| z(b.get()) + z(e.get()) + z(o.get()) >= pow2(256);
            let m = z(calculate_max_liquidity_per_tick(SP).get());
            let high = or(z(w.lower.unwrap().liquidity_gross.get()) >= m, z(w.upper.unwrap().liquidity_gross.get()) >= m);
            check(or(or(rich(w.bx, ex, q.tokens_owed_x), rich(w.by, ey, q.tokens_owed_y)), or(high, q.liquidity.is_zero())), "fees can be claimed");
        }
        return;
    }
    reach("claimed");
    let (x, y) = r.unwrap();
    check(e.is_ok(), "only what can be computed");
    let (ex, ey) = e.unwrap();
    check(z(x.get()) == z(ex.get()) + z(q.tokens_owed_x.get()), "the first token's fees");
    check(z(y.get()) == z(ey.get()) + z(q.tokens_owed_y.get()), "the second token's fees");
    check(z(balance(w.k.token_x, actor(5)).get()) == z(w.bx.get()) + z(x.get()), "credited to its owner");
    check(z(balance(w.k.token_y, actor(5)).get()) == z(w.by.get()) + z(y.get()), "credited to its owner");
    is_tick(inv.ticks.get(w.k, LO).unwrap(), &w.lower.unwrap(), z(0u8), z(0u8));
    is_tick(inv.ticks.get(w.k, UP).unwrap(), &w.upper.unwrap(), z(0u8), z(0u8));
    let p = inv.pools.get(&w.k).unwrap();
    check(p == Pool { last_timestamp: w.now, ..w.p.clone() }, "nothing of the pool changes but its time");
    frame(inv, &w);
    let n = *inv.positions.get(&actor(5), 1).unwrap();
    check(n == Position { fee_growth_inside_x: n.fee_growth_inside_x, fee_growth_inside_y: n.fee_growth_inside_y, tokens_owed_x: amt(0), tokens_owed_y: amt(0), ..q }, "the position keeps its liquidity and owes nothing");
    check(inv.positions.get(&actor(5), 0) == Ok(&f), "the other one stays");
    check(inv.positions.get(&actor(6), 0) == Ok(&q), "others keep theirs");
    check(inv.positions.get_length(&actor(5)) == 2, "none appears");
    let r = catch(|| s.claim_fee(1));
    check(r == Ok((amt(0), amt(0))), "at once again there is nothing");
}
pub fn h_claim_inside_x() {
    claim(0, true)
}
pub fn h_claim_inside_y() {
    claim(0, false)
}
pub fn h_claim_above_x() {
    claim(20, true)
}
pub fn h_claim_below_y() {
    claim(-20, false)
}
/// only one's own positions
pub fn h_close_others() {
    let inv = init(any_fee("protocol fee"));
    let w = world(inv, 0, true, true);
    let q = any_position(w.k);
    inv.positions.add(&actor(6), &q);
    let caller = any_actor("caller");
    assume(caller != actor(6));
    let mut s = service(caller);
    let i = any::<u32>("index");
    let r = if any::<bool>("claim") { catch(|| s.claim_fee(i)).is_ok() } else { catch(|| s.remove_position(i)).is_ok() };
    check(!r, "nobody reaches another's position");
    check(inv.positions.get(&actor(6), 0) == Ok(&q), "it stays");
    reach("refused");
}

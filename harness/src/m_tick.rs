//! Ticks: liquidity bookkeeping, crossing, creation; positions and pools built on them.
use crate::kit::*;
use crate::vk::*;
use decimal::Decimal;

fn net(t: &Tick) -> Z {
    if t.sign { z(t.liquidity_change.get()) } else { z(0u8) - z(t.liquidity_change.get()) }
}
fn any_tick(index: i32) -> Tick {
    Tick {
        index,
        sign: any::<bool>("sign"),
        liquidity_change: any_liq("change"),
        liquidity_gross: any_liq("gross"),
        fee_growth_outside_x: any_growth("outside x"),
        fee_growth_outside_y: any_growth("outside y"),
        seconds_outside: any::<u64>("seconds outside"),
        ..Tick::default()
    }
}
fn same_rest(a: &Tick, b: &Tick) -> bool {
    and(and(a.index == b.index, a.sqrt_price == b.sqrt_price), and(a.fee_growth_outside_x == b.fee_growth_outside_x, and(a.fee_growth_outside_y == b.fee_growth_outside_y, a.seconds_outside == b.seconds_outside)))
}
fn same_tick(a: &Tick, b: &Tick) -> bool {
    and(same_rest(a, b), and(net(a) == net(b), a.liquidity_gross == b.liquidity_gross))
}
// adding or removing a position's liquidity at one of its ends
pub fn h_tick_update() {
    let mut t = any_tick(any::<i32>("index"));
    let before = t;
    let (d, max) = (any_liq("delta"), any_liq("max"));
    let (upper, deposit) = (any::<bool>("upper"), any::<bool>("deposit"));
    // an initialised tick's net change is never larger than its gross liquidity
    assume(t.liquidity_change <= t.liquidity_gross);
    let r = catch(|| t.update(d, max, upper, deposit));
    let e = if deposit != upper { net(&before) + z(d.get()) } else { net(&before) - z(d.get()) };
    let gross = if deposit { z(before.liquidity_gross.get()) + z(d.get()) } else { z(before.liquidity_gross.get()) - z(d.get()) };
    match r {
        Ok(Ok(())) => {
            reach("updated");
            check(z(t.liquidity_gross.get()) == gross, "gross liquidity follows the change");
            if deposit {
                check(t.liquidity_gross < max, "a deposit stays under the limit per tick");
            }
            check(net(&t) == e, "net liquidity follows the change");
            check(same_rest(&t, &before), "nothing else changes");
        }
        Ok(Err(_)) => {
            reach("refused");
            if deposit {
                check(or(gross >= z(max.get()), gross >= pow2(256)), "a deposit is refused only over the limit");
            } else {
                check(gross < z(0u8), "a withdrawal is refused only if too large");
            }
            check(and(t.liquidity_gross == before.liquidity_gross, net(&t) == net(&before)), "a refused change has no effect");
        }
        Err(_) => check(or(e >= pow2(256), e + pow2(256) <= z(0u8)), "panics only for want of room"),
    }
}
// the limit leaves room for all ticks: no sum of net changes can overflow
pub fn h_tick_limit() {
    let s = any::<u16>("spacing");
    assume(and(s >= 1, s <= 100));
    let m = calculate_max_liquidity_per_tick(s);
    let n = z((2 * MAX_TICK + 1) as u32) / z(s);
    check(z(m.get()) * n < pow2(256), "every tick at its limit still fits");
    check((z(m.get()) + z(1u8)) * n >= pow2(256) - z(1u8), "the limit is the largest such value");
}
// the limit of the pool's own spacing binds whoever adds liquidity, at both ends
pub fn h_limit_create() {
    let s = [1u16, 2, 5, 10, 60, 100][pick(6) as usize];
    let at = |i: i32| calculate_sqrt_price(i).unwrap();
    let mut p = Pool { sqrt_price: at(0), ..Pool::default() };
    let (l, h) = (s as i32, 2 * s as i32);
    let mut lower = Tick { sqrt_price: at(l), ..any_end("lower", l) };
    let mut upper = Tick { sqrt_price: at(h), ..any_end("upper", h) };
    let (before_l, before_h) = (lower, upper);
    let d = any_liq("delta");
    let k = key(3, 4, 6_000_000_000, s);
    let n = z((2 * MAX_TICK + 1) as u32) / z(s);
    let r = catch(|| Position::create(&mut p, k, &mut lower, &mut upper, 10, d, SqrtPrice::new(0), SqrtPrice::new(u128::MAX), 7, s));
    if let Ok(Ok((pos, _, _))) = r {
        reach("opened");
        check(pos.liquidity == d, "the position holds what was added");
        check(and(z(lower.liquidity_gross.get()) == z(before_l.liquidity_gross.get()) + z(d.get()), z(upper.liquidity_gross.get()) == z(before_h.liquidity_gross.get()) + z(d.get())), "both ends count it");
        check(and(z(lower.liquidity_gross.get()) * n < pow2(256), z(upper.liquidity_gross.get()) * n < pow2(256)), "neither end goes over the limit of this spacing");
        check(and(z(before_l.liquidity_gross.get()) + z(d.get()) == z(lower.liquidity_gross.get()), net(&lower) - net(&before_l) == z(d.get())), "the lower end adds it");
        check(net(&before_h) - net(&upper) == z(d.get()), "the upper end takes it away");
    }
}
fn any_end(n: &'static str, index: i32) -> Tick {
    let g = if n == "lower" { any_liq("lower gross") } else { any_liq("upper gross") };
    let c = if n == "lower" { any_liq("lower change") } else { any_liq("upper change") };
    let sign = if n == "lower" { any::<bool>("lower sign") } else { any::<bool>("upper sign") };
    assume(c <= g);
    Tick { index, sign, liquidity_change: c, liquidity_gross: g, ..Tick::default() }
}
pub fn h_tick_cross() {
    let mut t = any_tick(any::<i32>("index"));
    assume(and(t.index >= -MAX_TICK, t.index <= MAX_TICK));
    let before = t;
    let mut p = Pool {
        liquidity: any_liq("liquidity"),
        current_tick_index: any::<i32>("current"),
        fee_growth_global_x: any_growth("gx"),
        fee_growth_global_y: any_growth("gy"),
        start_timestamp: any::<u64>("start"),
        last_timestamp: any::<u64>("last"),
        ..Pool::default()
    };
    let q = p.clone();
    let now = any::<u64>("now");
    let up = p.current_tick_index < t.index;
    let l = if up { z(p.liquidity.get()) + net(&t) } else { z(p.liquidity.get()) - net(&t) };
    match catch(|| t.cross(&mut p, now)) {
        Ok(Ok(())) => {
            reach("crossed");
            check(z(p.liquidity.get()) == l, "the pool's liquidity moves by the tick's net change");
            check(and(p.fee_growth_global_x == q.fee_growth_global_x, p.fee_growth_global_y == q.fee_growth_global_y), "fees stay");
            check(and(p.current_tick_index == q.current_tick_index, p.last_timestamp == now), "time is recorded");
            check(z(t.fee_growth_outside_x.get()) == wrap(z(q.fee_growth_global_x.get()) - z(before.fee_growth_outside_x.get()), 128), "outside x flips");
            check(z(t.fee_growth_outside_y.get()) == wrap(z(q.fee_growth_global_y.get()) - z(before.fee_growth_outside_y.get()), 128), "outside y flips");
            check(z(t.seconds_outside) == wrap(z(now) - z(q.start_timestamp) - z(before.seconds_outside), 64), "outside seconds flip");
            check(and(t.liquidity_gross == before.liquidity_gross, and(t.liquidity_change == before.liquidity_change, t.sign == before.sign)), "the tick's liquidity stays");
            // and back from the other side
            p.current_tick_index = if up { t.index } else { t.index - 1 };
            if let Ok(Ok(())) = catch(|| t.cross(&mut p, now)) {
                reach("crossed back");
                check(and(p.liquidity == q.liquidity, t == before), "crossing back restores everything");
            } else {
                check(false, "crossing back works");
            }
        }
        Ok(Err(_)) => check(or(or(l < z(0u8), l >= pow2(256)), now < q.start_timestamp), "refused only when the liquidity does not fit or time runs backwards"),
        Err(_) => check(false, "no panic"),
    }
}
fn wrap(v: Z, n: u32) -> Z {
    v - (v / pow2(n)) * pow2(n)
}
pub fn h_tick_create() {
    let i = match cases(any_case(5), 5) {
        0 => -MAX_TICK,
        1 => -10,
        2 => 0,
        3 => 7,
        _ => MAX_TICK,
    };
    let p = Pool {
        current_tick_index: any::<i32>("current"),
        fee_growth_global_x: any_growth("gx"),
        fee_growth_global_y: any_growth("gy"),
        start_timestamp: any::<u64>("start"),
        ..Pool::default()
    };
    let now = any::<u64>("now");
    assume(now >= p.start_timestamp);
    let t = Tick::create(i, &p, now);
    check(and(t.index == i, and(t.liquidity_gross.is_zero(), t.liquidity_change.is_zero())), "a new tick holds no liquidity");
    check(t.sqrt_price == calculate_sqrt_price(i).unwrap(), "a new tick sits at its price");
    if i <= p.current_tick_index {
        reach("below");
        check(and(t.fee_growth_outside_x == p.fee_growth_global_x, t.fee_growth_outside_y == p.fee_growth_global_y), "all fees so far count as below");
        check(z(t.seconds_outside) == z(now) - z(p.start_timestamp), "all time so far counts as below");
    } else {
        reach("above");
        check(and(t.fee_growth_outside_x.is_zero(), t.fee_growth_outside_y.is_zero()), "no fees above");
        check(t.seconds_outside == 0, "no time above");
    }
}
fn any_case(n: u8) -> i128 {
    let c = any::<u8>("case");
    assume(c < n);
    c as i128
}

// ------------------------------------------------------------------ positions
const LO: i32 = -20;
const HI: i32 = 30;
fn any_pool() -> Pool {
    any_pool_at(match cases(any_case(5), 5) {
        0 => -30,
        1 => LO,
        2 => 0,
        3 => 20,
        _ => HI,
    })
}
/// the current tick is given, the price anywhere in that tick
fn any_pool_at(cur: i32) -> Pool {
    let p = any::<u128>("price");
    assume(p >= calculate_sqrt_price(cur).unwrap().get());
    assume(p <= calculate_sqrt_price(cur + 10).unwrap().get());
    Pool {
        liquidity: any_liq("pool liquidity"),
        sqrt_price: SqrtPrice::new(p),
        current_tick_index: cur,
        fee_growth_global_x: any_growth("gx"),
        fee_growth_global_y: any_growth("gy"),
        ..Pool::default()
    }
}
fn end(index: i32, gross: &'static str, x: &'static str, y: &'static str) -> Tick {
    let g = any_liq(gross);
    Tick { index, sign: true, liquidity_change: g, liquidity_gross: g, fee_growth_outside_x: any_growth(x), fee_growth_outside_y: any_growth(y), ..Tick::default() }
}
fn any_position() -> Position {
    Position {
        liquidity: any_liq("liquidity"),
        lower_tick_index: LO,
        upper_tick_index: HI,
        fee_growth_inside_x: any_growth("inside x"),
        fee_growth_inside_y: any_growth("inside y"),
        tokens_owed_x: any_amt("owed x"),
        tokens_owed_y: any_amt("owed y"),
        ..Position::default()
    }
}
// a position's accounting: what it is owed grows by its share of the fees accrued inside its range since last time
pub fn h_pos_update() {
    let mut p = any_position();
    let q = p;
    let (d, sign) = (any_liq("delta"), any::<bool>("add"));
    let (gx, gy) = (any_growth("new inside x"), any_growth("new inside y"));
    let r = catch(|| p.update(sign, d, gx, gy));
    if let Ok(Ok(())) = r {
        reach("updated");
        let l = if sign { z(q.liquidity.get()) + z(d.get()) } else { z(q.liquidity.get()) - z(d.get()) };
        check(z(p.liquidity.get()) == l, "liquidity follows the change");
        check(and(p.fee_growth_inside_x == gx, p.fee_growth_inside_y == gy), "fees are counted from now on");
        let ex = wrap(z(gx.get()) - z(q.fee_growth_inside_x.get()), 128) * z(q.liquidity.get()) / pow10(33);
        let ey = wrap(z(gy.get()) - z(q.fee_growth_inside_y.get()), 128) * z(q.liquidity.get()) / pow10(33);
        check(z(p.tokens_owed_x.get()) == z(q.tokens_owed_x.get()) + ex, "owed x grows by the share of the growth");
        check(z(p.tokens_owed_y.get()) == z(q.tokens_owed_y.get()) + ey, "owed y grows by the share of the growth");
        check(or(!d.is_zero(), !q.liquidity.is_zero()), "an empty position is not touched");
    }
}
pub fn h_pos_claim_x() {
    claim(true)
}
pub fn h_pos_claim_y() {
    claim(false)
}
// one token at a time: the other one's counters are zero
fn claim(x: bool) {
    let mut pool = any_pool();
    let (mut lo, mut hi) = (end(LO, "lo gross", "lo x", "lo y"), end(HI, "hi gross", "hi x", "hi y"));
    let mut p = any_position();
    let none = FeeGrowth::new(0);
    if x {
        (pool.fee_growth_global_y, lo.fee_growth_outside_y, hi.fee_growth_outside_y, p.fee_growth_inside_y) = (none, none, none, none);
    } else {
        (pool.fee_growth_global_x, lo.fee_growth_outside_x, hi.fee_growth_outside_x, p.fee_growth_inside_x) = (none, none, none, none);
    }
    let (lo0, hi0, pool0) = (lo, hi, pool.clone());
    let q = p;
    p.pool_key.fee_tier.tick_spacing = 10;
    if let Ok((x, y)) = catch(|| p.claim_fee(&mut pool, &mut hi, &mut lo, 7)) {
        reach("claimed");
        let (ix, iy) = calculate_fee_growth_inside(LO, lo0.fee_growth_outside_x, lo0.fee_growth_outside_y, HI, hi0.fee_growth_outside_x, hi0.fee_growth_outside_y, pool0.current_tick_index, pool0.fee_growth_global_x, pool0.fee_growth_global_y);
        check(z(x.get()) == z(q.tokens_owed_x.get()) + wrap(z(ix.get()) - z(q.fee_growth_inside_x.get()), 128) * z(q.liquidity.get()) / pow10(33), "pays the share of x");
        check(z(y.get()) == z(q.tokens_owed_y.get()) + wrap(z(iy.get()) - z(q.fee_growth_inside_y.get()), 128) * z(q.liquidity.get()) / pow10(33), "pays the share of y");
        check(and(p.tokens_owed_x.is_zero(), p.tokens_owed_y.is_zero()), "nothing is owed afterwards");
        check(and(p.liquidity == q.liquidity, pool.liquidity == pool0.liquidity), "liquidity stays");
        check(and(same_tick(&lo, &lo0), same_tick(&hi, &hi0)), "the ticks stay");
        if let Ok((x, y)) = catch(|| p.claim_fee(&mut pool, &mut hi, &mut lo, 7)) {
            reach("claimed again");
            check(and(x.is_zero(), y.is_zero()), "a second claim pays nothing");
        } else {
            check(false, "a second claim works");
        }
    }
}
// opening a position and closing it at the same price never pays more than was put in, and costs at most a unit
pub fn h_pos_round_below() {
    round(-30)
}
pub fn h_pos_round_low() {
    round(LO)
}
pub fn h_pos_round_inside() {
    round(20)
}
pub fn h_pos_round_above() {
    round(HI)
}
fn round(cur: i32) {
    let mut pool = any_pool_at(cur);
    pool.fee_growth_global_y = FeeGrowth::new(0);
    let (mut lo, mut hi) = (end(LO, "lo gross", "lo x", "lo y"), end(HI, "hi gross", "hi x", "hi y"));
    lo.fee_growth_outside_y = FeeGrowth::new(0);
    hi.fee_growth_outside_y = FeeGrowth::new(0);
    let (lo0, hi0, pool0) = (lo, hi, pool.clone());
    let d = any_liq("delta");
    let (sl, su) = (SqrtPrice::new(any::<u128>("limit low")), SqrtPrice::new(any::<u128>("limit high")));
    let r = catch(|| Position::create(&mut pool, PoolKey::default(), &mut lo, &mut hi, 7, d, sl, su, 9, 10));
    let within = and(pool0.sqrt_price >= sl, pool0.sqrt_price <= su);
    let (mut p, x, y) = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => {
            reach("refused");
            check(and(e == InvariantError::PriceLimitReached, !within), "refused only outside the price limits");
            check(and(pool == pool0, and(lo == lo0, hi == hi0)), "a refusal changes nothing");
            return;
        }
        Err(_) => {
            check(within, "outside the limits the answer is the price limit error");
            return;
        }
    };
    reach("opened");
    check(within, "opened only within the price limits");
    let active = and(pool0.current_tick_index >= LO, pool0.current_tick_index < HI);
    check(z(pool.liquidity.get()) == if active { z(pool0.liquidity.get()) + z(d.get()) } else { z(pool0.liquidity.get()) }, "liquidity in use grows only if the price is in the range");
    check(and(p.liquidity == d, and(p.tokens_owed_x.is_zero(), p.tokens_owed_y.is_zero())), "the position holds the liquidity and is owed nothing");
    check(and(p.lower_tick_index == LO, p.upper_tick_index == HI), "the range is the one asked for");
    check(and(lo.liquidity_gross == lo0.liquidity_gross + d, hi.liquidity_gross == hi0.liquidity_gross + d), "both ends carry the liquidity");
    let r = catch(|| p.remove(&mut pool, 7, &mut lo, &mut hi, 10));
    match r {
        Ok((x2, y2, dl, dh)) => {
            reach("closed");
            check(and(x2 <= x, y2 <= y), "never pays more than was put in");
            check(and(pool.liquidity == pool0.liquidity, p.liquidity.is_zero()), "the liquidity is gone");
            check(and(lo.liquidity_gross == lo0.liquidity_gross, hi.liquidity_gross == hi0.liquidity_gross), "both ends are as before");
            check(and(iff(dl, lo0.liquidity_gross.is_zero()), iff(dh, hi0.liquidity_gross.is_zero())), "an end is dropped exactly when unused");
        }
        Err(_) => check(false, "a position that was opened can be closed"),
    }
}
// the amounts of a position depend on where the price is
pub fn h_pos_amounts() {
    let pool = any_pool();
    let d = any_liq("delta");
    let sign = any::<bool>("add");
    if let Ok(Ok((x, y, used))) = catch(|| calculate_amount_delta(pool.current_tick_index, pool.sqrt_price, d, sign, HI, LO)) {
        let (pl, pu) = (calculate_sqrt_price(LO).unwrap(), calculate_sqrt_price(HI).unwrap());
        if pool.current_tick_index < LO {
            reach("below");
            check(and(y.is_zero(), !used), "only x below the range");
            check(x == get_delta_x(pl, pu, d, sign).unwrap(), "all of it in x");
        } else if pool.current_tick_index >= HI {
            reach("above");
            check(and(x.is_zero(), !used), "only y above the range");
            check(y == get_delta_y(pl, pu, d, sign).unwrap(), "all of it in y");
        } else {
            reach("inside");
            check(used, "in use inside the range");
            check(x == get_delta_x(pool.sqrt_price, pu, d, sign).unwrap(), "x up to the upper end");
            check(y == get_delta_y(pl, pool.sqrt_price, d, sign).unwrap(), "y down to the lower end");
        }
    }
}
// ------------------------------------------------------------------ pool fees
// what is left at a tick that cannot be crossed any more is a fee like any other
pub fn h_pool_leftover() {
    let t = Tick { index: -10, sign: any::<bool>("sign"), liquidity_change: liq(5), liquidity_gross: liq(5), sqrt_price: calculate_sqrt_price(-10).unwrap(), ..Tick::default() };
    let at = t.sqrt_price;
    let mut p = Pool {
        liquidity: Liquidity::new(U256::from(1_000_000_000_000u64) * U256::from(100_000)),
        sqrt_price: at,
        current_tick_index: 0,
        fee_growth_global_x: any_growth("gx"),
        fee_growth_global_y: any_growth("gy"),
        fee_protocol_token_x: any_amt("px"),
        fee_protocol_token_y: any_amt("py"),
        ..Pool::default()
    };
    let q = p.clone();
    let (rest, pf) = (any_amt("rest"), any_fee("protocol fee"));
    let by_in = any::<bool>("by amount in");
    let r = SwapResult { next_sqrt_price: at, amount_in: amt(10), amount_out: amt(9), fee_amount: amt(0) };
    let known = pick(2) == 0;
    let mut u = if known { UpdatePoolTick::TickInitialized(t) } else { UpdatePoolTick::TickUninitialized(-10) };
    let tier = FeeTier { fee: Percentage::new(900_000_000_000), tick_spacing: 10 };
    if let Ok((all, left, crossed)) = catch(|| p.update_tick(r, at, &mut u, rest, by_in, true, 10, pf, tier)) {
        let cut = z_divup(z(rest.get()) * z(pf.get()), z(ONE_PCT));
        let g = wrap(z(p.fee_growth_global_x.get()) - z(q.fee_growth_global_x.get()), 128);
        check(and(p.fee_growth_global_y == q.fee_growth_global_y, p.fee_protocol_token_y == q.fee_protocol_token_y), "the token paid out collects no fee");
        if crossed || !known || rest.is_zero() || !by_in {
            reach("nothing taken");
            check(all.is_zero(), "nothing more is charged");
            check(and(p.fee_growth_global_x == q.fee_growth_global_x, p.fee_protocol_token_x == q.fee_protocol_token_x), "no fee is credited");
            check(implies(or(crossed, !known), left == rest), "the rest goes on");
        } else {
            reach("left over");
            check(and(all == rest, left.is_zero()), "the rest is charged and used up");
            check(z(p.fee_protocol_token_x.get()) == z(q.fee_protocol_token_x.get()) + cut, "the protocol gets its part of the rest");
            check(g * z(q.liquidity.get()) <= (z(rest.get()) - cut) * pow10(33), "the positions get no more than what remains");
            check((g + z(1u8)) * z(q.liquidity.get()) > (z(rest.get()) - cut) * pow10(33), "and no less, but for rounding");
        }
    }
}
pub fn h_pool_fee() {
    let mut p = Pool {
        liquidity: any_liq("liquidity"),
        fee_growth_global_x: any_growth("gx"),
        fee_growth_global_y: any_growth("gy"),
        fee_protocol_token_x: any_amt("px"),
        fee_protocol_token_y: any_amt("py"),
        ..Pool::default()
    };
    let q = p.clone();
    let (a, in_x, pf) = (any_amt("amount"), any::<bool>("in x"), any_fee("protocol fee"));
    let r = catch(|| p.add_fee(a, in_x, pf));
    check(implies(q.liquidity.is_zero(), matches!(r, Ok(Ok(())))), "without liquidity there is nothing to fail");
    if let Ok(Ok(())) = r {
        let cut = z_divup(z(a.get()) * z(pf.get()), z(ONE_PCT));
        let (g0, g1, o0, o1, f0, f1, h0, h1) = if in_x {
            (q.fee_growth_global_x, p.fee_growth_global_x, q.fee_growth_global_y, p.fee_growth_global_y, q.fee_protocol_token_x, p.fee_protocol_token_x, q.fee_protocol_token_y, p.fee_protocol_token_y)
        } else {
            (q.fee_growth_global_y, p.fee_growth_global_y, q.fee_growth_global_x, p.fee_growth_global_x, q.fee_protocol_token_y, p.fee_protocol_token_y, q.fee_protocol_token_x, p.fee_protocol_token_x)
        };
        check(and(o0 == o1, h0 == h1), "the other token's fees stay");
        check(p.liquidity == q.liquidity, "liquidity stays");
        if q.liquidity.is_zero() {
            reach("no liquidity");
            check(and(g0 == g1, f0 == f1), "without liquidity nothing is credited");
        } else {
            reach("split");
            check(z(f1.get()) == z(f0.get()) + cut, "the protocol gets its share, rounded up");
            let g = wrap(z(g1.get()) - z(g0.get()), 128);
            check(g * z(q.liquidity.get()) <= (z(a.get()) - cut) * pow10(33), "the positions get no more than the rest");
            check((g + z(1u8)) * z(q.liquidity.get()) > (z(a.get()) - cut) * pow10(33), "and no less, but for rounding");
        }
    }
}
pub fn h_pool_withdraw() {
    let mut p = Pool { fee_protocol_token_x: any_amt("px"), fee_protocol_token_y: any_amt("py"), fee_growth_global_x: any_growth("gx"), liquidity: any_liq("l"), ..Pool::default() };
    let q = p.clone();
    let (x, y) = p.withdraw_protocol_fee(PoolKey::default());
    check(and(x == q.fee_protocol_token_x, y == q.fee_protocol_token_y), "pays what was collected");
    check(and(p.fee_protocol_token_x.is_zero(), p.fee_protocol_token_y.is_zero()), "and keeps nothing");
    let (x, y) = p.withdraw_protocol_fee(PoolKey::default());
    check(and(x.is_zero(), y.is_zero()), "a second withdrawal pays nothing");
    check(p == Pool { fee_protocol_token_x: TokenAmount::default(), fee_protocol_token_y: TokenAmount::default(), ..q }, "nothing else changes");
}

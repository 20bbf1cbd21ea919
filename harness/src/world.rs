//! A pool with ticks, positions and accounts as the service sees them.
use crate::kit::*;
use crate::vk::*;
use traceable_result::*;

pub const SP: u16 = 10;
pub fn k1() -> PoolKey {
    key(3, 4, 1_000_000_000, SP)
}
/// any tick record at an index (the price is the index's own)
pub fn any_tick(index: i32) -> Tick {
    Tick {
        index,
        sign: any::<bool>("tick sign"),
        liquidity_change: any_liq("tick change"),
        liquidity_gross: any_liq("tick gross"),
        sqrt_price: calculate_sqrt_price(index).unwrap(),
        fee_growth_outside_x: any_growth("tick growth x"),
        fee_growth_outside_y: any_growth("tick growth y"),
        seconds_outside: any::<u64>("tick seconds"),
    }
}
pub fn fixed_tick(index: i32) -> Tick {
    Tick { index, sign: true, liquidity_change: liq(7), liquidity_gross: liq(9), fee_growth_outside_x: FeeGrowth::new(5), ..Tick::default() }
}
/// a pool as swaps leave it: the price belongs to the current tick, which is on the grid
pub fn pool_at(tick: i32) -> Pool {
    let mut p = any_pool();
    p.current_tick_index = tick;
    assume(p.sqrt_price.get() >= calculate_sqrt_price(tick).unwrap().get());
    assume(p.sqrt_price.get() <= calculate_sqrt_price(tick + SP as i32).unwrap().get());
    p
}
pub struct World {
    pub k: PoolKey,
    pub p: Pool,
    pub lower: Option<Tick>,
    pub upper: Option<Tick>,
    pub other: Tick,
    pub bx: TokenAmount,
    pub by: TokenAmount,
    pub now: u64,
}
pub const LO: i32 = -10;
pub const UP: i32 = 20;
/// user 5 with balances, user 6 with other balances, a tick at 40 nobody touches
pub fn world(inv: &mut Invariant, at: i32, lower: bool, upper: bool) -> World {
    let k = k1();
    let p = pool_at(at);
    let now = any::<u64>("now");
    set_env("block_timestamp", now as u128);
    set_env("block_height", any::<u32>("height") as u128);
    inv.pools.add(&k, &p).unwrap();
    let lower = if lower { Some(any_tick(LO)) } else { None };
    let upper = if upper { Some(any_tick(UP)) } else { None };
    for t in [lower, upper].iter().flatten() {
        inv.add_tick(k, *t).unwrap();
    }
    let other = fixed_tick(40);
    inv.add_tick(k, other).unwrap();
    let (bx, by) = (any_amt("balance x"), any_amt("balance y"));
    assume(and(!bx.is_zero(), !by.is_zero()));
    inv.increase_token_balance(&k.token_x, &actor(5), bx).unwrap();
    inv.increase_token_balance(&k.token_y, &actor(5), by).unwrap();
    inv.increase_token_balance(&k.token_x, &actor(6), amt(11)).unwrap();
    World { k, p, lower, upper, other, bx, by, now }
}

/// the contract of get_tick_at_sqrt_price on the grid around zero: the greatest grid tick whose price is not above
pub fn stub_tick(p: SqrtPrice, spacing: u16) -> TrackableResult<i32> {
    let s = spacing as i32;
    match get_env("stub_tick") {
        2 => return stub_tick_far(p, s, &SEEN),
        3 => return stub_tick_far(p, s, &ENDS),
        _ => {}
    }
    let mut t = 6 * s;
    assume(p.get() < calculate_sqrt_price(7 * s).unwrap().get());
    while t >= -6 * s {
        if p.get() >= calculate_sqrt_price(t).unwrap().get() {
            return Ok(t);
        }
        t -= s;
    }
    assume(false);
    loop {}
}

/// the same over the whole grid, as far as some ticks tell: the answer is on the same side of each of them as the price
pub const SEEN: [i32; 11] = [-5560, -4000, -3000, -2560, -10, 0, 10, 2560, 3000, 4000, 5560];
pub const ENDS: [i32; 4] = [-221810, -220000, 220000, 221810];
fn stub_tick_far(p: SqrtPrice, s: i32, seen: &[i32]) -> TrackableResult<i32> {
    let t = any::<i16>("grid tick of the price") as i32 * s;
    assume(and(t >= -MAX_TICK, t <= MAX_TICK));
    for &k in seen {
        assume(iff(p.get() >= calculate_sqrt_price(k).unwrap().get(), t >= k));
    }
    Ok(t)
}

/// the contract of compute_swap_step (properties C01 and C02 decide it): the price stays between start and target,
/// by output never more than the amount comes out, by input exactly the amount is used unless the target is reached
pub fn stub_step(p: SqrtPrice, q: SqrtPrice, l: Liquidity, a: TokenAmount, by_in: bool, fee: Percentage) -> TrackableResult<SwapResult> {
    if l.is_zero() {
        return Ok(SwapResult { next_sqrt_price: q, amount_in: amt(0), amount_out: amt(0), fee_amount: amt(0) });
    }
    let n = any_price("step price");
    if p >= q {
        assume(and(n <= p, n >= q));
    } else {
        assume(and(n >= p, n <= q));
    }
    let i = amt(any::<u128>("step in"));
    let o = amt(any::<u128>("step out"));
    let f = amt(any::<u128>("step fee"));
    if by_in {
        assume(z(i.get()) + z(f.get()) <= z(a.get()));
        assume(or(n == q, z(i.get()) + z(f.get()) == z(a.get())));
    } else {
        assume(o <= a);
    }
    assume(implies(fee.is_zero(), f.is_zero()));
    Ok(SwapResult { next_sqrt_price: n, amount_in: i, amount_out: o, fee_amount: f })
}

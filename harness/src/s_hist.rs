//! Ticks, their map and the pool's liquidity over histories of positions.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;

const GRID: [i32; 6] = [-20, -10, 0, 10, 20, 30];
fn ranges(i: i128) -> (i32, i32) {
    match i {
        0 => (-10, 20),
        1 => (-10, 10),
        2 => (0, 20),
        3 => (10, 20),
        _ => (-20, -10),
    }
}
struct Open {
    lo: i32,
    up: i32,
    l: Liquidity,
}
fn held(inv: &Invariant, k: PoolKey, out: &mut Vec<Open>) {
    for u in [5u8, 6] {
        for q in inv.positions.get_all(&actor(u)) {
            check(q.pool_key == k, "in its pool");
            out.push(Open { lo: q.lower_tick_index, up: q.upper_tick_index, l: q.liquidity });
        }
    }
}
/// every tick record, every mark and the pool's liquidity are what the open positions make them
fn sound(inv: &Invariant, k: PoolKey) {
    let mut v = Vec::new();
    held(inv, k, &mut v);
    let p = inv.pools.get(&k).unwrap();
    let at = p.current_tick_index;
    let mut active = z(0u8);
    for o in v.iter() {
        if o.lo <= at && at < o.up {
            active = active + z(o.l.0);
        }
    }
    check(z(p.liquidity.0) == active, "the pool's liquidity is that of the positions in range");
    for t in GRID {
        let (mut n, mut gross, mut net) = (0, z(0u8), z(0u8));
        for o in v.iter() {
            if o.lo == t {
                n += 1;
                gross = gross + z(o.l.0);
                net = net + z(o.l.0);
            }
            if o.up == t {
                n += 1;
                gross = gross + z(o.l.0);
                net = net - z(o.l.0);
            }
        }
        let marked = inv.tickmap.get(t, SP, k);
        check(marked == (n > 0), "a tick is marked exactly while a position ends there");
        match inv.ticks.get(k, t) {
            Ok(r) => {
                check(n > 0, "a tick exists exactly while a position ends there");
                check(z(r.liquidity_gross.0) == gross, "its gross liquidity is the sum of theirs");
                let c = z(r.liquidity_change.0);
                check(or(and(r.sign, c == net), and(!r.sign, z(0u8) - c == net)), "its net liquidity is the difference");
                check(r.sqrt_price == calculate_sqrt_price(t).unwrap(), "its price is the tick's");
            }
            Err(_) => check(n == 0, "a tick exists exactly while a position ends there"),
        }
    }
}
fn pool(inv: &mut Invariant) -> PoolKey {
    let k = k1();
    let mut p = Pool::create(calculate_sqrt_price(0).unwrap(), 0, 0, SP, actor(9)).unwrap();
    p.fee_growth_global_x = FeeGrowth::new(1 << 90);
    p.fee_growth_global_y = FeeGrowth::new(3 << 90);
    inv.pools.add(&k, &p).unwrap();
    for u in [5u8, 6] {
        for t in [k.token_x, k.token_y] {
            inv.increase_token_balance(&t, &actor(u), TokenAmount::new(U256([0, 0, 0, 1 << 62]))).unwrap();
        }
    }
    k
}
fn create(k: PoolKey, who: u8, r: (i32, i32), n: &'static str) {
    let l = any_liq(n);
    assume(l.get() < U256::from(1u128 << 120));
    let mut s = service(actor(who));
    let _ = catch(|| s.create_position(k, r.0, r.1, l, SqrtPrice::new(0), SqrtPrice::new(u128::MAX)));
}
fn remove(who: u8, i: u32) {
    let mut s = service(actor(who));
    let _ = catch(|| s.remove_position(i));
}
fn history(first: i128) {
    let inv = init(Percentage::new(0));
    let k = pool(inv);
    create(k, 5, ranges(first), "first");
    sound(inv, k);
    create(k, 6, ranges(pick(5)), "second");
    sound(inv, k);
    if inv.positions.get_all(&actor(6)).len() == 1 {
        reach("both");
    }
    match pick(4) {
        0 => remove(5, 0),
        1 => remove(6, 0),
        2 => create(k, 5, (-10, 20), "third"),
        _ => {
            let mut s = service(actor(5));
            let _ = catch(|| s.transfer_position(0, actor(6)));
        }
    }
    sound(inv, k);
    match pick(2) {
        0 => remove(5, 0),
        _ => remove(6, 0),
    }
    sound(inv, k);
    reach("end");
}
pub fn h_hist_0() {
    history(0)
}
pub fn h_hist_1() {
    history(1)
}
pub fn h_hist_2() {
    history(2)
}
pub fn h_hist_3() {
    history(3)
}
pub fn h_hist_4() {
    history(4)
}
/// the same while swaps move the price over the ticks
fn traded(down: bool) {
    let inv = init(Percentage::new(0));
    let k = pool(inv);
    set_env("stub_tick", 1);
    let mut s = service(actor(5));
    s.create_position(k, -10, 20, liq(200_000_000_000), SqrtPrice::new(0), SqrtPrice::new(u128::MAX));
    let mut s = service(actor(6));
    s.create_position(k, -20, 30, liq(300_000_000_000), SqrtPrice::new(0), SqrtPrice::new(u128::MAX));
    set_env("bound compute_swap_step", 3);
    let a = amt(any::<u128>("amount"));
    assume(and(a.get() > U256::from(0), a.get() < U256::from(9000)));
    let mut s = service(actor(6));
    let lim = if down { calculate_sqrt_price(-40) } else { calculate_sqrt_price(50) }.unwrap();
    let r = catch(|| s.swap(k, down, a, true, lim));
    if r.is_err() {
        return;
    }
    reach("traded");
    sound(inv, k);
    create(k, 5, ranges(pick(4)), "third");
    sound(inv, k);
    remove(5, 0);
    sound(inv, k);
    remove(6, 0);
    sound(inv, k);
    reach("end");
}
pub fn h_hist_swap_up() {
    traded(false)
}
pub fn h_hist_swap_down() {
    traded(true)
}

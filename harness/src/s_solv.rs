//! What the pool owes never exceeds what it was given: whole histories through the service.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;

const L: u128 = 200_000_000_000;
struct Game {
    k: PoolKey,
    x: Z,
    y: Z,
}
/// a fresh pool at price one, two providers and a trader with balances
fn game(inv: &mut Invariant, fee: u128) -> Game {
    let k = key(3, 4, fee, SP);
    let p = Pool::create(calculate_sqrt_price(0).unwrap(), 0, 0, SP, actor(9)).unwrap();
    inv.pools.add(&k, &p).unwrap();
    inv.pool_keys.add(&k).unwrap();
    set_env("stub_tick", 1);
    for u in [5u8, 6, 7] {
        inv.increase_token_balance(&k.token_x, &actor(u), amt(1 << 110)).unwrap();
        inv.increase_token_balance(&k.token_y, &actor(u), amt(1 << 110)).unwrap();
    }
    let g = Game { k, x: z(0u8), y: z(0u8) };
    let (x, y) = total(inv, &g);
    Game { k, x, y }
}
/// everything owed to anyone: the users' balances and the protocol's fee
fn total(inv: &Invariant, g: &Game) -> (Z, Z) {
    let p = inv.pools.get(&g.k).unwrap();
    let (mut x, mut y) = (z(p.fee_protocol_token_x.get()), z(p.fee_protocol_token_y.get()));
    for u in [5u8, 6, 7, 9] {
        x = x + z(balance(g.k.token_x, actor(u)).get());
        y = y + z(balance(g.k.token_y, actor(u)).get());
    }
    (x, y)
}
fn open(g: &Game, who: u8, lo: i32, up: i32, l: u128) {
    let mut s = service(actor(who));
    s.create_position(g.k, lo, up, liq(l), SqrtPrice::new(0), SqrtPrice::new(u128::MAX));
}
fn settle(inv: &Invariant, g: &Game) {
    let (x, y) = total(inv, g);
    check(x <= g.x, "no more of the first token is owed than came in");
    check(y <= g.y, "no more of the second token is owed than came in");
}
fn trade(g: &Game, who: u8, down: bool, by_in: bool, n: &'static str, max: u128) -> bool {
    let a = amt(any::<u128>(n));
    assume(and(a.get() > U256::from(0), a.get() < U256::from(max)));
    let mut s = service(actor(who));
    let lim = if down { calculate_sqrt_price(-50) } else { calculate_sqrt_price(60) }.unwrap();
    catch(|| s.swap(g.k, down, a, by_in, lim)).is_ok()
}
/// one provider, one trade inside the range, the provider leaves
fn round(down: bool, by_in: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    let (l, max) = if any::<bool>("large") { (L * L, 900 * L) } else { (L, 900) };
    open(&g, 5, -10, 20, l);
    set_env("bound compute_swap_step", 1);
    if !trade(&g, 6, down, by_in, "amount", max) {
        return;
    }
    reach("traded");
    settle(inv, &g);
    let mut s = service(actor(5));
    let r = catch(|| s.remove_position(0));
    check(r.is_ok(), "the provider can leave");
    reach("left");
    settle(inv, &g);
}
pub fn h_solv_in_up() {
    round(false, true)
}
pub fn h_solv_in_down() {
    round(true, true)
}
pub fn h_solv_out_up() {
    round(false, false)
}
pub fn h_solv_out_down() {
    round(true, false)
}
/// leaves; whether it could
fn leave(inv: &Invariant, g: &Game, who: u8) {
    let mut s = service(actor(who));
    check(catch(|| s.remove_position(0)).is_ok(), "a provider can leave");
    settle(inv, g);
}
/// there and back again
fn back(down: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    open(&g, 5, -10, 20, L);
    set_env("bound compute_swap_step", 2);
    if !trade(&g, 6, down, true, "first", 900) {
        return;
    }
    if !trade(&g, 6, !down, true, "second", 900) {
        return;
    }
    reach("traded");
    settle(inv, &g);
    leave(inv, &g, 5);
    reach("left");
}
pub fn h_solv_back_up() {
    back(false)
}
pub fn h_solv_back_down() {
    back(true)
}
/// two providers, a trade over the end of the narrow range
fn cross(down: bool, by_in: bool, steps: u128) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    open(&g, 5, -10, 20, L);
    open(&g, 7, -30, 40, L);
    set_env("bound compute_swap_step", steps);
    if !trade(&g, 6, down, by_in, "amount", 7000) {
        return;
    }
    reach("traded");
    settle(inv, &g);
    leave(inv, &g, 5);
    leave(inv, &g, 7);
    reach("left");
}
pub fn h_solv_cross_in_up() {
    cross(false, true, 4)
}
pub fn h_solv_cross_in_down() {
    cross(true, true, 4)
}
pub fn h_solv_cross_out_up() {
    cross(false, false, 2)
}
pub fn h_solv_cross_out_down() {
    cross(true, false, 4)
}
/// a provider who comes after the trade gets none of its fees and no more than it brought
fn late(down: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    open(&g, 5, -10, 20, L);
    set_env("bound compute_swap_step", 1);
    if !trade(&g, 6, down, true, "amount", 900) {
        return;
    }
    let (lo, up) = match pick(3) {
        0 => (-10, 20),
        1 => (-20, 30),
        _ => (-30, 20),
    };
    let mut s = service(actor(7));
    if catch(|| s.create_position(g.k, lo, up, liq(3 * L), SqrtPrice::new(0), SqrtPrice::new(u128::MAX))).is_err() {
        return;
    }
    leave(inv, &g, 7);
    check(z(balance(g.k.token_x, actor(7)).get()) <= pow2(110), "no more than it brought");
    check(z(balance(g.k.token_y, actor(7)).get()) <= pow2(110), "no more than it brought");
    reach("left");
    leave(inv, &g, 5);
}
pub fn h_solv_late_up() {
    late(false)
}
pub fn h_solv_late_down() {
    late(true)
}
/// fees taken while the position stays: claimed twice, the protocol's part withdrawn, then everyone leaves
fn claims(down: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    open(&g, 5, -10, 20, L);
    open(&g, 7, -30, 20, 3 * L);
    set_env("bound compute_swap_step", 1);
    if !trade(&g, 6, down, true, "amount", 3600) {
        return;
    }
    let claim = || service(actor(5)).claim_fee(0);
    let (x, y) = claim();
    reach("claimed");
    settle(inv, &g);
    check(if down { y.is_zero() } else { x.is_zero() }, "no fee in the token paid out");
    let again = claim();
    check(and(again.0.is_zero(), again.1.is_zero()), "a second claim pays nothing");
    service(actor(9)).withdraw_protocol_fee(g.k);
    settle(inv, &g);
    let p = inv.pools.get(&g.k).unwrap();
    check(and(p.fee_protocol_token_x.is_zero(), p.fee_protocol_token_y.is_zero()), "the protocol's part is out");
    leave(inv, &g, 7);
    leave(inv, &g, 5);
    reach("left");
}
pub fn h_solv_claim_up() {
    claims(false)
}
pub fn h_solv_claim_down() {
    claims(true)
}
/// a narrow position left behind by the price: its fees are claimed once, and it leaves with nothing more than its tokens
fn claims_outside(down: bool) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    open(&g, 5, -10, 20, L);
    open(&g, 7, -30, 40, L);
    set_env("bound compute_swap_step", 4);
    if !trade(&g, 6, down, true, "amount", 7000) {
        return;
    }
    let claim = || service(actor(5)).claim_fee(0);
    claim();
    let again = claim();
    check(and(again.0.is_zero(), again.1.is_zero()), "a second claim pays nothing");
    settle(inv, &g);
    leave(inv, &g, 5);
    reach("left");
    leave(inv, &g, 7);
}
pub fn h_solv_outside_up() {
    claims_outside(false)
}
pub fn h_solv_outside_down() {
    claims_outside(true)
}
/// in and out again at the same price, next to somebody else: nothing gained, at most a unit of each token lost
fn there_and_back(lo: i32, up: i32) {
    let inv = init(Percentage::new(10_000_000_000));
    let g = game(inv, 6_000_000_000);
    open(&g, 5, -10, 20, L);
    let l = any_liq("liquidity");
    let before = inv.pools.get(&g.k).unwrap();
    let mut s = service(actor(7));
    if catch(|| s.create_position(g.k, lo, up, l, SqrtPrice::new(0), SqrtPrice::new(u128::MAX))).is_err() {
        return;
    }
    let used = (pow2(110) - z(balance(g.k.token_x, actor(7)).get()), pow2(110) - z(balance(g.k.token_y, actor(7)).get()));
    let active = inv.pools.get(&g.k).unwrap().liquidity;
    check(z(active.get()) == z(L) + if lo <= 0 && up > 0 { z(l.get()) } else { z(0u8) }, "the pool's liquidity counts it exactly when the price is inside");
    check(implies(lo > 0, used.1 == z(0u8)), "only the first token above the price");
    check(implies(up <= 0, used.0 == z(0u8)), "only the second token below the price");
    let (x, y) = service(actor(7)).remove_position(0);
    reach("back");
    check(and(z(x.get()) <= used.0, z(y.get()) <= used.1), "no more comes back than went in");
    check(and(z(x.get()) + z(2u8) >= used.0, z(y.get()) + z(1u8) >= used.1), "and no less, but for rounding");
    check(and(z(balance(g.k.token_x, actor(7)).get()) == pow2(110) - used.0 + z(x.get()), z(balance(g.k.token_y, actor(7)).get()) == pow2(110) - used.1 + z(y.get())), "it is credited");
    check(inv.pools.get(&g.k).unwrap().liquidity == before.liquidity, "the pool's liquidity is as before");
    settle(inv, &g);
}
pub fn h_solv_there_inside() {
    there_and_back(-10, 30)
}
pub fn h_solv_there_at() {
    there_and_back(0, 20)
}
pub fn h_solv_there_above() {
    there_and_back(10, 20)
}
pub fn h_solv_there_below() {
    there_and_back(-40, 0)
}

//! Who may do what: administration, fee tiers, the pool registry, protocol fees.
use crate::kit::*;
use crate::vk::*;

fn tier(n: &'static str, s: &'static str) -> FeeTier {
    FeeTier { fee: Percentage::new(any::<u128>(n)), tick_spacing: any::<u16>(s) }
}

/// every administrative operation, by anybody, in any order of two
pub fn h_admin_only() {
    let pf = Percentage::new(any::<u128>("protocol fee"));
    let inv = init(pf);
    let k = key(3, 4, 1_000_000_000, 10);
    let p = any_pool();
    inv.pools.add(&k, &p).unwrap();
    let t = k.fee_tier;
    inv.fee_tiers.add(&t).unwrap();
    let caller = any_actor("caller");
    let mut s = service(caller);
    let (n, r) = (Percentage::new(any::<u128>("new fee")), any_actor("receiver"));
    let new = tier("fee", "spacing");
    let ok = match pick(4) {
        0 => {
            let a = catch(|| s.change_protocol_fee(n));
            if let Ok(a) = a {
                check(a == n, "the new protocol fee is reported");
                check(s.get_protocol_fee() == n, "the new protocol fee is in force");
                reach("protocol fee changed");
            }
            a.is_ok()
        }
        1 => {
            let a = catch(|| s.add_fee_tier(new));
            if a.is_ok() {
                reach("tier added");
            }
            // it may fail for other reasons: only who may do it matters here
            check(implies(a.is_ok(), caller == actor(ADMIN)), "only the admin adds fee tiers");
            return;
        }
        2 => {
            let a = catch(|| s.remove_fee_tier(t));
            if a.is_ok() {
                check(!s.fee_tier_exists(t), "the tier is gone");
                reach("tier removed");
            }
            a.is_ok()
        }
        _ => {
            let a = catch(|| s.change_fee_receiver(k, r));
            if a.is_ok() {
                let q = s.get_pool(k.token_x, k.token_y, k.fee_tier).unwrap();
                check(q.fee_receiver == r, "the new receiver is in force");
                check(q == Pool { fee_receiver: r, ..p }, "nothing else of the pool changes");
                reach("receiver changed");
            }
            a.is_ok()
        }
    };
    check(iff(ok, caller == actor(ADMIN)), "the admin, and nobody else");
    let i = InvariantStorage::as_ref();
    check(i.config.admin == actor(ADMIN), "the admin stays the same");
}

/// operations open to everybody never change the configuration or the list of fee tiers
pub fn h_admin_frame() {
    let pf = any_fee("protocol fee");
    let inv = init(pf);
    let t = FeeTier { fee: Percentage::new(1_000_000_000), tick_spacing: 10 };
    inv.fee_tiers.add(&t).unwrap();
    let k = key(3, 4, 1_000_000_000, 10);
    let mut p = any_pool();
    p.fee_receiver = actor(7);
    inv.pools.add(&k, &p).unwrap();
    let caller = any_actor("caller");
    assume(caller != actor(ADMIN));
    let mut s = service(caller);
    match pick(3) {
        0 => {
            let r = catch(|| s.create_pool(actor(3), actor(5), t, SqrtPrice::new(1_000_000_000_000_000_000_000_000), 0));
            check(r.is_ok(), "anybody creates pools");
            let q = s.get_pool(actor(3), actor(5), t).unwrap();
            check(q.fee_receiver == actor(ADMIN), "the admin is the receiver of a new pool's protocol fees");
            reach("pool created");
        }
        1 => {
            if catch(|| s.withdraw_protocol_fee(k)).is_ok() {
                reach("withdrawn");
            }
        }
        _ => {
            if catch(|| s.transfer_position(0, actor(9))).is_ok() {
                check(false, "no position to transfer");
            }
        }
    }
    let i = InvariantStorage::as_ref();
    check(i.config.protocol_fee == pf, "the protocol fee stays");
    check(i.config.admin == actor(ADMIN), "the admin stays");
    check(s.fee_tier_exists(t), "the tiers stay");
    check(s.get_fee_tiers().len() == 1, "no tier appears");
    check(s.get_pool(actor(3), actor(4), t).unwrap().fee_receiver == actor(7), "the receiver stays");
}

fn valid(t: FeeTier) -> bool {
    and(and(t.tick_spacing >= 1, t.tick_spacing <= 100), t.fee.get() < ONE_PCT)
}
/// a tier is added exactly if it is valid and new
pub fn h_tier_add() {
    init(any_fee("protocol fee"));
    let mut s = service(actor(ADMIN));
    let (a, b, c) = (tier("fee", "spacing"), tier("fee", "spacing"), tier("fee", "spacing"));
    let r = catch(|| s.add_fee_tier(a));
    check(iff(r.is_ok(), valid(a)), "a first tier is added exactly if valid");
    if r.is_err() {
        return;
    }
    check(s.fee_tier_exists(a), "it exists");
    check(iff(s.fee_tier_exists(b), a == b), "nothing else does");
    let r = catch(|| s.add_fee_tier(b));
    check(iff(r.is_ok(), and(valid(b), a != b)), "a second is added exactly if valid and new");
    if r.is_err() {
        return;
    }
    reach("two tiers");
    let l = s.get_fee_tiers();
    check(l.len() == 2, "two are listed");
    check(and(l[0] == a, l[1] == b), "the two that were added");
    check(iff(s.fee_tier_exists(c), or(c == a, c == b)), "exactly these exist");
}
/// removing one of several tiers removes that one
pub fn h_tier_remove() {
    let inv = init(any_fee("protocol fee"));
    let (a, b, c) = (tier("fee", "spacing"), tier("fee", "spacing"), tier("fee", "spacing"));
    assume(and(a != b, and(b != c, a != c)));
    inv.fee_tiers.add(&a).unwrap();
    inv.fee_tiers.add(&b).unwrap();
    inv.fee_tiers.add(&c).unwrap();
    let k = PoolKey { token_x: actor(3), token_y: actor(4), fee_tier: a };
    let p = any_pool();
    inv.pools.add(&k, &p).unwrap();
    let d = tier("fee", "spacing");
    let mut s = service(actor(ADMIN));
    let r = catch(|| s.remove_fee_tier(d));
    check(iff(r.is_ok(), or(d == a, or(d == b, d == c))), "removed exactly if it existed");
    if r.is_err() {
        return;
    }
    reach("removed");
    check(!s.fee_tier_exists(d), "it is gone");
    check(s.get_fee_tiers().len() == 2, "one less");
    check(implies(a != d, s.fee_tier_exists(a)), "the others stay (1)");
    check(implies(b != d, s.fee_tier_exists(b)), "the others stay (2)");
    check(implies(c != d, s.fee_tier_exists(c)), "the others stay (3)");
    check(s.get_pool(actor(3), actor(4), a) == Ok(p), "existing pools stay");
    // and it can be added again
    check(iff(catch(|| s.add_fee_tier(d)).is_ok(), valid(d)), "it can come back");
}

const T0: u128 = 1_000_000_000_000_000_000_000_000;
/// creating a pool: for which arguments, and what it is then
pub fn h_pool_create() {
    let inv = init(any_fee("protocol fee"));
    let t = FeeTier { fee: any_fee("fee"), tick_spacing: 10 };
    let u = tier("other fee", "other spacing");
    inv.fee_tiers.add(&t).unwrap();
    set_env("block_timestamp", any::<u64>("now") as u128);
    let (x, y) = (any_actor("token"), any_actor("token"));
    let price = any::<u128>("price");
    // ticks -10 and 0 with the prices of ticks -10, 0 and 10
    let (tick, lo, hi) = if any::<bool>("tick 0") { (0, T0, 1_000_500_100_000_000_000_000_000u128) } else { (-10, 999_500_149_964_999_999_999_999u128, T0) };
    let caller = any_actor("caller");
    let mut s = service(caller);
    let w = if any::<bool>("listed tier") { t } else { u };
    let lo = calculate_sqrt_price(tick).unwrap().get();
    let hi = calculate_sqrt_price(tick + 10).unwrap().get();
    let r = catch(|| s.create_pool(x, y, w, SqrtPrice::new(price), tick));
    let good = and(and(x != y, w == t), and(price >= lo, price < hi));
    check(iff(r.is_ok(), good), "a pool needs two tokens, a listed tier and a price at its tick");
    if r.is_err() {
        return;
    }
    reach("pool created");
    let p = s.get_pool(x, y, t);
    check(p.is_ok(), "it can be found");
    let p = p.unwrap();
    check(s.get_pool(y, x, t) == Ok(p.clone()), "in either order of the tokens");
    check(p == Pool { sqrt_price: SqrtPrice::new(lo), current_tick_index: tick, start_timestamp: get_env("block_timestamp") as u64, last_timestamp: get_env("block_timestamp") as u64, fee_receiver: actor(ADMIN), ..Pool::default() },
        "it is empty, starts now at its tick, and the admin receives its protocol fee");
    let (keys, n) = s.get_pool_keys(10, 0);
    check(and(n == 1, keys.len() == 1), "it is listed once");
    check(keys[0] == PoolKey::new(x, y, t).unwrap(), "under its key");
    // not a second time, whatever the order of the tokens, price or tick
    let r = catch(|| s.create_pool(x, y, t, SqrtPrice::new(T0), 0));
    check(r.is_err(), "not twice");
    let r = catch(|| s.create_pool(y, x, t, SqrtPrice::new(T0), 0));
    check(r.is_err(), "not twice the other way round");
}
/// existing pools are untouched by a new one
pub fn h_pool_registry() {
    let inv = init(any_fee("protocol fee"));
    let (t, u) = (FeeTier { fee: any_fee("fee"), tick_spacing: 10 }, FeeTier { fee: any_fee("fee"), tick_spacing: 20 });
    inv.fee_tiers.add(&t).unwrap();
    inv.fee_tiers.add(&u).unwrap();
    let k = PoolKey { token_x: actor(3), token_y: actor(4), fee_tier: t };
    let p = any_pool();
    inv.pools.add(&k, &p).unwrap();
    inv.pool_keys.add(&k).unwrap();
    let (x, y) = (any_actor("token"), any_actor("token"));
    assume(x != y);
    let w = if any::<bool>("same tier") { t } else { u };
    let mut s = service(any_actor("caller"));
    let r = catch(|| s.create_pool(x, y, w, SqrtPrice::new(T0), 0));
    let n = PoolKey::new(x, y, w).unwrap();
    check(iff(r.is_ok(), n != k), "a new pool exactly if there is none for the pair and tier");
    check(s.get_pool(actor(3), actor(4), t) == Ok(p.clone()), "the old pool is as it was");
    if r.is_err() {
        return;
    }
    reach("second pool");
    let (keys, c) = s.get_pool_keys(10, 0);
    check(and(c == 2, keys.len() == 2), "two are listed");
    check(and(keys[0] == k, keys[1] == n), "the old and the new");
    let all = s.get_all_pools_for_pair(x, y).unwrap();
    let both = or(and(x == actor(3), y == actor(4)), and(x == actor(4), y == actor(3)));
    check(iff(all.len() == 2, both), "a pair's pools are all found");
    check(implies(!both, all.len() == 1), "and no others");
}
/// ticks off the grid or out of bounds never start a pool
pub fn h_pool_grid() {
    let inv = init(any_fee("protocol fee"));
    let sp = match pick(3) {
        0 => 1,
        1 => 10,
        _ => 100,
    };
    let t = FeeTier { fee: any_fee("fee"), tick_spacing: sp };
    inv.fee_tiers.add(&t).unwrap();
    let tick = any::<i32>("tick");
    let s = sp as i128;
    let q = z_divides(tick, sp);
    assume(or(!q, or(tick > MAX_TICK, tick < -MAX_TICK)));
    let _ = s;
    let mut v = service(any_actor("caller"));
    let r = catch(|| v.create_pool(actor(3), actor(4), t, SqrtPrice::new(any::<u128>("price")), tick));
    check(r.is_err(), "only ticks on the grid within the bounds");
    reach("refused");
}
fn z_divides(tick: i32, sp: u16) -> bool {
    let a = if tick < 0 { -(tick as i64) } else { tick as i64 };
    a % (sp as i64) == 0
}

/// protocol fees: the receiver gets what accumulated, once; nobody else gets anything
pub fn h_protocol_fee() {
    let inv = init(any_fee("protocol fee"));
    let (k, l) = (key(3, 4, 1_000_000_000, 10), key(3, 5, 1_000_000_000, 10));
    let (p, q) = (any_pool(), any_pool());
    inv.pools.add(&k, &p).unwrap();
    inv.pools.add(&l, &q).unwrap();
    let (caller, other) = (any_actor("caller"), any_actor("other"));
    assume(other != caller);
    let b = any_amt("balance");
    let ob = any_amt("other balance");
    inv.increase_token_balance(&actor(3), &caller, b).unwrap();
    inv.increase_token_balance(&actor(3), &other, ob).unwrap();
    let mut s = service(caller);
    let r = catch(|| s.withdraw_protocol_fee(k));
    check(implies(r.is_ok(), caller == p.fee_receiver), "only the receiver");
    check(implies(and(caller == p.fee_receiver, z(b.get()) + z(p.fee_protocol_token_x.get()) < pow2(256)), r.is_ok()), "the receiver always can");
    if r.is_err() {
        return;
    }
    reach("withdrawn");
    check(z(balance(actor(3), caller).get()) == z(b.get()) + z(p.fee_protocol_token_x.get()), "the first token is credited exactly");
    check(balance(actor(4), caller) == p.fee_protocol_token_y, "the second token is credited exactly");
    check(balance(actor(3), other) == ob, "nobody else is credited");
    check(s.get_pool(actor(3), actor(4), k.fee_tier) == Ok(Pool { fee_protocol_token_x: amt(0), fee_protocol_token_y: amt(0), ..p }), "only the accumulated fee leaves the pool");
    check(s.get_pool(actor(3), actor(5), l.fee_tier) == Ok(q), "no other pool changes");
    let r = catch(|| s.withdraw_protocol_fee(k));
    check(r.is_ok(), "again");
    check(z(balance(actor(3), caller).get()) == z(b.get()) + z(p.fee_protocol_token_x.get()), "nothing is paid twice");
    check(balance(actor(4), caller) == p.fee_protocol_token_y, "nothing is paid twice (second token)");
}

//! What the queries report is what is stored.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;

fn key_at(spacing: u16) -> PoolKey {
    key(3, 4, 1_000_000_000, spacing)
}
/// the places where a tick can be marked at the spacing: both ends of the grid, around the middle, ends of chunks
fn place(spacing: u16, n: i128) -> i32 {
    let s = spacing as i32;
    let top = get_max_tick(spacing);
    let low = get_min_tick(spacing);
    match n {
        0 => low,
        1 => low + 63 * s,
        2 => low + 64 * s,
        3 => 0,
        4 => top - s,
        _ => top,
    }
}
fn marks(spacing: u16) {
    let inv = init(any_fee("protocol fee"));
    let k = key_at(spacing);
    let other = key(3, 5, 1_000_000_000, spacing);
    let mut on = [false; 6];
    let mut n = 0u32;
    let mut i = 0;
    while i < 6 {
        on[i] = any::<bool>("marked");
        if on[i] {
            inv.tickmap.flip(true, place(spacing, i as i128), spacing, k);
            n += 1;
        }
        i += 1;
    }
    inv.tickmap.flip(true, 0, spacing, other);
    let s = service(any_actor("caller"));
    check(s.get_liquidity_ticks_amount(k) == n, "every marked tick of the pool is counted, wherever it is");
    check(s.get_liquidity_ticks_amount(other) == 1, "for each pool its own");
    let map = s.get_tickmap(k);
    let mut i = 0;
    while i < 6 {
        let (chunk, bit) = tick_to_position(place(spacing, i as i128), spacing);
        let mut seen = false;
        for (c, v) in map.iter() {
            if *c == chunk {
                seen = (*v >> bit) & 1 == 1;
            }
        }
        check(seen == on[i], "the map shows exactly the marked ticks, wherever they are");
        i += 1;
    }
    let mut total = 0;
    let mut last = None;
    for (c, v) in map.iter() {
        total += v.count_ones();
        check(last.map_or(true, |l| l < *c), "each chunk once, in order");
        last = Some(*c);
    }
    check(total == n, "and nothing else");
    reach("mapped");
}
pub fn h_query_map_100() {
    marks(100)
}
pub fn h_query_map_60() {
    marks(60)
}
/// ticks by index and by position
pub fn h_query_ticks() {
    let inv = init(any_fee("protocol fee"));
    let k = k1();
    let k2 = key(3, 5, 1_000_000_000, SP);
    let p = any_pool();
    inv.pools.add(&k, &p).unwrap();
    let t = [any_tick(-10), any_tick(0), any_tick(20)];
    for x in t.iter() {
        inv.ticks.add(k, x.index, *x).unwrap();
    }
    inv.ticks.add(k2, 0, fixed_tick(0)).unwrap();
    let s = service(any_actor("caller"));
    let at = |i: i128| match i {
        0 => -10,
        1 => 0,
        2 => 20,
        _ => 10,
    };
    let (a, b) = (pick(4), pick(4));
    let one = s.get_tick(k, at(a));
    check(iff(one.is_ok(), a < 3), "a tick is found exactly when it exists");
    if let Ok(x) = one {
        check(x == t[a as usize], "and is the one stored");
    }
    let l = catch(|| s.get_liquidity_ticks(k, vec![at(a), at(b)]));
    check(iff(l.is_ok(), and(a < 3, b < 3)), "a list of ticks is given exactly when all exist");
    if let Ok(l) = l {
        reach("listed");
        let l = l.unwrap();
        check(l.len() == 2, "one for each");
        let mut i = 0;
        while i < 2 {
            let x = t[if i == 0 { a } else { b } as usize];
            check(and(l[i].index == x.index, and(l[i].liquidity_change == x.liquidity_change, l[i].sign == x.sign)), "in the order asked, with their liquidity changes");
            i += 1;
        }
    }
}
fn pos(k: PoolKey, lower: i32, upper: i32) -> Position {
    Position {
        pool_key: k,
        liquidity: any_liq("liquidity"),
        lower_tick_index: lower,
        upper_tick_index: upper,
        fee_growth_inside_x: any_growth("inside x"),
        fee_growth_inside_y: any_growth("inside y"),
        last_block_number: any::<u64>("block"),
        tokens_owed_x: any_amt("owed x"),
        tokens_owed_y: any_amt("owed y"),
    }
}
fn shows(x: &PositionTick, t: &Tick) -> bool {
    and(and(x.index == t.index, x.seconds_outside == t.seconds_outside), and(x.fee_growth_outside_x == t.fee_growth_outside_x, x.fee_growth_outside_y == t.fee_growth_outside_y))
}
/// positions with their pools and ticks
pub fn h_query_positions() {
    let inv = init(any_fee("protocol fee"));
    let k = k1();
    let k2 = key(3, 5, 1_000_000_000, SP);
    let (p, q) = (any_pool(), any_pool());
    inv.pools.add(&k, &p).unwrap();
    inv.pools.add(&k2, &q).unwrap();
    let t = [any_tick(-10), any_tick(20), any_tick(30)];
    let u = [any_tick(-10), any_tick(20)];
    for x in t.iter() {
        inv.ticks.add(k, x.index, *x).unwrap();
    }
    for x in u.iter() {
        inv.ticks.add(k2, x.index, *x).unwrap();
    }
    let ps = [pos(k, -10, 20), pos(k2, -10, 20), pos(k, 20, 30)];
    for x in ps.iter() {
        inv.positions.add(&actor(5), x);
    }
    inv.positions.add(&actor(6), &pos(k, -10, 30));
    let ends = [(&t[0], &t[1]), (&u[0], &u[1]), (&t[1], &t[2])];
    let s = service(any_actor("caller"));
    let i = pick(5);
    let r = s.get_position_with_associates(actor(5), i as u32);
    check(iff(r.is_ok(), i < 3), "a position is given exactly when it exists");
    if let Ok((x, pool, lower, upper)) = r {
        reach("with all");
        check(x == ps[i as usize], "the position");
        check(pool == if i == 1 { q } else { p }, "its pool");
        check(and(lower == *ends[i as usize].0, upper == *ends[i as usize].1), "its ticks");
    }
    let l = s.get_position_ticks(actor(5), i as u32);
    check(l.len() == 2 * (3 - core::cmp::min(i, 3)) as usize, "two ticks for each position from there on");
    let mut j = 0;
    while j < l.len() {
        let e = ends[i as usize + j / 2];
        check(shows(&l[j], if j % 2 == 0 { e.0 } else { e.1 }), "of the right pools, in order");
        j += 1;
    }
    let one = s.get_position(actor(5), i as u32);
    check(iff(one.is_ok(), i < 3), "a position is found exactly when it exists");
    check(and(s.get_user_position_amount(actor(5)) == 3, and(s.get_user_position_amount(actor(6)) == 1, s.get_user_position_amount(actor(7)) == 0)), "counted per owner");
}
/// all pools of two tokens
pub fn h_query_pairs() {
    let inv = init(any_fee("protocol fee"));
    let tiers = [(1_000_000_000u128, 10u16), (1_000_000_000, 20), (6_000_000_000, 10)];
    let pools = [any_pool(), any_pool(), any_pool()];
    let mut has = [false; 3];
    let mut n = 0;
    let mut i = 0;
    while i < 3 {
        let tier = FeeTier { fee: Percentage::new(tiers[i].0), tick_spacing: tiers[i].1 };
        inv.fee_tiers.add(&tier).unwrap();
        has[i] = any::<bool>("exists");
        if has[i] {
            inv.pools.add(&key(3, 4, tiers[i].0, tiers[i].1), &pools[i]).unwrap();
            n += 1;
        }
        i += 1;
    }
    inv.pools.add(&key(3, 5, tiers[0].0, tiers[0].1), &any_pool()).unwrap();
    let (a, b) = if any::<bool>("swapped") { (4, 3) } else { (3, 4) };
    let s = service(any_actor("caller"));
    let r = s.get_all_pools_for_pair(actor(a), actor(b));
    check(r.is_ok(), "the pools of a pair");
    let l = r.unwrap();
    check(l.len() == n, "every pool of the pair");
    for (tier, pool) in l.iter() {
        let mut found = false;
        let mut i = 0;
        while i < 3 {
            if tier.fee.get() == tiers[i].0 && tier.tick_spacing == tiers[i].1 {
                check(has[i], "that exists");
                check(*pool == pools[i], "with its tier");
                found = true;
            }
            i += 1;
        }
        check(found, "with its tier");
    }
    let one = s.get_pool(actor(b), actor(a), FeeTier { fee: Percentage::new(tiers[1].0), tick_spacing: tiers[1].1 });
    check(iff(one.is_ok(), has[1]), "a pool is found exactly when it exists, whichever way round the pair is named");
    reach("listed");
    let same = s.get_all_pools_for_pair(actor(3), actor(3));
    check(same.is_err(), "a pair is two tokens");
}

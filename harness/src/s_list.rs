//! Lists of positions and pools as users see them: ownership, removal, transfer, pages.
use crate::kit::*;
use crate::vk::*;

fn pos(k: PoolKey) -> Position {
    Position { pool_key: k, liquidity: any_liq("liquidity"), lower_tick_index: any::<i32>("lower"), upper_tick_index: any::<i32>("upper"), tokens_owed_x: any_amt("owed"), ..Position::default() }
}
fn k1() -> PoolKey {
    key(3, 4, 1_000_000_000, 10)
}
fn k2() -> PoolKey {
    key(3, 5, 1_000_000_000, 10)
}
/// user 5 with n positions, user 6 with m
fn give(inv: &mut Invariant, u: u8, n: usize) -> Vec<Position> {
    let mut v = vec![];
    for _ in 0..n {
        let p = pos(k1());
        inv.positions.add(&actor(u), &p);
        v.push(p);
    }
    v
}
fn is(inv: &Invariant, u: u8, want: &[Position]) {
    check(inv.positions.get_length(&actor(u)) as usize == want.len(), "the number of positions");
    let mut i = 0;
    while i < want.len() {
        check(inv.positions.get(&actor(u), i as u32) == Ok(&want[i]), "each position is as expected");
        i += 1;
    }
    check(inv.positions.get(&actor(u), want.len() as u32).is_err(), "there are no more");
}
/// removing one position: the others stay, the last takes its place
fn remove(n: usize) {
    let inv = init(any_fee("protocol fee"));
    let (a, b) = (give(inv, 5, n), give(inv, 6, 1));
    let i = any::<u32>("index");
    let r = catch(|| inv.positions.remove(&actor(5), i));
    let ok = match r {
        Ok(Ok(p)) => {
            let i = cases(i as i128, n as u32) as usize;
            check(p == a[i], "the position asked for is removed");
            let mut w = a.clone();
            let last = w.pop().unwrap();
            if i < w.len() {
                w[i] = last;
            }
            is(inv, 5, &w);
            reach("removed");
            true
        }
        _ => {
            is(inv, 5, &a);
            false
        }
    };
    check(iff(ok, (i as usize) < n), "a position is removed exactly if it exists");
    is(inv, 6, &b);
}
pub fn h_list_remove_1() {
    remove(1)
}
pub fn h_list_remove_3() {
    remove(3)
}
pub fn h_list_remove_none() {
    let inv = init(any_fee("protocol fee"));
    let b = give(inv, 6, 2);
    let r = catch(|| inv.positions.remove(&actor(5), any::<u32>("index")));
    check(!matches!(r, Ok(Ok(_))), "nothing to remove");
    is(inv, 6, &b);
    check(inv.positions.get_length(&actor(5)) == 0, "still none");
}
/// transferring: to another user or to oneself
pub fn h_list_transfer() {
    let inv = init(any_fee("protocol fee"));
    let (a, b) = (give(inv, 5, 3), give(inv, 6, 2));
    let i = any::<u32>("index");
    let to = any_actor("receiver");
    let caller = if any::<bool>("owner") { 5u8 } else { 7 };
    let mut s = service(actor(caller));
    let r = catch(|| s.transfer_position(i, to));
    check(iff(r.is_ok(), and(caller == 5, i < 3)), "one's own positions can be transferred, others not");
    if r.is_err() {
        return;
    }
    let i = cases(i as i128, 3) as usize;
    let moved = a[i];
    let mut w = a.clone();
    let last = w.pop().unwrap();
    if i < w.len() {
        w[i] = last;
    }
    if to == actor(5) {
        w.push(moved);
        is(inv, 5, &w);
        is(inv, 6, &b);
        reach("to oneself");
    } else if to == actor(6) {
        is(inv, 5, &w);
        let mut v = b.clone();
        v.push(moved);
        is(inv, 6, &v);
        reach("to a holder");
    } else {
        is(inv, 5, &w);
        is(inv, 6, &b);
        check(inv.positions.get_length(&to) == 1, "the receiver has it");
        check(inv.positions.get(&to, 0) == Ok(&moved), "unchanged");
        reach("to a newcomer");
    }
}
/// updating a position replaces that one only
pub fn h_list_update() {
    let inv = init(any_fee("protocol fee"));
    let (mut a, b) = (give(inv, 5, 3), give(inv, 6, 1));
    let i = any::<u32>("index");
    let p = pos(k2());
    let r = inv.positions.update(&actor(5), i, &p);
    check(iff(r.is_ok(), i < 3), "only existing positions are updated");
    if r.is_ok() {
        let i = cases(i as i128, 3) as usize;
        a[i] = p;
        reach("updated");
    }
    is(inv, 5, &a);
    is(inv, 6, &b);
}

/// pages of positions, grouped by pool
pub fn h_page_positions() {
    let inv = init(any_fee("protocol fee"));
    let (p, q) = (any_pool(), any_pool());
    inv.pools.add(&k1(), &p).unwrap();
    inv.pools.add(&k2(), &q).unwrap();
    let mut a = vec![];
    for _ in 0..3 {
        let x = pos(if any::<bool>("first pool") { k1() } else { k2() });
        inv.positions.add(&actor(5), &x);
        a.push(x);
    }
    give(inv, 6, 1);
    let (size, offset) = (any::<u32>("size"), any::<u32>("offset"));
    assume(size <= 4);
    assume(offset <= 4);
    let size = cases(size as i128, 5) as u32;
    let offset = cases(offset as i128, 5) as u32;
    let s = service(any_actor("caller"));
    let r = s.get_positions(actor(5), size, offset);
    check(r.is_ok(), "a page of positions");
    let (groups, n) = r.unwrap();
    check(n == 3, "the number of all positions is told");
    let end = if offset + size < 3 { offset + size } else { 3 };
    let mut seen = 0u32;
    for (pool, l) in groups.iter() {
        check(!l.is_empty(), "no empty group");
        let k = l[0].0.pool_key;
        check(*pool == if k == k1() { p.clone() } else { q.clone() }, "each group with its pool");
        for (x, i) in l.iter() {
            check(and(*i >= offset, *i < end), "inside the page");
            check(*x == a[*i as usize], "the position at that index");
            check(x.pool_key == k, "grouped by pool");
            seen += 1;
        }
    }
    check(seen == end.saturating_sub(offset), "every position of the page, once");
    check(groups.len() <= 2, "one group per pool");
    if groups.len() == 2 {
        check(groups[0].1[0].0.pool_key != groups[1].1[0].0.pool_key, "one group per pool");
        reach("two groups");
    }
    check(s.get_user_position_amount(actor(5)) == 3, "counted");
    let all = s.get_all_positions(actor(5));
    check(all.len() == 3, "all of them");
    check(and(all[0] == a[0], and(all[1] == a[1], all[2] == a[2])), "in order");
}
/// pages of pool keys
pub fn h_page_pools() {
    let inv = init(any_fee("protocol fee"));
    let l = [k1(), k2(), key(4, 5, 1_000_000_000, 10)];
    for k in l.iter() {
        inv.pool_keys.add(k).unwrap();
    }
    let (size, offset) = (any::<u16>("size"), any::<u16>("offset"));
    assume(z(size) + z(offset) < pow2(16));
    let s = service(any_actor("caller"));
    let (keys, n) = s.get_pool_keys(size, offset);
    check(n == 3, "the number of all pools is told");
    let o = z(offset);
    let mut i = 0;
    while i < keys.len() {
        check(o + z(i) < z(3u8), "inside the list");
        check(keys[i] == l[(offset as usize) + i], "in the order of creation");
        i += 1;
    }
    let full = and(offset < 3, z(offset) + z(size) >= z(3u8));
    check(implies(full, z(keys.len()) + o == z(3u8)), "up to the end");
    check(implies(and(!full, offset < 3), keys.len() == size as usize), "as many as asked for");
    check(implies(offset >= 3, keys.is_empty()), "nothing after the end");
    reach("page");
}

//! The map of initialised ticks: setting, asking, searching, and the price a swap may move to next.
use crate::kit::*;
use crate::vk::*;
use decimal::Decimal;

fn key(s: u16) -> PoolKey {
    PoolKey { token_x: actor(3), token_y: actor(4), fee_tier: FeeTier { fee: Percentage::new(0), tick_spacing: s } }
}
fn pick(n: u8) -> i128 {
    let c = any::<u8>("case");
    assume(c < n);
    cases(c as i128, n as u32)
}
/// tick number k (times the spacing) is number k + MAX_TICK/spacing of the map, 64 to a chunk
fn number(k: i32, s: i32) -> i32 {
    k + MAX_TICK / s
}
fn bit(v: u64, b: i32) -> bool {
    (z(v) / pow2(b as u32)) - (z(v) / pow2(b as u32 + 1)) * z(2u8) == z(1u8)
}
/// bits from..to (exclusive) are all zero
fn clear(v: u64, from: i32, to: i32) -> bool {
    let low = z(v) - (z(v) / pow2(to as u32)) * pow2(to as u32);
    low / pow2(from as u32) == z(0u8)
}
// every tick of every spacing has a place of its own in the map
pub fn h_map_place() {
    let s = any::<u16>("spacing");
    assume(and(s >= 1, s <= 100));
    let s = cases(s as i128, 100) as u16;
    let k = any::<i32>("k");
    let m = MAX_TICK / s as i32;
    assume(and(k >= -m, k <= m));
    let t = k * s as i32;
    let (c, b) = tick_to_position(t, s);
    check(and(b < 64, c as i32 * 64 + b as i32 == number(k, s as i32)), "number of the tick");
    check(c <= get_max_chunk(s), "within the map");
    check(position_to_tick(c, b, s) == t, "and back");
    check(and(get_max_tick(s) == m * s as i32, get_min_tick(s) == -m * s as i32), "the range is symmetric");
    if k == m {
        reach("last");
        check(c == get_max_chunk(s), "the last tick is in the last chunk");
    }
}
// ticks off the grid are refused
pub fn h_map_grid() {
    let s = match pick(4) {
        0 => 1u16,
        1 => 2,
        2 => 10,
        _ => 100,
    };
    let t = any::<i32>("tick");
    let r = catch(|| tick_to_position(t, s));
    let on = and(and(t >= -MAX_TICK, t <= MAX_TICK), z(t) - (z(t) / z(s)) * z(s) == z(0u8));
    check(iff(r.is_ok(), on), "exactly the ticks of the grid have a place");
    let ok = check_tick(t, s).is_ok();
    check(iff(ok, on), "exactly the ticks of the grid are accepted");
}
// flipping changes exactly one bit, and only to the other value
fn flip(s: u16) {
    let k = any::<i32>("k");
    let m = MAX_TICK / s as i32;
    assume(and(k >= -m, k <= m));
    let b = any::<u8>("bit");
    assume(b < 64);
    let n = number(k, s as i32);
    let c = (n / 64) as u16;
    assume(n - (n / 64) * 64 == b as i32);
    let b = cases(b as i128, 64) as i32;
    let v = any::<u64>("chunk");
    let (w, o) = (any::<u64>("other chunk"), any::<u64>("other pool"));
    let c2 = any::<u16>("other");
    assume(c2 != c);
    let other = PoolKey { token_y: actor(5), ..key(s) };
    let mut t = Tickmap::default();
    t.bitmap.insert((c, key(s)), v);
    t.bitmap.insert((c2, key(s)), w);
    t.bitmap.insert((c, other), o);
    let tick = k * s as i32;
    let was = t.get(tick, s, key(s));
    check(iff(was, bit(v, b)), "a tick is known if its bit is set");
    let to = any::<bool>("to");
    let r = catch(|| t.flip(to, tick, s, key(s)));
    check(iff(r.is_ok(), was != to), "a tick can only be set when unset, and the other way round");
    if r.is_err() {
        return;
    }
    reach("flipped");
    check(iff(t.get(tick, s, key(s)), to), "the tick is as asked");
    let v2 = t.bitmap.get(&(c, key(s))).copied().unwrap_or(0);
    check(z(v2) == if to { z(v) + pow2(b as u32) } else { z(v) - pow2(b as u32) }, "its neighbours stay");
    check(and(t.bitmap.get(&(c2, key(s))).copied() == Some(w), t.bitmap.get(&(c, other)).copied() == Some(o)), "other chunks and pools stay");
}
pub fn h_map_flip_1() {
    flip(1)
}
pub fn h_map_flip_10() {
    flip(10)
}
pub fn h_map_flip_fresh() {
    let k = any::<i32>("k");
    assume(and(k >= -MAX_TICK, k <= MAX_TICK));
    let mut t = Tickmap::default();
    check(!t.get(k, 1, key(1)), "unset at first");
    t.flip(true, k, 1, key(1));
    check(t.get(k, 1, key(1)), "set");
    check(!t.get(k, 1, PoolKey { token_y: actor(5), ..key(1) }), "not in another pool");
}

const NAMES: [&str; 7] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6"];
/// a map in which the seven chunks around `n` hold anything
fn any_map(first: i32, s: u16) -> (Tickmap, [u64; 7]) {
    let mut t = Tickmap::default();
    let mut v = [0u64; 7];
    let mut i = 0;
    while i < 7 {
        let c = first + i as i32;
        if c >= 0 && c <= get_max_chunk(s) as i32 {
            v[i] = any::<u64>(NAMES[i]);
            t.bitmap.insert((c as u16, key(s)), v[i]);
        }
        i += 1;
    }
    (t, v)
}
/// no tick is set between numbers from..=to
fn none_set(v: &[u64; 7], first: i32, from: i32, to: i32) -> bool {
    let mut r = true;
    let mut c = from / 64;
    while c <= to / 64 {
        let lo = if c == from / 64 { from % 64 } else { 0 };
        let hi = if c == to / 64 { to % 64 + 1 } else { 64 };
        r = and(r, clear(v[(c - first) as usize], lo, hi));
        c += 1;
    }
    r
}
fn next(k: i32, s: u16) {
    let si = s as i32;
    let n = number(k, si);
    let m = MAX_TICK / si;
    let first = n / 64 - 1;
    let (t, v) = any_map(first, s);
    let last = number(if k + 256 < m { k + 256 } else { m }, si);
    match t.next_initialized(k * si, s, key(s)) {
        Some(r) => {
            check(r % si == 0, "on the grid");
            let j = number(r / si, si);
            check(j > n, "after the tick");
            check(j <= last, "within the search range");
            check(bit(v[(j / 64 - first) as usize], j % 64), "an initialised tick");
            if j > n + 1 {
                check(none_set(&v, first, n + 1, j - 1), "the nearest one");
            }
        }
        None => {
            if last > n {
                check(none_set(&v, first, n + 1, last), "nothing found only if there is nothing");
            }
        }
    }
    reach("next");
}
fn prev(k: i32, s: u16) {
    let si = s as i32;
    let n = number(k, si);
    let m = MAX_TICK / si;
    let first = n / 64 - 5;
    let (t, v) = any_map(first, s);
    let last = number(if k - 256 > -m { k - 256 } else { -m }, si);
    match t.prev_initialized(k * si, s, key(s)) {
        Some(r) => {
            check(r % si == 0, "on the grid");
            let j = number(r / si, si);
            check(j <= n, "not after the tick");
            check(j >= last, "within the search range");
            check(bit(v[(j / 64 - first) as usize], j % 64), "an initialised tick");
            if j < n {
                check(none_set(&v, first, j + 1, n), "the nearest one");
            }
        }
        None => check(none_set(&v, first, last, n), "nothing found only if there is nothing"),
    }
    reach("prev");
}
/// start positions: the bit of the starting tick within its chunk
fn start(b: i32, s: u16) -> i32 {
    let m = MAX_TICK / s as i32;
    let base = (m / 64) * 64; // a chunk boundary near the middle
    base + b - m
}
pub fn h_map_next_a() {
    next(start(0, 1), 1)
}
pub fn h_map_next_b() {
    next(start(62, 10), 10)
}
pub fn h_map_next_c() {
    next(start(63, 1), 1)
}
pub fn h_map_next_top() {
    let m = MAX_TICK / 100;
    match pick(4) {
        0 => next(m, 100),
        1 => next(m - 1, 100),
        2 => next(m - 70, 100),
        _ => next(-m, 100),
    }
}
pub fn h_map_prev_a() {
    prev(start(0, 1), 1)
}
pub fn h_map_prev_b() {
    prev(start(1, 10), 10)
}
pub fn h_map_prev_c() {
    prev(start(63, 1), 1)
}
pub fn h_map_prev_bottom() {
    let m = MAX_TICK / 100;
    match pick(4) {
        0 => prev(-m, 100),
        1 => prev(-m + 1, 100),
        2 => prev(-m + 70, 100),
        _ => prev(m, 100),
    }
}

// the price a swap may move to: the limit, the nearest initialised tick, or the end of the search range, whichever comes first
fn limit(x_to_y: bool, k: i32, s: u16) {
    let si = s as i32;
    let n = number(k, si);
    let mut t = Tickmap::default();
    let c = n / 64;
    t.bitmap.insert((c as u16, key(s)), any::<u64>("here"));
    t.bitmap.insert(((if x_to_y { c - 1 } else { c + 1 }) as u16, key(s)), any::<u64>("near"));
    let lim = any_price("limit");
    let found = if x_to_y { t.prev_initialized(k * si, s, key(s)) } else { t.next_initialized(k * si, s, key(s)) };
    let m = MAX_TICK / si;
    let far = if x_to_y { if k - 256 > -m { k - 256 } else { -m } } else { if k + 256 < m { k + 256 } else { m } };
    let r = t.get_closer_limit(lim, x_to_y, k * si, s, key(s));
    let at = match found {
        Some(i) => i,
        None => far * si,
    };
    let p = calculate_sqrt_price(at).unwrap();
    match r {
        Ok((q, tick)) => {
            check(or(found.is_some(), far != k), "at the end of the range there is nowhere to go");
            if x_to_y {
                check(q == if p > lim { p } else { lim }, "the nearer of tick and limit (down)");
            } else {
                check(q == if p < lim { p } else { lim }, "the nearer of tick and limit (up)");
            }
            match tick {
                Some((i, init)) => {
                    reach("tick first");
                    check(and(i == at, init == found.is_some()), "names the tick and whether it is initialised");
                    check(if x_to_y { q >= lim } else { q <= lim }, "a tick is named only up to the limit");
                }
                None => {
                    reach("limit first");
                    check(q == lim, "without a tick it is the limit");
                    check(implies(and(!x_to_y, found.is_some()), p > lim), "an initialised tick whose price is reached upwards is named");
                }
            }
        }
        Err(e) => {
            check(and(e == InvariantError::TickLimitReached, and(found.is_none(), far == k)), "an error only at the end of the range");
        }
    }
}
pub fn h_map_limit_xy() {
    match pick(2) {
        0 => limit(true, start(5, 1), 1),
        _ => limit(true, start(0, 10), 10),
    }
}
pub fn h_map_limit_yx() {
    match pick(2) {
        0 => limit(false, start(60, 1), 1),
        _ => limit(false, start(63, 10), 10),
    }
}
pub fn h_map_limit_end() {
    let m = MAX_TICK / 10;
    match pick(4) {
        0 => limit(false, m, 10),
        1 => limit(false, m - 2, 10),
        2 => limit(true, -m, 10),
        _ => limit(true, -m + 64, 10),
    }
}
// thorough: every bit of the chunk as a starting point
fn sixteen(from: i32, f: fn(i32, u16), s: u16) {
    let b = pick(16) as i32 + from;
    f(start(b, s), s)
}
pub fn h_map_next_16() {
    sixteen(0, next, 1)
}
pub fn h_map_next_32() {
    sixteen(16, next, 2)
}
pub fn h_map_next_48() {
    sixteen(32, next, 5)
}
pub fn h_map_next_64() {
    sixteen(48, next, 100)
}
pub fn h_map_prev_16() {
    sixteen(0, prev, 1)
}
pub fn h_map_prev_32() {
    sixteen(16, prev, 2)
}
pub fn h_map_prev_48() {
    sixteen(32, prev, 5)
}
pub fn h_map_prev_64() {
    sixteen(48, prev, 100)
}

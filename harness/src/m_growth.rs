//! Fee growth per unit of liquidity: wrapping arithmetic, fee -> growth -> fee, growth inside a range.
use crate::kit::*;
use crate::vk::*;
use decimal::Decimal;

fn wrap(v: Z) -> Z {
    v - (v / pow2(128)) * pow2(128)
}
pub fn h_growth_wrap() {
    let (a, b) = (any::<u128>("a"), any::<u128>("b"));
    let s = FeeGrowth::new(a).unchecked_add(FeeGrowth::new(b));
    check(z(s.get()) == wrap(z(a) + z(b)), "sum modulo 2^128");
    let d = FeeGrowth::new(a).unchecked_sub(FeeGrowth::new(b));
    check(z(d.get()) == wrap(z(a) - z(b)), "difference modulo 2^128");
    let s = SecondsPerLiquidity::new(a).unchecked_add(SecondsPerLiquidity::new(b));
    check(z(s.get()) == wrap(z(a) + z(b)), "sum modulo 2^128 (seconds)");
    let d = SecondsPerLiquidity::new(a).unchecked_sub(SecondsPerLiquidity::new(b));
    check(z(d.get()) == wrap(z(a) - z(b)), "difference modulo 2^128 (seconds)");
}
// growth = fee * 10^28 / (liquidity / 10^5), cut
pub fn h_growth_from() {
    let (l, f) = (any_liq("liquidity"), any_amt("fee"));
    match catch(|| FeeGrowth::from_fee(l, f)) {
        Ok(Ok(g)) => {
            reach("growth");
            check(z(g.get()) * z(l.get()) <= z(f.get()) * pow10(33), "never above the exact growth");
            check((z(g.get()) + z(1u8)) * z(l.get()) > z(f.get()) * pow10(33), "less than one unit below the exact growth");
        }
        Ok(Err(_)) => check(or(l.is_zero(), or(z(f.get()) * pow10(33) >= pow2(384), z(f.get()) * pow10(33) >= pow2(128) * z(l.get()))), "refused only when it does not fit"),
        Err(_) => check(false, "no panic"),
    }
}
pub fn h_growth_to() {
    let (l, g) = (any_liq("liquidity"), any_growth("growth"));
    match catch(|| g.to_fee(l)) {
        Ok(Ok(f)) => {
            reach("fee");
            check(z(f.get()) * pow10(33) <= z(g.get()) * z(l.get()), "never above the exact fee");
            check((z(f.get()) + z(1u8)) * pow10(33) > z(g.get()) * z(l.get()), "less than one unit below the exact fee");
        }
        Ok(Err(_)) => check(z(g.get()) * z(l.get()) >= pow2(256) * pow10(33), "refused only when it does not fit"),
        Err(_) => check(false, "no panic"),
    }
}
// what the holders of the liquidity can claim is never more than what was collected
pub fn h_growth_pays() {
    let (a, b, c) = (any_liq("a"), any_liq("b"), any_liq("c"));
    let f = any_amt("fee");
    let total = match a.checked_add(b) {
        Ok(t) => match t.checked_add(c) {
            Ok(t) => t,
            _ => return,
        },
        _ => return,
    };
    let g = match catch(|| FeeGrowth::from_fee(total, f)) {
        Ok(Ok(g)) => g,
        _ => return,
    };
    if let (Ok(Ok(x)), Ok(Ok(y)), Ok(Ok(w))) = (catch(|| g.to_fee(a)), catch(|| g.to_fee(b)), catch(|| g.to_fee(c))) {
        reach("claimed");
        let sum = z(x.get()) + z(y.get()) + z(w.get());
        lemma(sum * pow10(33) <= z(g.get()) * z(total.get()));
        check(sum <= z(f.get()), "claims never exceed the fee collected");
    }
}

#[derive(Clone, Copy)]
struct T {
    i: i32,
    x: FeeGrowth,
    y: FeeGrowth,
}
fn tick(i: &'static str, x: &'static str, y: &'static str) -> T {
    T { i: any::<i32>(i), x: any_growth(x), y: any_growth(y) }
}
fn inside(a: T, b: T, cur: i32, gx: FeeGrowth, gy: FeeGrowth) -> (Z, Z) {
    let (x, y) = calculate_fee_growth_inside(a.i, a.x, a.y, b.i, b.x, b.y, cur, gx, gy);
    (z(x.get()), z(y.get()))
}
fn globals() -> (FeeGrowth, FeeGrowth) {
    (any_growth("gx"), any_growth("gy"))
}
/// one token at a time: the other one's counters stay at zero
fn only(x_only: bool, t: T) -> T {
    if x_only { T { i: t.i, x: t.x, y: FeeGrowth::new(0) } } else { T { i: t.i, x: FeeGrowth::new(0), y: t.y } }
}
// growth inside [a,b) plus growth inside [b,c) is the growth inside [a,c)
fn adds(x: bool) {
    let (a, b, c) = (only(x, tick("a", "ax", "ay")), only(x, tick("b", "bx", "by")), only(x, tick("c", "cx", "cy")));
    assume(a.i < b.i);
    assume(b.i < c.i);
    let cur = any::<i32>("current");
    let (gx, gy) = if x { (any_growth("gx"), FeeGrowth::new(0)) } else { (FeeGrowth::new(0), any_growth("gy")) };
    let (p, q, r) = (inside(a, b, cur, gx, gy), inside(b, c, cur, gx, gy), inside(a, c, cur, gx, gy));
    check(wrap(p.0 + q.0) == r.0, "adjacent ranges add up (x)");
    check(wrap(p.1 + q.1) == r.1, "adjacent ranges add up (y)");
}
pub fn h_inside_adds_x() {
    adds(true)
}
pub fn h_inside_adds_y() {
    adds(false)
}
// growth is credited to a range exactly while the current tick is inside it
fn accrues(x: bool) {
    let (a, b) = (only(x, tick("a", "ax", "ay")), only(x, tick("b", "bx", "by")));
    assume(a.i < b.i);
    let cur = any::<i32>("current");
    let (gx, gy) = if x { (any_growth("gx"), FeeGrowth::new(0)) } else { (FeeGrowth::new(0), any_growth("gy")) };
    let (dx, dy) = if x { (any_growth("dx"), FeeGrowth::new(0)) } else { (FeeGrowth::new(0), any_growth("dy")) };
    let p = inside(a, b, cur, gx, gy);
    let q = inside(a, b, cur, gx.unchecked_add(dx), gy.unchecked_add(dy));
    if and(cur >= a.i, cur < b.i) {
        reach("inside");
        check(q.0 == wrap(p.0 + z(dx.get())), "the range in use gets the growth (x)");
        check(q.1 == wrap(p.1 + z(dy.get())), "the range in use gets the growth (y)");
    } else {
        reach("outside");
        check(q.0 == p.0, "a range not in use gets nothing (x)");
        check(q.1 == p.1, "a range not in use gets nothing (y)");
    }
}
pub fn h_inside_accrues_x() {
    accrues(true)
}
pub fn h_inside_accrues_y() {
    accrues(false)
}
// crossing one end of the range changes nothing that was accrued
pub fn h_inside_cross() {
    let (mut a, mut b) = (tick("a", "ax", "ay"), tick("b", "bx", "by"));
    assume(a.i < b.i);
    let (cur, next) = (any::<i32>("current"), any::<i32>("next"));
    let (gx, gy) = globals();
    let p = inside(a, b, cur, gx, gy);
    if any::<bool>("upper") {
        // past b: from below b to b or above, or back
        assume((cur < b.i) != (next < b.i));
        assume(and(cur >= a.i, next >= a.i));
        b.x = gx.unchecked_sub(b.x);
        b.y = gy.unchecked_sub(b.y);
    } else {
        assume((cur < a.i) != (next < a.i));
        assume(and(cur < b.i, next < b.i));
        a.x = gx.unchecked_sub(a.x);
        a.y = gy.unchecked_sub(a.y);
    }
    let q = inside(a, b, next, gx, gy);
    reach("crossed");
    check(p.0 == q.0, "crossing an end keeps what was accrued (x)");
    check(p.1 == q.1, "crossing an end keeps what was accrued (y)");
}

fn spl(a: T, b: T, cur: i32, g: SecondsPerLiquidity) -> Z {
    let r = calculate_seconds_per_liquidity_inside(a.i, b.i, cur, SecondsPerLiquidity::new(a.x.get()), SecondsPerLiquidity::new(b.x.get()), g);
    match r {
        Ok(r) => z(r.get()),
        Err(_) => {
            check(false, "always answers");
            z(0u8)
        }
    }
}
pub fn h_spl_inside() {
    let (a, b, c) = (tick("a", "ax", "ay"), tick("b", "bx", "by"), tick("c", "cx", "cy"));
    assume(a.i < b.i);
    assume(b.i < c.i);
    let cur = any::<i32>("current");
    let g = SecondsPerLiquidity::new(any::<u128>("g"));
    let (p, q, r) = (spl(a, b, cur, g), spl(b, c, cur, g), spl(a, c, cur, g));
    check(wrap(p + q) == r, "adjacent ranges add up");
    let d = any::<u128>("d");
    let p2 = spl(a, b, cur, g.unchecked_add(SecondsPerLiquidity::new(d)));
    if and(cur >= a.i, cur < b.i) {
        check(p2 == wrap(p + z(d)), "the range in use accrues");
    } else {
        check(p2 == p, "a range not in use does not accrue");
    }
}
pub fn h_spl_global() {
    let l = any_liq("liquidity");
    let (now, last) = (any::<u64>("now"), any::<u64>("last"));
    match catch(|| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(l, now, last)) {
        Ok(Ok(r)) => {
            reach("ok");
            check(now > last, "time moves forward");
            check(z(r.get()) * z(l.get()) <= (z(now) - z(last)) * pow10(30), "never above the exact value");
            check((z(r.get()) + z(1u8)) * z(l.get()) > (z(now) - z(last)) * pow10(30), "less than one unit below");
        }
        Ok(Err(_)) => check(or(l.is_zero(), or(now <= last, (z(now) - z(last)) * pow10(30) >= pow2(128))), "refused only without time, liquidity or room"),
        Err(_) => check(false, "no panic"),
    }
}

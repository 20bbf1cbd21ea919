//! Liquidity from amounts: what an amount pays for, and what comes with it.
use crate::kit::*;
use crate::vk::*;
use crate::world::*;

fn price(t: i32) -> SqrtPrice {
    calculate_sqrt_price(t).unwrap()
}
struct Place {
    lo: i32,
    up: i32,
    at: i32,
    p: SqrtPrice,
}
/// a range and a price whose tick is `at` (spacing 10)
fn place(lo: i32, up: i32, at: i32) -> Place {
    let p = any_price("price");
    assume(p.get() >= price(at).get());
    assume(p.get() < price(at + 10).get());
    Place { lo, up, at, p }
}
/// the cost of opening a position, as the contract charges it
fn cost(w: &Place, l: Liquidity) -> Option<(TokenAmount, TokenAmount)> {
    match catch(|| calculate_amount_delta(w.at, w.p, l, true, w.up, w.lo)) {
        Ok(Ok((x, y, _))) => Some((x, y)),
        _ => None,
    }
}
fn by_x(w: Place) {
    let x = any_amt("x");
    assume(x.get() < U256::from(u128::MAX));
    let up = any::<bool>("up");
    let r = catch(|| get_liquidity_by_x(x, w.lo, w.up, w.p, up));
    let (pl, pu) = (price(w.lo), price(w.up));
    if w.p.get() >= pu.get() {
        check(matches!(r, Ok(Err(_))), "above the range there is no x");
        reach("refused");
        return;
    }
    let r = match r {
        Ok(Ok(r)) => r,
        _ => {
            check(false, "every amount gives a liquidity");
            return;
        }
    };
    reach("given");
    let from = if w.p.get() < pl.get() { pl } else { w.p };
    let (l, f, u) = (z(r.l.0), z(from.0), z(pu.0));
    check(l * (u - f) * pow10(24) <= z(x.0) * f * u * pow10(5), "no more liquidity than the amount pays for");
    check((l + z(1u8)) * (u - f) * pow10(24) > z(x.0) * (f * u - pow10(24)) * pow10(5), "and no less");
    if let Some((cx, cy)) = cost(&w, r.l) {
        reach("opened");
        check(z(cx.0) <= z(x.0), "opening it costs no more than the amount");
        check(implies(up, z(cy.0) <= z(r.amount.0)), "nor more than the other amount rounded up");
        check(implies(!up, z(r.amount.0) <= z(cy.0)), "the other amount rounded down is not above the cost");
        check(implies(up, z(r.amount.0) <= z(cy.0)), "and exactly that");
        let d = if w.p.get() < pl.get() { z(0u8) } else { z(w.p.0) - z(pl.0) };
        check(implies(!up, and(z(r.amount.0) * pow10(29) <= l * d, l * d < (z(r.amount.0) + z(1u8)) * pow10(29))), "rounded down it is the exact amount");
    }
}
fn by_y(w: Place) {
    let y = any_amt("y");
    assume(y.get() < U256::from(u128::MAX));
    let up = any::<bool>("up");
    let r = catch(|| get_liquidity_by_y(y, w.lo, w.up, w.p, up));
    let (pl, pu) = (price(w.lo), price(w.up));
    if w.p.get() <= pl.get() {
        check(matches!(r, Ok(Err(_))), "below the range there is no y");
        reach("refused");
        return;
    }
    let r = match r {
        Ok(Ok(r)) => r,
        _ => {
            check(false, "every amount gives a liquidity");
            return;
        }
    };
    reach("given");
    let to = if w.p.get() > pu.get() { pu } else { w.p };
    let (l, d) = (z(r.l.0), z(to.0) - z(pl.0));
    check(l * d <= z(y.0) * pow10(29), "no more liquidity than the amount pays for");
    check((l + z(1u8)) * d > z(y.0) * pow10(29), "and no less");
    if let Some((cx, cy)) = cost(&w, r.l) {
        reach("opened");
        check(z(cy.0) <= z(y.0), "opening it costs no more than the amount");
        check(implies(up, z(cx.0) <= z(r.amount.0)), "nor more than the other amount rounded up");
        check(implies(!up, z(r.amount.0) <= z(cx.0) + z(1u8)), "the other amount rounded down is not above the cost");
        check(and(z(r.amount.0) <= z(cx.0) + z(2u8), z(cx.0) <= z(r.amount.0) + z(2u8)), "and close to it");
    }
}
pub fn h_liq_x_below() {
    by_x(place(LO, UP, -20))
}
pub fn h_liq_x_low() {
    by_x(place(LO, UP, LO))
}
pub fn h_liq_x_inside() {
    by_x(place(LO, UP, 0))
}
pub fn h_liq_x_above() {
    by_x(place(LO, UP, UP))
}
pub fn h_liq_x_wide() {
    by_x(place(-60000, 60000, 5000))
}
pub fn h_liq_y_below() {
    by_y(place(LO, UP, -20))
}
pub fn h_liq_y_low() {
    by_y(place(LO, UP, LO))
}
pub fn h_liq_y_inside() {
    by_y(place(LO, UP, 0))
}
pub fn h_liq_y_above() {
    by_y(place(LO, UP, UP))
}
pub fn h_liq_y_wide() {
    by_y(place(-60000, 60000, 5000))
}
/// both amounts at once
fn both(w: Place) {
    let (x, y) = (any_amt("x"), any_amt("y"));
    assume(x.get() < U256::from(u128::MAX));
    assume(y.get() < U256::from(u128::MAX));
    let up = any::<bool>("up");
    let r = match catch(|| get_liquidity(x, y, w.lo, w.up, w.p, up)) {
        Ok(Ok(r)) => r,
        _ => {
            check(false, "every pair of amounts gives a liquidity");
            return;
        }
    };
    reach("given");
    let (pl, pu) = (price(w.lo), price(w.up));
    let more = z(r.l.0) + z(1u8);
    let mut most = false;
    if w.p.get() < pu.get() {
        let (f, u) = (z(if w.p.get() < pl.get() { pl } else { w.p }.0), z(pu.0));
        most = or(most, more * (u - f) * pow10(24) > z(x.0) * (f * u - pow10(24)) * pow10(5));
    }
    if w.p.get() > pl.get() {
        let to = if w.p.get() > pu.get() { pu } else { w.p };
        most = or(most, more * (z(to.0) - z(pl.0)) > z(y.0) * pow10(29));
    }
    check(most, "no more could be had");
    if let Some((cx, cy)) = cost(&w, r.l) {
        reach("opened");
        check(and(z(cx.0) <= z(x.0), z(cy.0) <= z(y.0)), "opening it costs no more than the amounts");
        check(implies(up, and(z(cx.0) <= z(r.x.0), z(cy.0) <= z(r.y.0))), "nor more than the amounts answered, rounded up");
    }
}
pub fn h_liq_both_below() {
    both(place(LO, UP, -20))
}
pub fn h_liq_both_low() {
    both(place(LO, UP, LO))
}
pub fn h_liq_both_inside() {
    both(place(LO, UP, 0))
}
pub fn h_liq_both_above() {
    both(place(LO, UP, UP))
}
pub fn h_liq_x_full_low() {
    by_x(place(-221810, 221810, -200000))
}
pub fn h_liq_x_full_high() {
    by_x(place(-221810, 221810, 200000))
}
pub fn h_liq_y_full_low() {
    by_y(place(-221810, 221810, -200000))
}
pub fn h_liq_y_full_high() {
    by_y(place(-221810, 221810, 200000))
}

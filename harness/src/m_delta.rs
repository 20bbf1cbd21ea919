//! Token amounts between two prices, price after an amount, amounts of a position, slippage floor.
use crate::kit::*;
use crate::vk::*;

fn prices() -> (SqrtPrice, SqrtPrice) {
    let p = any_price("a");
    let q = any_price("b");
    (p, q)
}
fn diff(p: SqrtPrice, q: SqrtPrice) -> Z {
    if p > q { z(p.get()) - z(q.get()) } else { z(q.get()) - z(p.get()) }
}
// exact x amount:  L * |a-b| / (a*b)   (L scale 5, prices scale 24)
//                = L * |a-b| * 10^24 / (a * b * 10^5)
pub fn h_dx_down() {
    let (p, q) = prices();
    let l = any_liq("l");
    if let Ok(Ok(r)) = catch(|| get_delta_x(p, q, l, false)) {
        reach("ok");
        let d = diff(p, q);
        check(z(r.get()) * z(p.get()) * z(q.get()) * pow10(5) <= z(l.get()) * d * pow10(24), "never above the exact amount");
        check((z(r.get()) + z(1u8)) * (z(p.get()) * z(q.get()) + pow10(24)) * pow10(5) > (z(l.get()) * d - pow10(5)) * pow10(24), "within rounding of the exact amount");
    }
}
pub fn h_dx_up() {
    let (p, q) = prices();
    let l = any_liq("l");
    if let Ok(Ok(r)) = catch(|| get_delta_x(p, q, l, true)) {
        reach("ok");
        let d = diff(p, q);
        // the product L*|a-b| is cut at 24 decimals before dividing
        check(z(r.get()) * z(p.get()) * z(q.get()) * pow10(5) >= (z(l.get()) * d - pow10(5)) * pow10(24), "never below the exact amount");
        check((z(r.get()) - z(1u8)) * (z(p.get()) * z(q.get()) - pow10(24)) * pow10(5) < z(l.get()) * d * pow10(24) + pow10(5), "within rounding of the exact amount");
    }
}
pub fn h_dx_order() {
    let (p, q) = prices();
    let l = any_liq("l");
    if let (Ok(Ok(u)), Ok(Ok(d))) = (catch(|| get_delta_x(p, q, l, true)), catch(|| get_delta_x(p, q, l, false))) {
        reach("ok");
        check(d <= u, "rounded down is not above rounded up");
    }
}
// exact y amount:  L * |a-b|  =  L*|a-b| / 10^29
pub fn h_dy_down() {
    let (p, q) = prices();
    let l = any_liq("l");
    if let Ok(Ok(r)) = catch(|| get_delta_y(p, q, l, false)) {
        reach("ok");
        let e = z(l.get()) * diff(p, q);
        check(z(r.get()) * pow10(29) <= e, "never above the exact amount");
        check((z(r.get()) + z(1u8)) * pow10(29) > e, "less than one unit below");
    }
}
pub fn h_dy_up() {
    let (p, q) = prices();
    let l = any_liq("l");
    if let Ok(Ok(r)) = catch(|| get_delta_y(p, q, l, true)) {
        reach("ok");
        let e = z(l.get()) * diff(p, q);
        check(z(r.get()) * pow10(29) >= e, "never below the exact amount");
        check(z(r.get()) * pow10(29) < e + pow10(29), "less than one unit above");
    }
}
pub fn h_dy_order() {
    let (p, q) = prices();
    let l = any_liq("l");
    if let (Ok(Ok(u)), Ok(Ok(d))) = (catch(|| get_delta_y(p, q, l, true)), catch(|| get_delta_y(p, q, l, false))) {
        reach("ok");
        check(d <= u, "rounded down is not above rounded up");
        check(z(u.get()) <= z(d.get()) + z(1u8), "at most one unit apart");
    }
}

// next price after adding/removing x: exact  p*L/(L +- x*p), rounded up
fn next_x(add: bool) {
    let p = any_price("p");
    let l = any_liq("l");
    let x = any_amt("x");
    if let Ok(Ok(r)) = catch(|| get_next_sqrt_price_x_up(p, l, x, add)) {
        reach("ok");
        // p, r scale 24; L scale 5:  L*10^19 at scale 24
        let big = z(l.get()) * pow10(19);
        let px = z(p.get()) * z(x.get());
        let (n, g) = (z(r.get()), z(p.get()) * z(l.get()) * pow10(19));
        if add {
            check(n * (big + px) >= g, "price not below the exact one");
            check((n - z(1u8)) * (big + px) < g + pow10(24), "price within rounding of the exact one");
            if !l.is_zero() {
                check(r <= p, "adding x does not raise the price");
            }
        } else {
            check(n * (big - px) >= g, "price not below the exact one");
            check((n - z(1u8)) * (big - px) < g + pow10(24), "price within rounding of the exact one");
            check(r >= p, "removing x does not lower the price");
        }
    }
}
pub fn h_next_x_add() {
    next_x(true)
}
pub fn h_next_x_sub() {
    next_x(false)
}

// minimum amount out: expected * (1 - slippage), rounded up
pub fn h_min_out() {
    let e = any_amt("expected");
    let s = any::<u128>("slippage");
    match catch(|| calculate_min_amount_out(e, Percentage::new(s))) {
        Ok(r) => {
            reach("ok");
            check(s <= ONE_PCT, "slippage at most 100%");
            if s <= ONE_PCT {
                let x = z(e.get()) * (z(ONE_PCT) - z(s));
                check(z(r.get()) * z(ONE_PCT) >= x, "not below expected less slippage");
                check(z(r.get()) * z(ONE_PCT) < x + z(ONE_PCT), "rounded up by less than one unit");
                check(r <= e, "not above expected");
            }
        }
        Err(_) => check(s > ONE_PCT, "only slippage above 100% is refused"),
    }
}

// A step never gives out more, nor takes in less, than the liquidity needs for the price move.
fn favour(by_in: bool, x_to_y: bool) {
    let p = any_price("current");
    let q = any_price("target");
    if x_to_y {
        assume(p >= q);
    } else {
        assume(p < q);
    }
    let (l, a, fee) = (any_liq("liquidity"), any_amt("amount"), any_fee("fee"));
    assume(!l.is_zero());
    let r = match catch(|| compute_swap_step(p, q, l, a, by_in, fee)) {
        Ok(Ok(r)) => r,
        _ => return,
    };
    reach("step done");
    let n = r.next_sqrt_price;
    let (i, o) = (z(r.amount_in.get()), z(r.amount_out.get()));
    let ld = z(l.get()) * diff(p, n);
    let pn = z(p.get()) * z(n.get());
    if x_to_y {
        check(o * pow10(29) <= ld, "y paid out covered by the price move");
        check(i * pn * pow10(5) >= (ld - pow10(5)) * pow10(24), "x taken in pays for the price move");
    } else {
        check(o * pn * pow10(5) <= ld * pow10(24), "x paid out covered by the price move");
        check(i * pow10(29) >= ld, "y taken in pays for the price move");
    }
}
pub fn h_fav_in_xy() {
    favour(true, true)
}
pub fn h_fav_in_yx() {
    favour(true, false)
}
pub fn h_fav_out_xy() {
    favour(false, true)
}
pub fn h_fav_out_yx() {
    favour(false, false)
}

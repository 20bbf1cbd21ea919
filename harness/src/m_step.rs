//! One swap step (compute_swap_step) from arbitrary prices, liquidity, amount and fee.
use crate::kit::*;
use crate::vk::*;

fn inputs(x_to_y: bool) -> (SqrtPrice, SqrtPrice) {
    let p = any_price("current");
    let q = any_price("target");
    if x_to_y {
        assume(p >= q);
    } else {
        assume(p < q);
    }
    (p, q)
}
fn step(by_in: bool, x_to_y: bool) {
    let (p, q) = inputs(x_to_y);
    let (l, a, fee) = (any_liq("liquidity"), any_amt("amount"), any_fee("fee"));
    let r = catch(|| compute_swap_step(p, q, l, a, by_in, fee));
    let r = match r {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => return,
        Err(_) => {
            check(false, "a step answers or reports an error, it does not panic");
            return;
        }
    };
    reach("step done");
    // the price moves from current towards target and never past it
    if x_to_y {
        check(r.next_sqrt_price <= p, "price moves down");
        check(r.next_sqrt_price >= q, "price not below target");
    } else {
        check(r.next_sqrt_price >= p, "price moves up");
        check(r.next_sqrt_price <= q, "price not above target");
    }
    if by_in {
        check(z(r.amount_in.get()) + z(r.fee_amount.get()) <= z(a.get()), "input plus fee within the amount");
    } else {
        check(r.amount_out <= a, "output within the amount");
    }
}
pub fn h_step_in_xy() {
    step(true, true)
}
pub fn h_step_in_yx() {
    step(true, false)
}
pub fn h_step_out_xy() {
    step(false, true)
}
pub fn h_step_out_yx() {
    step(false, false)
}

// The fee of a step: never less than the fee rate of what goes in, and by less than one unit more
// unless the whole remaining amount is used up without reaching the target.
fn fee(by_in: bool, x_to_y: bool) {
    let (p, q) = inputs(x_to_y);
    let (l, a, fee) = (any_liq("liquidity"), any_amt("amount"), any_fee("fee"));
    let r = catch(|| compute_swap_step(p, q, l, a, by_in, fee));
    let r = match r {
        Ok(Ok(r)) => r,
        _ => return,
    };
    let (i, f, one) = (z(r.amount_in.get()), z(r.fee_amount.get()), z(ONE_PCT));
    check(f * one >= i * z(fee.get()), "fee at least the rate of the input");
    if by_in && r.next_sqrt_price != q && !l.is_zero() {
        reach("stopped before the target");
        check(i + f == z(a.get()), "whole amount used before the target");
    } else {
        reach("reached the target");
        check(f * one < i * z(fee.get()) + one, "fee rounded up by less than one unit");
    }
}
pub fn h_fee_in_xy() {
    fee(true, true)
}
pub fn h_fee_in_yx() {
    fee(true, false)
}
pub fn h_fee_out_xy() {
    fee(false, true)
}
pub fn h_fee_out_yx() {
    fee(false, false)
}

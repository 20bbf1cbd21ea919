//! Internal balances: exact, isolated, never more than was credited.
use crate::kit::*;
use crate::vk::*;

/// two users with up to two tokens each, any amounts, present or not
fn accounts(inv: &mut Invariant) {
    for (u, t) in [(5u8, 3u8), (5, 4), (6, 3)] {
        if any::<bool>("has") {
            let a = any_amt("held");
            assume(!a.is_zero());
            inv.increase_token_balance(&actor(t), &actor(u), a).unwrap();
        }
    }
}
fn who() -> ActorId {
    actor(match pick(3) {
        0 => 5,
        1 => 6,
        _ => 7,
    })
}
fn token() -> ActorId {
    actor(if any::<bool>("first token") { 3 } else { 4 })
}
fn all() -> [TokenAmount; 6] {
    let mut r = [amt(0); 6];
    let mut i = 0;
    for u in [5u8, 6, 7] {
        for t in [3u8, 4] {
            r[i] = balance(actor(t), actor(u));
            i += 1;
        }
    }
    r
}
fn same_but(a: [TokenAmount; 6], b: [TokenAmount; 6], u: ActorId, t: ActorId) -> bool {
    let mut ok = true;
    let mut i = 0;
    for x in [5u8, 6, 7] {
        for y in [3u8, 4] {
            if !(actor(x) == u && actor(y) == t) {
                ok = and(ok, a[i] == b[i]);
            }
            i += 1;
        }
    }
    ok
}
pub fn h_bal_increase() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let (u, t, a) = (who(), token(), any_amt("amount"));
    let (old, before) = (all(), balance(t, u));
    let can = inv.can_increase_token_balance(&t, &u, a);
    let r = inv.increase_token_balance(&t, &u, a);
    check(iff(r.is_ok(), z(before.get()) + z(a.get()) < pow2(256)), "a credit fails exactly when it would overflow");
    check(iff(r.is_ok(), can), "the question whether it can be credited is answered right");
    check(same_but(old, all(), u, t), "no other balance changes");
    if r.is_ok() {
        reach("credited");
        check(z(balance(t, u).get()) == z(before.get()) + z(a.get()), "credited exactly");
    } else {
        reach("refused");
        check(balance(t, u) == before, "a refused credit changes nothing");
    }
}
pub fn h_bal_decrease() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let (u, t, a) = (who(), token(), any_amt("amount"));
    let (old, before) = (all(), balance(t, u));
    let r = inv.decrease_token_balance(&t, &u, Some(a));
    check(iff(r.is_ok(), a <= before), "a debit fails exactly when it exceeds the balance");
    check(same_but(old, all(), u, t), "no other balance changes");
    match r {
        Ok(x) => {
            reach("debited");
            check(x == a, "the amount asked for is reported");
            check(z(balance(t, u).get()) + z(a.get()) == z(before.get()), "debited exactly");
        }
        Err(_) => {
            reach("refused");
            check(balance(t, u) == before, "a refused debit changes nothing");
        }
    }
}
pub fn h_bal_empty() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let (u, t) = (who(), token());
    let (old, before) = (all(), balance(t, u));
    let r = inv.decrease_token_balance(&t, &u, None);
    check(iff(r.is_ok(), !before.is_zero()), "everything can be taken exactly when there is something");
    check(same_but(old, all(), u, t), "no other balance changes");
    check(balance(t, u).is_zero(), "nothing is left");
    if let Ok(x) = r {
        reach("emptied");
        check(x == before, "all of it is reported");
    }
}
/// what users see
pub fn h_bal_listed() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let u = who();
    let s = service(any_actor("caller"));
    let l = s.get_user_balances(u);
    let (x, y) = (balance(actor(3), u), balance(actor(4), u));
    let (mut sx, mut sy, mut n) = (amt(0), amt(0), 0);
    for (t, a) in l.iter() {
        if *t == actor(3) {
            sx = *a;
            n += 1;
        }
        if *t == actor(4) {
            sy = *a;
            n += 1;
        }
    }
    check(n == l.len(), "only tokens that were credited are listed");
    check(l.len() <= 2, "each token once");
    check(and(sx == x, sy == y), "with the right amounts");
    reach("listed");
}
/// credits and debits in a row: the balance is their difference
pub fn h_bal_history() {
    let inv = init(any_fee("protocol fee"));
    let (mut sum, mut n) = (z(0u8), 0);
    for _ in 0..3 {
        let a = any_amt("amount");
        if any::<bool>("credit") {
            if inv.increase_token_balance(&actor(3), &actor(5), a).is_ok() {
                sum = sum + z(a.get());
                n += 1;
            }
        } else if inv.decrease_token_balance(&actor(3), &actor(5), Some(a)).is_ok() {
            sum = sum - z(a.get());
            n += 1;
        }
        check(z(balance(actor(3), actor(5)).get()) == sum, "the balance is what was credited less what was debited");
    }
    if n == 3 {
        reach("three changes");
    }
}

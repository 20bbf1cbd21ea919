//! Replies of token contracts: what they do to pending transfers and balances.
use crate::kit::*;
use crate::net::*;
use crate::vk::*;

fn user(second: bool) -> ActorId {
    actor(if second { 6 } else { 5 })
}
fn kind(deposit: bool) -> TransferType {
    if deposit {
        TransferType::Deposit
    } else {
        TransferType::Withdrawal
    }
}
/// two pending transfers with any content: messages 0 and 1, of tokens 3 and 4 or both of token 3
fn pending(inv: &mut Invariant, same: bool) -> [(bool, bool, TokenAmount); 2] {
    let mut r = [(false, false, amt(0)); 2];
    let mut i = 0;
    while i < 2 {
        let (d, s, a) = (any::<bool>("deposit"), any::<bool>("second user"), any_amt("amount"));
        let t = actor(if i == 0 || same { 3 } else { 4 });
        inv.awaiting_transfers.insert((mid(i as u8), t), AwaitingTransfer { account: user(s), amount: a, transfer_type: kind(d) });
        r[i] = (d, s, a);
        i += 1;
    }
    r
}
fn accounts(inv: &mut Invariant) {
    for (u, t) in [(5u8, 3u8), (5, 4), (6, 3), (6, 4)] {
        let a = any_amt("held");
        assume(!a.is_zero());
        inv.increase_token_balance(&actor(t), &actor(u), a).unwrap();
    }
}
fn held(token: u8, second: bool) -> Z {
    z(balance(actor(token), user(second)).get())
}
fn all() -> [Z; 4] {
    [held(3, false), held(3, true), held(4, false), held(4, true)]
}
fn still(m: u8, t: u8, r: (bool, bool, TokenAmount)) -> bool {
    match InvariantStorage::as_ref().awaiting_transfers.get(&(mid(m), actor(t))) {
        Some(x) => and(and(x.amount == r.2, x.account == user(r.1)), iff(matches!(x.transfer_type, TransferType::Deposit), r.0)),
        None => false,
    }
}
fn gone(m: u8, t: u8) -> bool {
    InvariantStorage::as_ref().awaiting_transfers.get(&(mid(m), actor(t))).is_none()
}
/// after an answer to message 0 that moved the money of `r` (or not) into the user's balance
fn settled(old: [Z; 4], r: (bool, bool, TokenAmount), credit: bool) {
    let new = all();
    let a = z(r.2.get());
    let fits = [old[0] + a < pow2(256), old[1] + a < pow2(256)];
    let mut i = 0;
    while i < 2 {
        let mine = iff(r.1, i == 1);
        let yes = and(and(mine, credit), fits[i]);
        check(implies(yes, new[i] == old[i] + a), "the amount is credited, exactly and once");
        check(implies(or(!mine, !credit), new[i] == old[i]), "nothing else is credited");
        i += 1;
    }
    check(and(new[2] == old[2], new[3] == old[3]), "balances of other tokens stay");
}
/// the standard's reply
pub fn h_reply_result() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let same = any::<bool>("same token");
    let r = pending(inv, same);
    let old = all();
    let result = any::<bool>("result");
    handle_valid_reply(inv, actor(3), mid(0), result);
    let credit = iff(r[0].0, result);
    reach("answered");
    settled(old, r[0], credit);
    check(gone(0, 3), "an answered transfer is no longer pending");
    check(still(1, if same { 3 } else { 4 }, r[1]), "other transfers stay pending");
    let old = all();
    handle_valid_reply(inv, actor(3), mid(0), any::<bool>("again"));
    let new = all();
    check(and(and(old[0] == new[0], old[1] == new[1]), and(old[2] == new[2], old[3] == new[3])), "a second answer changes nothing");
}
/// the token contract failed
pub fn h_reply_panic() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let same = any::<bool>("same token");
    let r = pending(inv, same);
    let old = all();
    handle_panic(inv, actor(3), mid(0));
    reach("answered");
    settled(old, r[0], !r[0].0);
    check(gone(0, 3), "an answered transfer is no longer pending");
    check(still(1, if same { 3 } else { 4 }, r[1]), "other transfers stay pending");
    let old = all();
    handle_panic(inv, actor(3), mid(0));
    let new = all();
    check(and(and(old[0] == new[0], old[1] == new[1]), and(old[2] == new[2], old[3] == new[3])), "a second answer changes nothing");
}
/// an answer nobody waits for: wrong message, wrong token
pub fn h_reply_unknown() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let r = pending(inv, false);
    let old = all();
    let (m, t) = if any::<bool>("message") { (mid(7), actor(3)) } else { (mid(0), actor(4)) };
    if any::<bool>("panicked") {
        handle_panic(inv, t, m);
    } else {
        handle_valid_reply(inv, t, m, any::<bool>("result"));
    }
    let new = all();
    reach("ignored");
    check(and(and(old[0] == new[0], old[1] == new[1]), and(old[2] == new[2], old[3] == new[3])), "an answer nobody waits for credits nothing");
    check(and(still(0, 3, r[0]), still(1, 4, r[1])), "and settles nothing");
}
/// which answers count as what
pub fn h_reply_kinds() {
    let inv = init(any_fee("protocol fee"));
    accounts(inv);
    let r = pending(inv, false);
    let old = all();
    let result = any::<bool>("result");
    let case = pick(6);
    let a = |kind, service, action| Answer { kind, service, action, result, failed: false };
    current(match case {
        0 => a(0, "Vft", "TransferFrom"),
        1 => a(0, "Vft", "Transfer"),
        2 => a(0, "Vftx", "TransferFrom"),
        3 => a(1, "panicked with 'no allowance'", ""),
        4 => a(2, "", ""),
        _ => a(3, "", ""),
    });
    reply_handler(actor(3), mid(0));
    if case == 0 {
        reach("transfer");
        settled(old, r[0], iff(r[0].0, result));
        check(gone(0, 3), "an answered transfer is no longer pending");
    } else if case == 3 {
        reach("failure");
        settled(old, r[0], !r[0].0);
        check(gone(0, 3), "an answered transfer is no longer pending");
    } else {
        reach("unrecognised");
        let new = all();
        check(and(old[0] == new[0], old[1] == new[1]), "an unrecognised answer credits nothing");
        check(still(0, 3, r[0]), "an unrecognised answer leaves the transfer pending");
    }
    check(still(1, 4, r[1]), "other transfers stay pending");
}

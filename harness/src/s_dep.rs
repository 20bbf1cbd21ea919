//! Deposits and withdrawals of tokens: the request, the answer, what is credited; every kind and order of answers.
use crate::kit::*;
use crate::net::*;
use crate::vk::*;
use core::future::Future;
use core::pin::Pin;

const USER: u8 = 5;
const PROGRAM: u8 = 9;
fn held(t: u8) -> Z {
    z(balance(actor(t), actor(USER)).get())
}
fn waiting(m: MessageId, t: u8) -> bool {
    InvariantStorage::as_ref().awaiting_transfers.get(&(m, actor(t))).is_some()
}
fn none_waiting() -> bool {
    InvariantStorage::as_ref().awaiting_transfers.is_empty()
}
fn start(gas: u64) -> &'static mut Invariant {
    set_env("program_id", PROGRAM as u128);
    set_env("gas_available", gas as u128);
    set_env("block_height", 7);
    let inv = init(any_fee("protocol fee"));
    for t in [3u8, 4] {
        let a = any_amt("held");
        assume(!a.is_zero());
        inv.increase_token_balance(&actor(t), &actor(USER), a).unwrap();
    }
    inv
}
/// one poll: Err = reverted, Ok(None) = waiting
fn poll<F: Future>(f: &mut F) -> Result<Option<F::Output>, Panicked> {
    catch(|| poll_pin(unsafe { Pin::new_unchecked(&mut *f) }))
}
const KINDS: u8 = 7;
/// an answer of any kind, and whether it says the token moved, and whether it says it did not
fn answer(k: i128) -> (Answer, bool, bool) {
    let a = |kind, service, action, result, failed| Answer { kind, service, action, result, failed };
    match k {
        0 => (a(0, "Vft", "TransferFrom", true, false), true, false),
        1 => (a(0, "Vft", "TransferFrom", false, false), false, true),
        2 => (a(0, "Vft", "Approve", true, false), false, false),
        3 => (a(1, "panicked", "", false, true), false, true),
        4 => (a(2, "", "", false, false), false, false),
        5 => (a(3, "", "", false, true), false, false),
        _ => (a(0, "Other", "TransferFrom", true, false), false, false),
    }
}
/// message i asks the token's program to move the amount, gives it gas and leaves gas for the answer
fn asked(i: usize, token: u8, from: u8, to: u8, a: TokenAmount) {
    let s = &sent()[i];
    check(s.to == actor(token), "the token's own program is asked");
    check(same_bytes(&s.payload, &transfer_from(actor(from), actor(to), a)), "to move exactly the amount between the user and the contract");
    check(and(s.value == 0, s.gas > 0), "without value, with gas");
    check(s.deposit > 0, "with gas for handling the answer");
}
fn single(deposit: bool, native_all: bool) {
    let gas = any::<u64>("gas");
    let inv = start(gas);
    let token = if any::<bool>("vara") { 0u8 } else { 3 };
    let a = any_amt("amount");
    let caller = if any::<bool>("itself") { PROGRAM } else { USER };
    let fails = any::<bool>("send fails");
    set_env("send_fails_at", if fails { 1 } else { 0 });
    let before = held(3);
    let other = held(4);
    let mut s = service(actor(caller));
    let free = z(gas) >= z(TRANSFER_COST);
    let fine = and(and(token == 3, caller == USER), and(!fails, free));
    if deposit {
        let mut f = s.deposit_single_token(actor(token), a);
        let r = poll(&mut f);
        let fits = before + z(a.get()) < pow2(256);
        check(iff(matches!(r, Ok(None)), and(fine, and(fits, !a.is_zero()))), "a deposit is asked for exactly when it can be credited and paid for");
        check(!matches!(r, Ok(Some(_))), "nothing is reported before the answer");
        if let Ok(None) = r {
            reach("asked");
            check(sent().len() == 1, "one message");
            asked(0, 3, USER, PROGRAM, a);
            check(held(3) == before, "nothing is credited yet");
            finish(inv, &mut f, before, other, a, true);
        }
    } else {
        let all = and(native_all, any::<bool>("all"));
        let mut f = s.withdraw_single_token(actor(token), if all { None } else { Some(a) });
        let r = poll(&mut f);
        let a = if all { TokenAmount::new(any_of(before)) } else { a };
        let has = and(!a.is_zero(), z(a.get()) <= before);
        check(iff(matches!(r, Ok(None)), and(fine, has)), "a withdrawal is asked for exactly when it is covered and paid for");
        if let Ok(None) = r {
            reach("asked");
            check(sent().len() == 1, "one message");
            asked(0, 3, PROGRAM, USER, a);
            check(held(3) + z(a.get()) == before, "it is debited first");
            finish(inv, &mut f, before, other, a, false);
        }
    }
}
/// the 256-bit number with this value
fn any_of(v: Z) -> U256 {
    let x = any::<U256>("everything");
    assume(z(x) == v);
    x
}
fn finish<F: Future<Output = TokenAmount>>(inv: &mut Invariant, f: &mut F, before: Z, other: Z, a: TokenAmount, deposit: bool) {
    check(waiting(mid(0), 3), "the transfer is pending");
    let again = poll(f);
    check(matches!(again, Ok(None)), "it waits for the answer");
    let k = pick(KINDS);
    let (ans, moved, not) = answer(k);
    deliver(mid(0), ans);
    let credit = if deposit { moved } else { not };
    let base = if deposit { before } else { before - z(a.get()) };
    let want = if credit { base + z(a.get()) } else { base };
    check(held(3) == want, "the answer settles the balance: credited exactly when the token moved (deposit) or did not (withdrawal)");
    check(held(4) == other, "no other balance changes");
    let r = poll(f);
    match r {
        Ok(Some(x)) => {
            reach("done");
            check(moved, "success is reported only when the token says so");
            check(x == a, "the amount moved is reported");
        }
        Ok(None) => check(false, "an answered transfer does not wait"),
        Err(_) => check(!moved, "an error is reported only when the token did not say success"),
    }
    if get_env("left") == 1 {
        reach("unrecognised answer");
        check(and(!moved, !not), "the caller is told when the answer cannot be understood");
        check(and(replies().len() == 1, replies()[0].1 == 0), "with an error and no value");
        check(none_waiting(), "what could not be understood is not pending for ever");
    }
    check(held(3) == want, "and nothing more happens to the balance");
    if or(moved, not) {
        check(none_waiting(), "nothing is left pending");
    }
}
pub fn h_dep_single() {
    single(true, false)
}
pub fn h_wd_single() {
    single(false, false)
}
pub fn h_wd_single_all() {
    single(false, true)
}

/// two tokens at once: the two answers come in either order, with or without the message running in between
fn pair(deposit: bool) {
    let inv = start(1 << 60);
    let (a, b) = (any_amt("x"), any_amt("y"));
    assume(!a.is_zero());
    assume(!b.is_zero());
    let before = [held(3), held(4)];
    let mut s = service(actor(USER));
    let k = [pick(KINDS), pick(KINDS)];
    if deposit {
        let mut f = s.deposit_token_pair((actor(3), a), (actor(4), b));
        let r = poll(&mut f);
        check(iff(matches!(r, Ok(None)), and(before[0] + z(a.get()) < pow2(256), before[1] + z(b.get()) < pow2(256))), "a deposit is asked for exactly when it can be credited");
        if let Ok(None) = r {
            both(inv, &mut f, before, a, b, k, true);
        }
    } else {
        let mut f = s.withdraw_token_pair((actor(3), Some(a)), (actor(4), Some(b)));
        let r = poll(&mut f);
        check(iff(matches!(r, Ok(None)), and(z(a.get()) <= before[0], z(b.get()) <= before[1])), "a withdrawal is asked for exactly when both are covered");
        if let Ok(None) = r {
            both(inv, &mut f, before, a, b, k, false);
        }
    }
}
fn both<F: Future<Output = (TokenAmount, TokenAmount)>>(inv: &mut Invariant, f: &mut F, before: [Z; 2], a: TokenAmount, b: TokenAmount, k: [i128; 2], deposit: bool) {
    reach("asked");
    check(sent().len() == 2, "two messages");
    let (from, to) = if deposit { (USER, PROGRAM) } else { (PROGRAM, USER) };
    asked(0, 3, from, to, a);
    asked(1, 4, from, to, b);
    let base = if deposit { before } else { [before[0] - z(a.get()), before[1] - z(b.get())] };
    check(and(held(3) == base[0], held(4) == base[1]), "debited first, credited later");
    let ans = [answer(k[0]), answer(k[1])];
    let first = if any::<bool>("second first") { 1usize } else { 0 };
    deliver(mid(first as u8), ans[first].0);
    if any::<bool>("runs in between") {
        let r = poll(f);
        check(matches!(r, Ok(None)), "it waits for both answers");
    }
    deliver(mid(1 - first as u8), ans[1 - first].0);
    let cx = if deposit { ans[0].1 } else { ans[0].2 };
    let cy = if deposit { ans[1].1 } else { ans[1].2 };
    let want = [if cx { base[0] + z(a.get()) } else { base[0] }, if cy { base[1] + z(b.get()) } else { base[1] }];
    check(and(held(3) == want[0], held(4) == want[1]), "each answer settles its own token");
    let r = poll(f);
    let good = and(ans[0].1, ans[1].1);
    match r {
        Ok(Some((x, y))) => {
            reach("done");
            check(good, "success is reported only when both tokens say so");
            check(and(x == a, y == b), "the amounts moved are reported");
        }
        Ok(None) => check(false, "an answered transfer does not wait"),
        Err(_) => check(!good, "an error is reported only when a token did not say success"),
    }
    check(and(held(3) == want[0], held(4) == want[1]), "and nothing more happens to the balances");
    if get_env("left") == 1 {
        check(and(replies().len() == 1, replies()[0].1 == 0), "an error is told once, without value");
        check(none_waiting(), "what could not be understood is not pending for ever");
    }
    if and(or(ans[0].1, ans[0].2), or(ans[1].1, ans[1].2)) {
        check(none_waiting(), "nothing is left pending");
    }
}
pub fn h_dep_pair() {
    pair(true)
}
pub fn h_wd_pair() {
    pair(false)
}

/// the wait ends before the answer comes: the answer still settles the balance
fn late(deposit: bool) {
    let inv = start(1 << 60);
    let a = any_amt("amount");
    assume(!a.is_zero());
    let before = held(3);
    let mut s = service(actor(USER));
    let (answer, moved, not) = answer(pick(KINDS));
    let r = if deposit {
        assume(before + z(a.get()) < pow2(256));
        let mut f = s.deposit_single_token(actor(3), a);
        let _ = poll(&mut f);
        expire();
        poll(&mut f)
    } else {
        assume(z(a.get()) <= before);
        let mut f = s.withdraw_single_token(actor(3), Some(a));
        let _ = poll(&mut f);
        expire();
        poll(&mut f)
    };
    check(sent().len() == 1, "one message");
    check(r.is_err(), "without an answer nothing is reported as done");
    let base = if deposit { before } else { before - z(a.get()) };
    check(held(3) == base, "and nothing is credited yet");
    if get_env("left") == 0 {
        return; // reverted
    }
    reach("gave up waiting");
    deliver(mid(0), answer);
    let credit = if deposit { moved } else { not };
    check(held(3) == if credit { base + z(a.get()) } else { base }, "an answer that comes late settles the balance all the same");
    if or(moved, not) {
        check(none_waiting(), "nothing is left pending");
    }
}
pub fn h_dep_late() {
    late(true)
}
pub fn h_wd_late() {
    late(false)
}

/// pairs with nothing to move for one token or both, and what is refused
fn pair_edges(deposit: bool) {
    let gas = any::<u64>("gas");
    let inv = start(gas);
    let _ = inv;
    let tokens = [actor(3), actor(match pick(3) { 0 => 4, 1 => 3, _ => 0 })];
    let (a, b) = (any_amt("x"), any_amt("y"));
    let (ax, by) = (split(a.is_zero()), split(b.is_zero()));
    let fails = any::<bool>("second send fails");
    set_env("send_fails_at", if fails { 2 } else { 0 });
    let before = [held(3), held(4)];
    let mut s = service(actor(USER));
    let n = if ax { 0 } else { 1 } + if by { 0 } else { 1 };
    let (waits, done) = if deposit {
        let mut f = s.deposit_token_pair((tokens[0], a), (tokens[1], b));
        let r = poll(&mut f);
        (matches!(r, Ok(None)), matches!(r, Ok(Some(_))))
    } else {
        let mut f = s.withdraw_token_pair((tokens[0], Some(a)), (tokens[1], Some(b)));
        let r = poll(&mut f);
        (matches!(r, Ok(None)), matches!(r, Ok(Some(_))))
    };
    let paid = z(gas) >= z(TRANSFER_COST) * z(n as u8);
    if tokens[1] != actor(4) {
        // the same token twice, or the native one: refused, unless nothing of it is to be moved
        check(implies(tokens[1] == actor(3), and(!waits, !done)), "the same token twice is refused");
        check(implies(!by, and(!waits, !done)), "the native token is not moved by tokens' messages");
        reach("refused");
        return;
    }
    let can = if deposit {
        and(before[0] + z(a.get()) < pow2(256), before[1] + z(b.get()) < pow2(256))
    } else {
        and(z(a.get()) <= before[0], z(b.get()) <= before[1])
    };
    check(iff(done, and(can, n == 0)), "with nothing to move it is done at once");
    check(iff(waits, and(and(can, paid), and(n > 0, !and(fails, n == 2)))), "something is asked for exactly when it can be done, paid for and sent");
    if waits {
        reach("asked");
        check(sent().len() == n as usize, "one message for each token that moves");
        let (from, to) = if deposit { (USER, PROGRAM) } else { (PROGRAM, USER) };
        if n == 1 {
            reach("one token");
            if ax {
                asked(0, 4, from, to, b);
            } else {
                asked(0, 3, from, to, a);
            }
        }
    }
    if done {
        reach("nothing");
        check(sent().len() == 0, "no message");
    }
}
pub fn h_dep_pair_edges() {
    pair_edges(true)
}
pub fn h_wd_pair_edges() {
    pair_edges(false)
}
/// everything of both tokens, where a user may have none of one
pub fn h_wd_pair_all() {
    let inv = init(any_fee("protocol fee"));
    set_env("program_id", PROGRAM as u128);
    set_env("gas_available", 1 << 60);
    let has = [any::<bool>("has x"), any::<bool>("has y")];
    let mut i = 0;
    while i < 2 {
        if has[i] {
            let a = any_amt("held");
            assume(!a.is_zero());
            inv.increase_token_balance(&actor(3 + i as u8), &actor(USER), a).unwrap();
        }
        i += 1;
    }
    // an account that exists, with another token
    inv.increase_token_balance(&actor(7), &actor(USER), amt(1)).unwrap();
    let before = [balance(actor(3), actor(USER)), balance(actor(4), actor(USER))];
    let mut s = service(actor(USER));
    let mut f = s.withdraw_token_pair((actor(3), None), (actor(4), None));
    let r = poll(&mut f);
    let n = if has[0] { 1 } else { 0 } + if has[1] { 1 } else { 0 };
    check(sent().len() == n, "one message for each token the user has");
    check(iff(matches!(r, Ok(None)), n > 0), "it waits when there is something to move");
    check(iff(matches!(r, Ok(Some(_))), n == 0), "with nothing to move it is done at once");
    check(and(held(3) == z(0u8), held(4) == z(0u8)), "both balances are debited in full");
    reach("asked");
    if n == 2 {
        asked(0, 3, PROGRAM, USER, before[0]);
        asked(1, 4, PROGRAM, USER, before[1]);
    } else if n == 1 {
        let i = if has[0] { 0 } else { 1 };
        asked(0, 3 + i, PROGRAM, USER, before[i as usize]);
    }
}
/// two operations on one token at the same time, by one user or two; their answers cross
pub fn h_dep_crossed() {
    let inv = start(1 << 60);
    let other = any::<bool>("another user");
    let second = actor(if other { 6 } else { USER });
    let h = any_amt("other held");
    assume(!h.is_zero());
    inv.increase_token_balance(&actor(3), &actor(6), h).unwrap();
    let (a, b) = (any_amt("x"), any_amt("y"));
    assume(!a.is_zero());
    assume(!b.is_zero());
    assume(z(b.get()) <= z(balance(actor(3), second).get()));
    let before = [held(3), z(h.get())];
    assume(before[0] + z(a.get()) + z(b.get()) < pow2(256));
    assume(before[1] + z(b.get()) < pow2(256));
    let mut s1 = service(actor(USER));
    let mut s2 = service(second);
    let mut f = s1.deposit_single_token(actor(3), a);
    let mut g = s2.withdraw_single_token(actor(3), Some(b));
    set_env("id", 1);
    check(matches!(poll(&mut f), Ok(None)), "the deposit waits");
    set_env("id", 2);
    check(matches!(poll(&mut g), Ok(None)), "the withdrawal waits");
    let (k, l) = (pick(KINDS), pick(KINDS));
    let (x, y) = (answer(k), answer(l));
    let mut base = before;
    let w = if other { 1 } else { 0 };
    base[w] = base[w] - z(b.get());
    if any::<bool>("withdrawal first") {
        deliver(mid(1), y.0);
        deliver(mid(0), x.0);
    } else {
        deliver(mid(0), x.0);
        deliver(mid(1), y.0);
    }
    if x.1 {
        base[0] = base[0] + z(a.get());
    }
    if y.2 {
        base[w] = base[w] + z(b.get());
    }
    let now = || [held(3), z(balance(actor(3), actor(6)).get())];
    let n = now();
    check(and(n[0] == base[0], n[1] == base[1]), "each answer settles its own transfer");
    set_env("id", 1);
    let r = poll(&mut f);
    check(iff(matches!(r, Ok(Some(_))), x.1), "the deposit reports its own answer");
    set_env("id", 2);
    let r = poll(&mut g);
    check(iff(matches!(r, Ok(Some(_))), y.1), "the withdrawal reports its own answer");
    let n = now();
    check(and(n[0] == base[0], n[1] == base[1]), "and nothing more happens to the balances");
    reach("both settled");
}

// ------------------------------------------------------------------ the native token
fn vara(u: u8) -> Z {
    z(balance(VARA_ADDRESS, actor(u)).get())
}
fn natives(inv: &mut Invariant) {
    for (u, t) in [(USER, 0u8), (USER, 3), (6, 0)] {
        if any::<bool>("has") {
            let a = any_amt("held");
            assume(!a.is_zero());
            inv.increase_token_balance(&actor(t), &actor(u), a).unwrap();
        }
    }
}
pub fn h_vara_deposit() {
    let inv = init(any_fee("protocol fee"));
    natives(inv);
    let v = any::<u128>("value");
    set_env("value", v);
    set_env("source", USER as u128);
    let before = [vara(USER), held(3), vara(6)];
    let mut s = service(actor(USER));
    let r = catch(|| s.deposit_vara());
    check(iff(r.is_ok(), before[0] + z(v) < pow2(256)), "native value is refused only when it cannot be credited");
    if let Ok(x) = r {
        reach("credited");
        check(z(x.get()) == z(v), "what came with the message is reported");
        check(vara(USER) == before[0] + z(v), "exactly what came with the message is credited");
        check(and(held(3) == before[1], vara(6) == before[2]), "nothing else changes");
    }
}
pub fn h_vara_withdraw() {
    let inv = init(any_fee("protocol fee"));
    natives(inv);
    set_env("source", USER as u128);
    let before = [vara(USER), held(3), vara(6)];
    let all = any::<bool>("all");
    let a = any_amt("amount");
    let mut s = service(actor(USER));
    let r = catch(|| s.withdraw_vara(if all { None } else { Some(a) }));
    check(r.is_err(), "the reply is given by hand");
    let want = if all { before[0] } else { z(a.get()) };
    let paid = get_env("left") == 1;
    let nothing = and(!all, a.is_zero());
    check(iff(paid, and(and(want <= before[0], want < pow2(128)), !nothing)), "what is covered can be withdrawn, nothing else");
    if paid {
        reach("paid out");
        check(replies().len() == 1, "one reply");
        let (bytes, value) = &replies()[0];
        check(z(*value) == want, "the reply carries exactly what was asked for");
        check(vara(USER) + want == before[0], "and exactly that is debited");
        let amount = TokenAmount::new(U256::from(*value));
        check(same_bytes(bytes, &("Service", "WithdrawVara", amount).encode()), "and names the amount");
        check(and(held(3) == before[1], vara(6) == before[2]), "nothing else changes");
    }
}

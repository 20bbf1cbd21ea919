//! Models of library collections the engine puts in place of the originals (vp/redirect.txt): hash maps as
//! association lists compared with the keys' own Eq, and the iterator methods slices override.
//! Only the exported (symbolic) build uses them.
#![allow(dead_code, unused_variables)]
use core::borrow::Borrow;
use sails_rs::collections::hash_map::{Entry, OccupiedEntry, VacantEntry};
use sails_rs::collections::HashMap;
extern crate alloc;
use alloc::vec::Vec;

// engine intrinsics
macro_rules! raw { ($($f:item)*) => { $(#[inline(never)] $f)* } }
raw! {
    pub fn raw_map_new<K, V, S>() -> HashMap<K, V, S> { loop {} }
    pub fn raw_map_len<K, V, S>(m: &HashMap<K, V, S>) -> usize { loop {} }
    pub fn raw_map_key<K, V, S>(m: &HashMap<K, V, S>, i: usize) -> &K { loop {} }
    pub fn raw_map_val<K, V, S>(m: &HashMap<K, V, S>, i: usize) -> &V { loop {} }
    pub fn raw_map_val_mut<K, V, S>(m: &mut HashMap<K, V, S>, i: usize) -> &mut V { loop {} }
    pub fn raw_map_push<K, V, S>(m: &mut HashMap<K, V, S>, k: K, v: V) { loop {} }
    pub fn raw_map_remove_at<K, V, S>(m: &mut HashMap<K, V, S>, i: usize) -> (K, V) { loop {} }
    pub fn raw_map_occ<'a, K, V, S>(m: &'a mut HashMap<K, V, S>, i: usize) -> OccupiedEntry<'a, K, V, S> { loop {} }
    pub fn raw_map_vac<'a, K, V, S>(m: &'a mut HashMap<K, V, S>, k: K) -> VacantEntry<'a, K, V, S> { loop {} }
}

pub fn find<K, V, S, Q: ?Sized + PartialEq>(m: &HashMap<K, V, S>, k: &Q) -> Option<usize>
where
    K: Borrow<Q>,
{
    let n = raw_map_len(m);
    let mut i = 0;
    while i < n {
        if raw_map_key(m, i).borrow() == k {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn get<K, V, S, A, Q: ?Sized + PartialEq>(m: &HashMap<K, V, S>, k: &Q) -> Option<&'static V>
where
    K: Borrow<Q>,
{
    match find(m, k) {
        Some(i) => Some(unsafe { &*(raw_map_val(m, i) as *const V) }),
        None => None,
    }
}
pub fn get_key_value<K, V, S, A, Q: ?Sized + PartialEq>(m: &HashMap<K, V, S>, k: &Q) -> Option<(&'static K, &'static V)>
where
    K: Borrow<Q>,
{
    match find(m, k) {
        Some(i) => Some(unsafe { (&*(raw_map_key(m, i) as *const K), &*(raw_map_val(m, i) as *const V)) }),
        None => None,
    }
}
pub fn get_mut<K, V, S, A, Q: ?Sized + PartialEq>(m: &mut HashMap<K, V, S>, k: &Q) -> Option<&'static mut V>
where
    K: Borrow<Q>,
{
    match find(m, k) {
        Some(i) => Some(unsafe { &mut *(raw_map_val_mut(m, i) as *mut V) }),
        None => None,
    }
}
pub fn contains_key<K, V, S, A, Q: ?Sized + PartialEq>(m: &HashMap<K, V, S>, k: &Q) -> bool
where
    K: Borrow<Q>,
{
    find(m, k).is_some()
}
pub fn insert<K: PartialEq, V, S, A>(m: &mut HashMap<K, V, S>, k: K, v: V) -> Option<V> {
    match find(m, &k) {
        Some(i) => Some(core::mem::replace(raw_map_val_mut(m, i), v)),
        None => {
            raw_map_push(m, k, v);
            None
        }
    }
}
pub fn remove<K, V, S, A, Q: ?Sized + PartialEq>(m: &mut HashMap<K, V, S>, k: &Q) -> Option<V>
where
    K: Borrow<Q>,
{
    match find(m, k) {
        Some(i) => Some(raw_map_remove_at(m, i).1),
        None => None,
    }
}
pub fn remove_entry<K, V, S, A, Q: ?Sized + PartialEq>(m: &mut HashMap<K, V, S>, k: &Q) -> Option<(K, V)>
where
    K: Borrow<Q>,
{
    match find(m, k) {
        Some(i) => Some(raw_map_remove_at(m, i)),
        None => None,
    }
}
pub fn entry<K: PartialEq, V, S, A>(m: &mut HashMap<K, V, S>, k: K) -> Entry<'_, K, V, S> {
    match find(m, &k) {
        Some(i) => Entry::Occupied(raw_map_occ(m, i)),
        None => Entry::Vacant(raw_map_vac(m, k)),
    }
}
pub fn retain<K, V, S, A, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V, S>, mut f: F) {
    let mut i = 0;
    while i < raw_map_len(m) {
        let k = unsafe { &*(raw_map_key(m, i) as *const K) };
        if f(k, raw_map_val_mut(m, i)) {
            i += 1;
        } else {
            raw_map_remove_at(m, i);
        }
    }
}
pub fn extend<K: PartialEq, V, S, A, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, it: I) {
    for (k, v) in it {
        insert::<K, V, S, A>(m, k, v);
    }
}

// ------------------------------------------------------------------ slices and vectors
pub fn from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn vec_extend_ref<'a, T: 'a + Copy, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(*x);
    }
}
pub fn extend_from_slice<T: Clone, A>(v: &mut Vec<T>, s: &[T]) {
    for x in s.iter() {
        v.push(x.clone());
    }
}
pub fn to_vec<T: Clone>(s: &[T]) -> Vec<T> {
    let mut v = Vec::new();
    for x in s.iter() {
        v.push(x.clone());
    }
    v
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}
pub fn sort_by<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == core::cmp::Ordering::Less {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    sort_by(s, |a, b| f(a).cmp(&f(b)))
}
pub fn sort<T: Ord>(s: &mut [T]) {
    sort_by(s, |a, b| a.cmp(b))
}

macro_rules! slice_iter { ($m:ident, $t:ident, $($r:tt)*) => { pub mod $m {
    use core::slice::$t;
    pub fn find<'a, T, P: FnMut(&&'a $($r)* T) -> bool>(it: &mut $t<'a, T>, mut p: P) -> Option<&'a $($r)* T> {
        while let Some(x) = it.next() { if p(&x) { return Some(x); } }
        None
    }
    pub fn find_map<'a, T, B, P: FnMut(&'a $($r)* T) -> Option<B>>(it: &mut $t<'a, T>, mut p: P) -> Option<B> {
        while let Some(x) = it.next() { if let Some(b) = p(x) { return Some(b); } }
        None
    }
    pub fn position<'a, T, P: FnMut(&'a $($r)* T) -> bool>(it: &mut $t<'a, T>, mut p: P) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
        None
    }
    pub fn any<'a, T, P: FnMut(&'a $($r)* T) -> bool>(it: &mut $t<'a, T>, mut p: P) -> bool {
        while let Some(x) = it.next() { if p(x) { return true; } }
        false
    }
    pub fn all<'a, T, P: FnMut(&'a $($r)* T) -> bool>(it: &mut $t<'a, T>, mut p: P) -> bool {
        while let Some(x) = it.next() { if !p(x) { return false; } }
        true
    }
    pub fn for_each<'a, T, P: FnMut(&'a $($r)* T)>(it: $t<'a, T>, mut p: P) {
        let mut it = it;
        while let Some(x) = it.next() { p(x) }
    }
    pub fn fold<'a, T, B, P: FnMut(B, &'a $($r)* T) -> B>(it: $t<'a, T>, b: B, mut p: P) -> B {
        let mut it = it;
        let mut b = b;
        while let Some(x) = it.next() { b = p(b, x); }
        b
    }
    pub fn nth<'a, T>(it: &mut $t<'a, T>, n: usize) -> Option<&'a $($r)* T> {
        let mut i = 0;
        while i < n { it.next()?; i += 1; }
        it.next()
    }
    pub fn rposition<'a, T, P: FnMut(&'a $($r)* T) -> bool>(it: &mut $t<'a, T>, mut p: P) -> Option<usize> {
        let mut i = it.len();
        while let Some(x) = it.next_back() { i -= 1; if p(x) { return Some(i); } }
        None
    }
    pub fn advance_by<'a, T>(it: &mut $t<'a, T>, n: usize) -> Result<(), core::num::NonZeroUsize> {
        let mut i = 0;
        while i < n {
            if it.next().is_none() { return Err(core::num::NonZeroUsize::new(n - i).unwrap()); }
            i += 1;
        }
        Ok(())
    }
    pub fn nth_back<'a, T>(it: &mut $t<'a, T>, n: usize) -> Option<&'a $($r)* T> {
        let mut i = 0;
        while i < n { it.next_back()?; i += 1; }
        it.next_back()
    }
    pub fn last<'a, T>(it: $t<'a, T>) -> Option<&'a $($r)* T> {
        let mut it = it;
        it.next_back()
    }
} } }
slice_iter!(it, Iter,);
slice_iter!(itm, IterMut, mut);
pub fn take<T: Default>(r: &mut T) -> T {
    core::mem::replace(r, T::default())
}
pub fn index<'a, K, Q: ?Sized + PartialEq, V, S, A>(m: &'a HashMap<K, V, S>, k: &Q) -> &'a V
where
    K: Borrow<Q>,
{
    match find(m, k) {
        Some(i) => raw_map_val(m, i),
        None => panic!("no entry found for key"),
    }
}
pub fn map_from_iter<K: PartialEq, V, S, A, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V, S> {
    let mut m = raw_map_new();
    for (k, v) in it {
        insert::<K, V, S, A>(&mut m, k, v);
    }
    m
}
raw! {
    pub fn raw_array<T, const N: usize>(v: Vec<T>) -> [T; N] { loop {} }
}
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut v = Vec::new();
    for x in a {
        v.push(f(x));
    }
    raw_array(v)
}
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut v = Vec::new();
    while v.len() < N {
        v.push(f(v.len()));
    }
    raw_array(v)
}
macro_rules! map_iter { ($m:ident, $t:ident, $it:ty) => { pub mod $m {
    use sails_rs::collections::hash_map::$t;
    pub fn fold<'a, K, V, B, F: FnMut(B, $it) -> B>(it: $t<'a, K, V>, b: B, mut f: F) -> B {
        let mut it = it;
        let mut b = b;
        while let Some(x) = it.next() { b = f(b, x); }
        b
    }
} } }
map_iter!(mi, Iter, (&'a K, &'a V));
map_iter!(mm, IterMut, (&'a K, &'a mut V));
map_iter!(mk, Keys, &'a K);
map_iter!(mv, Values, &'a V);
map_iter!(mw, ValuesMut, &'a mut V);
macro_rules! map_owned { ($m:ident, $t:ty, $it:ty) => {
    pub fn $m<'a, K, V, A, B, F: FnMut(B, $it) -> B>(it: $t, b: B, mut f: F) -> B {
        let mut it = it;
        let mut b = b;
        while let Some(x) = it.next() { b = f(b, x); }
        b
    }
} }
map_owned!(map_into_fold, sails_rs::collections::hash_map::IntoIter<K, V>, (K, V));
map_owned!(map_keys_fold, sails_rs::collections::hash_map::IntoKeys<K, V>, K);
map_owned!(map_values_fold, sails_rs::collections::hash_map::IntoValues<K, V>, V);
map_owned!(map_drain_fold, sails_rs::collections::hash_map::Drain<'a, K, V>, (K, V));
pub fn vec_append<T, A>(v: &mut Vec<T>, o: &mut Vec<T>) {
    while !o.is_empty() {
        v.push(o.remove(0));
    }
}
pub fn vec_split_off<T, A>(v: &mut Vec<T>, at: usize) -> Vec<T> {
    if at > v.len() {
        panic!("split_off: index out of bounds");
    }
    let mut o = Vec::new();
    while v.len() > at {
        o.push(v.remove(at));
    }
    o
}
pub fn vec_resize<T: Clone, A>(v: &mut Vec<T>, n: usize, x: T) {
    while v.len() > n {
        v.pop();
    }
    while v.len() < n {
        v.push(x.clone());
    }
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    while v.len() < n {
        v.push(x.clone());
    }
    v
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn fill<T: Clone>(s: &mut [T], x: T) {
    let mut i = 0;
    while i < s.len() {
        s[i] = x.clone();
        i += 1;
    }
}
pub fn rotate_left<T>(s: &mut [T], k: usize) {
    if k > s.len() {
        panic!("rotate_left: mid > len");
    }
    let mut j = 0;
    while j < k {
        let mut i = 1;
        while i < s.len() {
            s.swap(i - 1, i);
            i += 1;
        }
        j += 1;
    }
}
pub fn rotate_right<T>(s: &mut [T], k: usize) {
    if k > s.len() {
        panic!("rotate_right: k > len");
    }
    rotate_left(s, s.len() - k)
}
pub fn starts_with<T: PartialEq>(s: &[T], o: &[T]) -> bool {
    if s.len() < o.len() {
        return false;
    }
    let mut i = 0;
    while i < o.len() {
        if s[i] != o[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn ends_with<T: PartialEq>(s: &[T], o: &[T]) -> bool {
    s.len() >= o.len() && starts_with(&s[s.len() - o.len()..], o)
}
pub fn partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut p: P) -> usize {
    let mut i = 0;
    while i < s.len() && p(&s[i]) {
        i += 1;
    }
    i
}
pub fn binary_search_by<'a, T, F: FnMut(&'a T) -> core::cmp::Ordering>(s: &'a [T], mut f: F) -> Result<usize, usize> {
    let mut i = 0;
    while i < s.len() {
        match f(&s[i]) {
            core::cmp::Ordering::Less => i += 1,
            core::cmp::Ordering::Equal => return Ok(i),
            core::cmp::Ordering::Greater => return Err(i),
        }
    }
    Err(i)
}
pub fn binary_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> {
    binary_search_by(s, |p| p.cmp(x))
}
pub fn binary_search_by_key<'a, T, B: Ord, F: FnMut(&'a T) -> B>(s: &'a [T], b: &B, mut f: F) -> Result<usize, usize> {
    binary_search_by(s, |p| f(p).cmp(b))
}
macro_rules! owned_iter { ($m:ident, $t:ty, ($($g:tt)*)) => { pub mod $m {
    pub fn fold<$($g)*, B, F: FnMut(B, T) -> B>(it: $t, b: B, mut f: F) -> B {
        let mut it = it;
        let mut b = b;
        while let Some(x) = it.next() { b = f(b, x); }
        b
    }
    #[cfg(verif_mir)]
    pub fn try_fold<$($g)*, B, F: FnMut(B, T) -> R, R: core::ops::Try<Output = B>>(it: &mut $t, b: B, mut f: F) -> R {
        let mut b = b;
        while let Some(x) = it.next() { b = f(b, x)?; }
        R::from_output(b)
    }
    pub fn count<$($g)*>(it: $t) -> usize {
        let mut it = it;
        let mut n = 0;
        while let Some(_) = it.next() { n += 1; }
        n
    }
    pub fn last<$($g)*>(it: $t) -> Option<T> {
        let mut it = it;
        it.next_back()
    }
    pub fn advance_by<$($g)*>(it: &mut $t, n: usize) -> Result<(), core::num::NonZeroUsize> {
        let mut i = 0;
        while i < n {
            if it.next().is_none() {
                return Err(core::num::NonZeroUsize::new(n - i).unwrap());
            }
            i += 1;
        }
        Ok(())
    }
} } }
owned_iter!(ai, core::array::IntoIter<T, N>, (T, const N: usize));
owned_iter!(vi, super::alloc::vec::IntoIter<T>, (T, A));

// ------------------------------------------------------------------ events (sails' encoding and sending)
pub static mut EVENTS: Vec<io::InvariantEvent> = Vec::new();
/// the events emitted so far
pub fn events() -> &'static Vec<io::InvariantEvent> {
    #[allow(static_mut_refs)]
    #[cfg(verif_mir)]
    unsafe {
        &EVENTS
    }
    #[allow(static_mut_refs)]
    #[cfg(not(verif_mir))]
    unsafe {
        &io::verif::EVENTS
    }
}
pub fn notify_on<T>(s: &mut invariant::verif::InvariantService<T>, ev: io::InvariantEvent) -> sails_rs::errors::Result<()> {
    #[allow(static_mut_refs)]
    unsafe {
        EVENTS.push(ev)
    };
    Ok(())
}

// ------------------------------------------------------------------ messages (gstd's sending, replies and futures)
use crate::net::{Answer, Sent};
use core::pin::Pin;
use core::task::{Context, Poll};
use gstd::msg::CodecMessageFuture;
use sails_rs::{ActorId, MessageId};
raw! {
    /// the value of type D that decoding the answer gives, if it decodes
    pub fn raw_decode<D>(a: Answer) -> Option<D> { loop {} }
    pub fn raw_encode<E>(e: &E) -> Vec<u8> { loop {} }
    pub fn raw_future<D>(id: MessageId, deposit: u64) -> CodecMessageFuture<D> { loop {} }
    pub fn raw_hook_push<F>(id: MessageId, f: F, run: fn(F)) { loop {} }
    pub fn raw_hook_has(id: MessageId) -> bool { loop {} }
    pub fn raw_hook_run(id: MessageId) { loop {} }
    pub fn raw_deposit<D>(f: &CodecMessageFuture<D>) -> u64 { loop {} }
    pub fn raw_error(variant: &'static str) -> gstd::errors::Error { loop {} }
}
pub fn run_hook(id: MessageId) {
    if raw_hook_has(id) {
        raw_hook_run(id)
    }
}
fn call<F: FnOnce()>(f: F) {
    f()
}
#[allow(static_mut_refs)]
pub fn msg_send<T: AsRef<[u8]>, D>(program: ActorId, payload: T, gas: u64, value: u128, deposit: u64) -> gstd::errors::Result<CodecMessageFuture<D>> {
    let n = unsafe { crate::net::SENT.len() };
    if crate::vk::get_env("send_fails_at") == n as u128 + 1 {
        return Err(raw_error("Core"));
    }
    let id = crate::net::mid(n as u8);
    unsafe { crate::net::SENT.push(Sent { to: program, payload: to_vec(payload.as_ref()), gas, value, deposit, id }) };
    Ok(raw_future(id, deposit))
}
pub fn fut_hook<D, F: FnOnce() + 'static>(fut: CodecMessageFuture<D>, f: F) -> gstd::errors::Result<CodecMessageFuture<D>> {
    if raw_deposit(&fut) == 0 {
        return Err(raw_error("Gstd"));
    }
    raw_hook_push(fut.waiting_reply_to, f, call::<F>);
    Ok(fut)
}
#[allow(static_mut_refs)]
pub fn fut_poll<D>(fut: Pin<&mut CodecMessageFuture<D>>, cx: &mut Context<'_>) -> Poll<gstd::errors::Result<D>> {
    if crate::vk::get_env("expired") == 1 {
        return Poll::Ready(Err(raw_error("Timeout")));
    }
    let id = fut.waiting_reply_to;
    let all = unsafe { &crate::net::DELIVERED };
    let mut i = 0;
    while i < all.len() {
        if all[i].0 == id {
            let a = all[i].1;
            if a.failed {
                return Poll::Ready(Err(raw_error("ErrorReply")));
            }
            return Poll::Ready(match raw_decode(a) {
                Some(x) => Ok(x),
                None => Err(raw_error("Decode")),
            });
        }
        i += 1;
    }
    Poll::Pending
}
#[allow(static_mut_refs)]
pub fn msg_load<D>() -> gstd::errors::Result<D> {
    match raw_decode(unsafe { crate::net::CURRENT }) {
        Some(x) => Ok(x),
        None => Err(raw_error("Decode")),
    }
}
#[allow(static_mut_refs)]
pub fn msg_reply<E>(payload: E, value: u128) -> gstd::errors::Result<MessageId> {
    unsafe { crate::net::REPLIES.push((raw_encode(&payload), value)) };
    Ok(crate::net::mid(99))
}

// the standard library's map (the SDK's tick map), as the same association list
fn std_ref<K, V, S>(m: &std::collections::HashMap<K, V, S>) -> &HashMap<K, V, S> {
    unsafe { &*(m as *const std::collections::HashMap<K, V, S> as *const HashMap<K, V, S>) }
}
fn std_mut<K, V, S>(m: &mut std::collections::HashMap<K, V, S>) -> &mut HashMap<K, V, S> {
    unsafe { &mut *(m as *mut std::collections::HashMap<K, V, S> as *mut HashMap<K, V, S>) }
}
pub fn std_get<K, V, S, A, Q: ?Sized + PartialEq>(m: &std::collections::HashMap<K, V, S>, k: &Q) -> Option<&'static V>
where
    K: Borrow<Q>,
{
    match find(std_ref(m), k) {
        Some(i) => Some(unsafe { &*(raw_map_val(std_ref(m), i) as *const V) }),
        None => None,
    }
}
pub fn std_contains_key<K, V, S, A, Q: ?Sized + PartialEq>(m: &std::collections::HashMap<K, V, S>, k: &Q) -> bool
where
    K: Borrow<Q>,
{
    find(std_ref(m), k).is_some()
}
pub fn std_insert<K: PartialEq, V, S, A>(m: &mut std::collections::HashMap<K, V, S>, k: K, v: V) -> Option<V> {
    match find(std_ref(m), &k) {
        Some(i) => Some(core::mem::replace(raw_map_val_mut(std_mut(m), i), v)),
        None => {
            raw_map_push(std_mut(m), k, v);
            None
        }
    }
}

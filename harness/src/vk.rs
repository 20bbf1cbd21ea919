//! The verification kit: what a harness says to the engine, with a native meaning for replay.
//! With cfg(verif_mir) every function marked "engine" is interpreted by the engine by its name.
#![allow(unused_variables)]

use core::cmp::Ordering;

#[cfg(not(verif_mir))]
pub mod native {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        pub static INPUT: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new());
        pub static ENV: RefCell<HashMap<&'static str, u128>> = RefCell::new(HashMap::new());
        pub static COUNT: RefCell<HashMap<String, usize>> = RefCell::new(HashMap::new());
        pub static CATCH: RefCell<usize> = RefCell::new(0);
        pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    }
    pub fn env(n: &str) -> u128 {
        ENV.with(|e| e.borrow().get(n).copied().unwrap_or(0))
    }
    pub fn bump(n: &'static str) {
        ENV.with(|e| *e.borrow_mut().entry(n).or_insert(0) += 1)
    }
    unsafe fn hash(p: *mut gsys::Hash, n: &str) {
        let b = p as *mut u8;
        for i in 0..32 {
            *b.add(i) = 0;
        }
        *b = env(n) as u8;
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_source(p: *mut gsys::Hash) { hash(p, "source") }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_program_id(p: *mut gsys::Hash) { hash(p, "program_id") }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_message_id(p: *mut gsys::Hash) { hash(p, "id") }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_block_timestamp(p: *mut u64) { *p = env("block_timestamp") as u64 }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_block_height(p: *mut u32) { *p = env("block_height") as u32 }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_gas_available(p: *mut u64) { *p = env("gas_available") as u64 }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_value(p: *mut u128) { *p = env("value") }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_leave() { bump("left"); panic!("exec::leave") }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_debug(_: *const u8, _: u32) {}
    macro_rules! todo_sys { ($($n:ident),*) => { $(#[no_mangle] unsafe extern "C-unwind" fn $n() { panic!(concat!("not replayable natively: ", stringify!($n))) })* } }
    todo_sys!(gr_reply_wgas, gr_send, gr_wait, gr_wait_for, gr_wait_up_to,
        gr_signal_code, gr_signal_from, gr_exit, gr_panic, gr_oom_panic, gr_random, gr_env_vars, gr_system_reserve_gas, gr_reserve_gas, gr_unreserve_gas, gr_value_available);
    pub fn noop() -> std::task::Waker {
        use std::task::*;
        static V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
        unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) }
    }
    pub fn next(name: &str) -> String {
        let k = COUNT.with(|c| {
            let mut c = c.borrow_mut();
            let e = c.entry(name.to_string()).or_insert(0);
            *e += 1;
            *e - 1
        });
        INPUT.with(|i| i.borrow().get(&format!("{name}#{k}")).cloned().unwrap_or_else(|| "0".into()))
    }
}

/// engine: the environment of the current message (block_timestamp, source, value, ...) and counters
#[inline(never)]
pub fn set_env(name: &'static str, v: u128) {
    #[cfg(not(verif_mir))]
    native::ENV.with(|e| {
        e.borrow_mut().insert(name, v);
    });
}
#[inline(never)]
pub fn get_env(name: &'static str) -> u128 {
    #[cfg(not(verif_mir))]
    return native::env(name);
    #[cfg(verif_mir)]
    loop {}
}

/// Types `any` can produce.
pub trait Prim: Sized {
    fn parse(s: &str) -> Self;
}
macro_rules! prim { ($($t:ty),*) => { $(impl Prim for $t { fn parse(s: &str) -> Self { s.parse().unwrap() } })* } }
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Prim for bool {
    fn parse(s: &str) -> Self {
        s == "1" || s == "true"
    }
}
impl Prim for sails_rs::U256 {
    fn parse(s: &str) -> Self {
        Self::from_dec_str(s).unwrap()
    }
}
macro_rules! primu { ($($t:ty),*) => { $(impl Prim for $t { fn parse(s: &str) -> Self { Self::from_dec_str(s).unwrap() } })* } }
primu!(decimal::U128, decimal::U192, decimal::U320, decimal::U384, decimal::U448, decimal::U512);
primu!(decimal_sdk::U128, decimal_sdk::U192, decimal_sdk::U256, decimal_sdk::U320, decimal_sdk::U384, decimal_sdk::U448, decimal_sdk::U512);

/// engine: an arbitrary value of the type
#[inline(never)]
pub fn any<T: Prim>(name: &'static str) -> T {
    #[cfg(not(verif_mir))]
    return T::parse(&native::next(name));
    #[cfg(verif_mir)]
    loop {}
}

/// engine: restrict to inputs where `c` holds
#[inline(never)]
pub fn assume(c: bool) {
    #[cfg(not(verif_mir))]
    if !c {
        println!("ASSUME-FALSE");
        std::process::exit(77);
    }
}

/// engine: the property
#[inline(never)]
pub fn check(c: bool, label: &'static str) {
    #[cfg(not(verif_mir))]
    if !c {
        println!("CHECK-FAILED {label}");
        std::process::exit(42);
    }
}

/// engine: a lemma: proved first, then available to the following checks. No meaning natively.
#[inline(never)]
pub fn lemma(c: bool) {}

/// engine: this point must be reachable (vacuity witness)
#[inline(never)]
pub fn reach(label: &'static str) {
    #[cfg(not(verif_mir))]
    println!("REACHED {label}");
}

/// engine: make `v` concrete by case distinction (at most `max` cases)
#[inline(never)]
pub fn cases(v: i128, max: u32) -> i128 {
    v
}

/// engine: force a case distinction on a boolean now
#[inline(never)]
pub fn split(c: bool) -> bool {
    c
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Panicked;

/// engine: run `f`; a panic inside gives Err.
#[inline(never)]
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Result<R, Panicked> {
    #[cfg(not(verif_mir))]
    {
        native::CATCH.with(|c| *c.borrow_mut() += 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        native::CATCH.with(|c| *c.borrow_mut() -= 1);
        r.map_err(|_| Panicked)
    }
    #[cfg(verif_mir)]
    {
        catch_begin();
        let r = f();
        catch_end();
        Ok(r)
    }
}
#[inline(never)]
pub fn catch_begin() {}
#[inline(never)]
pub fn catch_end() {}

// ------------------------------------------------------------------ unbounded integers
#[cfg(not(verif_mir))]
mod big {
    //! plain fixed-width integers, wide enough for every specification here (overflow panics)
    use core::cmp::Ordering;
    pub const N: usize = 48;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct B(pub [u64; N]);
    impl B {
        pub fn zero() -> B {
            B([0; N])
        }
        pub fn one() -> B {
            B::from(1u8)
        }
        pub fn is_zero(&self) -> bool {
            self.0.iter().all(|x| *x == 0)
        }
        pub fn divmod(self, d: B) -> (B, B) {
            let (mut q, mut r) = (B::zero(), B::zero());
            let mut top = N;
            while top > 0 && self.0[top - 1] == 0 {
                top -= 1;
            }
            for i in (0..top * 64).rev() {
                r = r + r;
                r.0[0] |= (self.0[i / 64] >> (i % 64)) & 1;
                if r >= d {
                    r = r - d;
                    q.0[i / 64] |= 1 << (i % 64);
                }
            }
            (q, r)
        }
    }
    macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for B { fn from(v: $t) -> B {
        let mut b = B::zero();
        b.0[0] = v as u128 as u64;
        b.0[1] = (v as u128 >> 64) as u64;
        b
    } })* } }
    from!(u8, u16, u32, u64, u128, usize);
    impl PartialOrd for B {
        fn partial_cmp(&self, o: &B) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for B {
        fn cmp(&self, o: &B) -> Ordering {
            for i in (0..N).rev() {
                if self.0[i] != o.0[i] {
                    return self.0[i].cmp(&o.0[i]);
                }
            }
            Ordering::Equal
        }
    }
    impl core::ops::Add for B {
        type Output = B;
        fn add(self, o: B) -> B {
            let (mut r, mut c) = (B::zero(), 0u128);
            for i in 0..N {
                c += self.0[i] as u128 + o.0[i] as u128;
                r.0[i] = c as u64;
                c >>= 64;
            }
            assert!(c == 0);
            r
        }
    }
    impl core::ops::Sub for B {
        type Output = B;
        fn sub(self, o: B) -> B {
            let (mut r, mut c) = (B::zero(), 0i128);
            for i in 0..N {
                c += self.0[i] as i128 - o.0[i] as i128;
                r.0[i] = c as u64;
                c >>= 64;
            }
            assert!(c == 0);
            r
        }
    }
    impl core::ops::Mul for B {
        type Output = B;
        fn mul(self, o: B) -> B {
            let mut r = B::zero();
            for i in 0..N {
                if self.0[i] == 0 {
                    continue;
                }
                let mut c = 0u128;
                for j in 0..N {
                    if i + j >= N {
                        assert!(c == 0 && o.0[j] == 0);
                        continue;
                    }
                    c += self.0[i] as u128 * o.0[j] as u128 + r.0[i + j] as u128;
                    r.0[i + j] = c as u64;
                    c >>= 64;
                }
                assert!(c == 0);
            }
            r
        }
    }
    impl core::ops::Div for B {
        type Output = B;
        fn div(self, o: B) -> B {
            self.divmod(o).0
        }
    }
    impl core::ops::Rem for B {
        type Output = B;
        fn rem(self, o: B) -> B {
            self.divmod(o).1
        }
    }
}

/// An unbounded integer of the specification (engine: SMT Int).
#[derive(Clone, Copy)]
pub struct Z {
    #[cfg(not(verif_mir))]
    neg: bool,
    #[cfg(not(verif_mir))]
    m: big::B,
    #[cfg(verif_mir)]
    _x: u8,
}

pub trait ToZ: Copy {
    fn z(self) -> Z;
}

#[cfg(not(verif_mir))]
mod zimpl {
    use super::*;
    pub fn n(neg: bool, m: big::B) -> Z {
        Z { neg: neg && !m.is_zero(), m }
    }
    pub fn limbs(l: &[u64]) -> Z {
        let mut b = big::B::zero();
        b.0[..l.len()].copy_from_slice(l);
        n(false, b)
    }
    pub fn add(a: Z, b: Z) -> Z {
        if a.neg == b.neg {
            n(a.neg, a.m + b.m)
        } else if a.m >= b.m {
            n(a.neg, a.m - b.m)
        } else {
            n(b.neg, b.m - a.m)
        }
    }
    pub fn mul(a: Z, b: Z) -> Z {
        n(a.neg != b.neg, a.m * b.m)
    }
    pub fn div(a: Z, b: Z) -> Z {
        // floor division, positive divisor
        assert!(!b.neg && !b.m.is_zero());
        let q = a.m / b.m;
        if a.neg && !(a.m % b.m).is_zero() {
            n(true, q + big::B::one())
        } else {
            n(a.neg, q)
        }
    }
    pub fn cmp(a: Z, b: Z) -> Ordering {
        match (a.neg, b.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => a.m.cmp(&b.m),
            (true, true) => b.m.cmp(&a.m),
        }
    }
}

// engine intrinsics on Z
#[inline(never)]
pub fn z_of<T: Copy + ZRaw>(v: T) -> Z {
    #[cfg(not(verif_mir))]
    return v.raw();
    #[cfg(verif_mir)]
    loop {}
}
macro_rules! zop { ($n:ident) => {
    #[inline(never)]
    pub fn $n(a: Z, b: Z) -> Z {
        #[cfg(not(verif_mir))]
        return zop_native::$n(a, b);
        #[cfg(verif_mir)]
        loop {}
    }
} }
#[cfg(not(verif_mir))]
mod zop_native {
    use super::*;
    pub fn z_add(a: Z, b: Z) -> Z { zimpl::add(a, b) }
    pub fn z_sub(a: Z, b: Z) -> Z { zimpl::add(a, zimpl::n(!b.neg, b.m)) }
    pub fn z_mul(a: Z, b: Z) -> Z { zimpl::mul(a, b) }
    pub fn z_div(a: Z, b: Z) -> Z { zimpl::div(a, b) }
}
zop!(z_add);
zop!(z_sub);
zop!(z_mul);
zop!(z_div);
#[inline(never)]
pub fn z_le(a: Z, b: Z) -> bool {
    #[cfg(not(verif_mir))]
    return zimpl::cmp(a, b) != Ordering::Greater;
    #[cfg(verif_mir)]
    loop {}
}
#[inline(never)]
pub fn z_eq(a: Z, b: Z) -> bool {
    #[cfg(not(verif_mir))]
    return zimpl::cmp(a, b) == Ordering::Equal;
    #[cfg(verif_mir)]
    loop {}
}
/// engine: adds the tautology  (a >= 0 and b >= 0) implies a*b >= 0  to the solver's facts
#[inline(never)]
pub fn z_posmul(a: Z, b: Z) {}

pub trait ZRaw {
    #[cfg(not(verif_mir))]
    fn raw(self) -> Z;
}
macro_rules! zu { ($($t:ty),*) => { $(impl ZRaw for $t { #[cfg(not(verif_mir))] fn raw(self) -> Z { zimpl::n(false, big::B::from(self)) } } impl ToZ for $t { fn z(self) -> Z { z_of(self) } })* } }
zu!(u8, u16, u32, u64, u128, usize);
macro_rules! zi { ($($t:ty),*) => { $(impl ZRaw for $t { #[cfg(not(verif_mir))] fn raw(self) -> Z { zimpl::n(self < 0, big::B::from(self.unsigned_abs())) } } impl ToZ for $t { fn z(self) -> Z { z_of(self) } })* } }
zi!(i8, i16, i32, i64, i128, isize);
macro_rules! zb { ($($t:ty),*) => { $(impl ZRaw for $t { #[cfg(not(verif_mir))] fn raw(self) -> Z { zimpl::limbs(&self.0) } } impl ToZ for $t { fn z(self) -> Z { z_of(self) } })* } }
zb!(sails_rs::U256, decimal::U128, decimal::U192, decimal::U320, decimal::U384, decimal::U448, decimal::U512);
zb!(decimal_sdk::U128, decimal_sdk::U192, decimal_sdk::U256, decimal_sdk::U320, decimal_sdk::U384, decimal_sdk::U448, decimal_sdk::U512);
impl ToZ for Z {
    fn z(self) -> Z { self }
}

pub fn z<T: ToZ>(v: T) -> Z { v.z() }
pub fn pow10(n: u32) -> Z {
    let mut r = z(1u8);
    let mut i = 0;
    while i < n {
        r = r * z(10u8);
        i += 1;
    }
    r
}
pub fn pow2(n: u32) -> Z {
    let mut r = z(1u8);
    let mut i = 0;
    while i < n {
        r = r * z(2u8);
        i += 1;
    }
    r
}
/// ceiling division by a positive divisor
pub fn z_divup(a: Z, b: Z) -> Z { z_div(a + b - z(1u8), b) }

impl core::ops::Add for Z { type Output = Z; fn add(self, o: Z) -> Z { z_add(self, o) } }
impl core::ops::Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { z_sub(self, o) } }
impl core::ops::Mul for Z { type Output = Z; fn mul(self, o: Z) -> Z { z_mul(self, o) } }
impl core::ops::Div for Z { type Output = Z; fn div(self, o: Z) -> Z { z_div(self, o) } }
impl PartialEq for Z { fn eq(&self, o: &Z) -> bool { z_eq(*self, *o) } }
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        if z_eq(*self, *o) { Some(Ordering::Equal) } else if z_le(*self, *o) { Some(Ordering::Less) } else { Some(Ordering::Greater) }
    }
    fn le(&self, o: &Z) -> bool { z_le(*self, *o) }
    fn lt(&self, o: &Z) -> bool { !z_le(*o, *self) }
    fn ge(&self, o: &Z) -> bool { z_le(*o, *self) }
    fn gt(&self, o: &Z) -> bool { !z_le(*self, *o) }
}
/// logical connectives that do not fork in the engine
#[inline(never)]
pub fn and(a: bool, b: bool) -> bool { a & b }
#[inline(never)]
pub fn or(a: bool, b: bool) -> bool { a | b }
#[inline(never)]
pub fn implies(a: bool, b: bool) -> bool { !a | b }
#[inline(never)]
pub fn iff(a: bool, b: bool) -> bool { a == b }

/// poll a future once with a waker that does nothing
pub fn poll_pin<F: core::future::Future>(f: core::pin::Pin<&mut F>) -> Option<F::Output> {
    #[cfg(verif_mir)]
    let w = core::task::Waker::noop();
    #[cfg(not(verif_mir))]
    let w = &native::noop();
    let mut cx = core::task::Context::from_waker(w);
    match f.poll(&mut cx) {
        core::task::Poll::Ready(x) => Some(x),
        core::task::Poll::Pending => None,
    }
}
pub fn poll_once<F: core::future::Future>(f: F) -> Option<F::Output> {
    let mut f = f;
    poll_pin(unsafe { core::pin::Pin::new_unchecked(&mut f) })
}

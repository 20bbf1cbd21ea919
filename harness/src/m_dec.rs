//! Fixed-point arithmetic and integer casts: the exact rounded value, or a failure, never something else.
use crate::kit::*;
use crate::vk::*;
use decimal::{UintCast, UintCheckedCast, U128, U192, U320, U384, U448, U512};

fn pick(n: u8) -> i128 {
    let op = any::<u8>("op");
    assume(op < n);
    cases(op as i128, n as u32)
}
fn cast<A: Prim + ToZ + Copy, B: UintCast<A> + UintCheckedCast<A> + ToZ + Copy>(bits: u32) {
    let a = any::<A>("a");
    match B::uint_checked_cast(a) {
        Ok(b) => {
            check(z(b) == z(a), "a cast keeps the value");
            let c = catch(|| B::uint_cast(a));
            check(c.is_ok(), "the unchecked cast agrees with the checked one");
            if let Ok(c) = c {
                check(z(c) == z(a), "the unchecked cast keeps the value");
            }
        }
        Err(_) => {
            check(z(a) >= pow2(bits), "a cast is refused only when the value does not fit");
            check(catch(|| B::uint_cast(a)).is_err(), "the unchecked cast refuses what the checked one refuses");
        }
    }
}
pub fn h_cast_small() {
    match pick(18) {
        0 => cast::<U512, u8>(8),
        1 => cast::<U512, u16>(16),
        2 => cast::<U512, u32>(32),
        3 => cast::<U512, u64>(64),
        4 => cast::<U512, u128>(128),
        5 => cast::<U448, u8>(8),
        6 => cast::<U448, u16>(16),
        7 => cast::<U448, u32>(32),
        8 => cast::<U448, u64>(64),
        9 => cast::<U448, u128>(128),
        10 => cast::<U384, u8>(8),
        11 => cast::<U384, u16>(16),
        12 => cast::<U384, u32>(32),
        13 => cast::<U384, u64>(64),
        14 => cast::<U384, u128>(128),
        15 => cast::<U320, u8>(8),
        16 => cast::<U320, u16>(16),
        _ => cast::<U320, u32>(32),
    }
}
pub fn h_cast_small_more() {
    match pick(17) {
        0 => cast::<U320, u64>(64),
        1 => cast::<U320, u128>(128),
        2 => cast::<U256, u8>(8),
        3 => cast::<U256, u16>(16),
        4 => cast::<U256, u32>(32),
        5 => cast::<U256, u64>(64),
        6 => cast::<U256, u128>(128),
        7 => cast::<U192, u8>(8),
        8 => cast::<U192, u16>(16),
        9 => cast::<U192, u32>(32),
        10 => cast::<U192, u64>(64),
        11 => cast::<U192, u128>(128),
        12 => cast::<U128, u8>(8),
        13 => cast::<U128, u16>(16),
        14 => cast::<U128, u32>(32),
        15 => cast::<U128, u64>(64),
        _ => cast::<U128, u128>(128),
    }
}
pub fn h_cast_down() {
    match pick(21) {
        0 => cast::<U512, U448>(448),
        1 => cast::<U512, U384>(384),
        2 => cast::<U512, U320>(320),
        3 => cast::<U512, U256>(256),
        4 => cast::<U512, U192>(192),
        5 => cast::<U512, U128>(128),
        6 => cast::<U448, U384>(384),
        7 => cast::<U448, U320>(320),
        8 => cast::<U448, U256>(256),
        9 => cast::<U448, U192>(192),
        10 => cast::<U448, U128>(128),
        11 => cast::<U384, U320>(320),
        12 => cast::<U384, U256>(256),
        13 => cast::<U384, U192>(192),
        14 => cast::<U384, U128>(128),
        15 => cast::<U320, U256>(256),
        16 => cast::<U320, U192>(192),
        17 => cast::<U320, U128>(128),
        18 => cast::<U256, U192>(192),
        19 => cast::<U256, U128>(128),
        _ => cast::<U192, U128>(128),
    }
}
pub fn h_cast_up() {
    match pick(21) {
        0 => cast::<U448, U512>(512),
        1 => cast::<U384, U512>(512),
        2 => cast::<U320, U512>(512),
        3 => cast::<U256, U512>(512),
        4 => cast::<U192, U512>(512),
        5 => cast::<U128, U512>(512),
        6 => cast::<U384, U448>(448),
        7 => cast::<U320, U448>(448),
        8 => cast::<U256, U448>(448),
        9 => cast::<U192, U448>(448),
        10 => cast::<U128, U448>(448),
        11 => cast::<U320, U384>(384),
        12 => cast::<U256, U384>(384),
        13 => cast::<U192, U384>(384),
        14 => cast::<U128, U384>(384),
        15 => cast::<U256, U320>(320),
        16 => cast::<U192, U320>(320),
        17 => cast::<U128, U320>(320),
        18 => cast::<U192, U256>(256),
        19 => cast::<U128, U256>(256),
        _ => cast::<U128, U192>(192),
    }
}
pub fn h_cast_widen() {
    match pick(34) {
        0 => cast::<u8, U512>(512),
        1 => cast::<u16, U512>(512),
        2 => cast::<u32, U512>(512),
        3 => cast::<u64, U512>(512),
        4 => cast::<u128, U512>(512),
        5 => cast::<u8, U448>(448),
        6 => cast::<u16, U448>(448),
        7 => cast::<u32, U448>(448),
        8 => cast::<u64, U448>(448),
        9 => cast::<u128, U448>(448),
        10 => cast::<u8, U384>(384),
        11 => cast::<u16, U384>(384),
        12 => cast::<u32, U384>(384),
        13 => cast::<u64, U384>(384),
        14 => cast::<u128, U384>(384),
        15 => cast::<u8, U320>(320),
        16 => cast::<u16, U320>(320),
        17 => cast::<u32, U320>(320),
        18 => cast::<u64, U320>(320),
        19 => cast::<u128, U320>(320),
        20 => cast::<u8, U256>(256),
        21 => cast::<u16, U256>(256),
        22 => cast::<u32, U256>(256),
        23 => cast::<u64, U256>(256),
        24 => cast::<u128, U256>(256),
        25 => cast::<u8, U192>(192),
        26 => cast::<u16, U192>(192),
        27 => cast::<u32, U192>(192),
        28 => cast::<u64, U192>(192),
        29 => cast::<u128, U192>(192),
        30 => cast::<u8, U128>(128),
        31 => cast::<u16, U128>(128),
        32 => cast::<u32, U128>(128),
        _ => cast::<u64, U128>(128),
    }
}
/// the widening helpers kept beside the casts
pub fn h_cast_named() {
    match pick(3) {
        0 => {
            let a = any::<U320>("a");
            match decimal::checked_u320_to_u256(a) {
                Some(b) => {
                    reach("fits");
                    check(z(b) == z(a), "the same number");
                }
                None => check(z(a) >= pow2(256), "refused only when it does not fit"),
            }
        }
        1 => {
            let a = any::<u128>("a");
            check(z(decimal::to_u256(a)) == z(a), "the same number");
        }
        _ => {
            let a = any::<U256>("a");
            check(z(decimal::u256_to_u320(a)) == z(a), "the same number");
        }
    }
}

fn val<D: Decimal>(d: D) -> Z
where
    D::U: ToZ,
{
    z(d.get())
}
fn lo(r: Z, n: Z, d: Z) {
    check(r * d <= n, "not above the exact value");
    check((r + z(1u8)) * d > n, "less than one unit below the exact value");
}
fn hi(r: Z, n: Z, d: Z) {
    check(r * d >= n, "not below the exact value");
    check((r - z(1u8)) * d < n, "less than one unit above the exact value");
}
/// an operation in wide arithmetic (`big` bits in between, `bits` for the result) fails only for want of room
fn fails(n: Z, d: Z, bits: u32, big: u32) {
    check(or(d == z(0u8), or(n >= pow2(bits) * d - d, n >= pow2(big) - d - pow10(28))), "fails only when the value does not fit or the divisor is zero");
}
fn big<A, B>(big: u32, bits: u32, ops: u8)
where
    A: Decimal + Conversion + BigOps<B> + Copy,
    B: Decimal + Conversion + Copy,
    A::U: Prim + ToZ,
    B::U: Prim + ToZ,
{
    let a = A::new(any::<A::U>("a"));
    let b = B::new(any::<B::U>("b"));
    let one = pow10(B::scale() as u32);
    let (x, y) = (val(a), val(b));
    match pick(ops) {
        0 => match catch(|| a.big_mul(b)) {
            Ok(r) => {
                reach("product");
                lo(val(r), x * y, one)
            }
            Err(_) => fails(x * y, one, bits, big),
        },
        1 => match catch(|| a.big_mul_up(b)) {
            Ok(r) => hi(val(r), x * y, one),
            Err(_) => fails(x * y, one, bits, big),
        },
        2 => match catch(|| a.big_div(b)) {
            Ok(r) => {
                reach("quotient");
                lo(val(r), x * one, y)
            }
            Err(_) => fails(x * one, y, bits, big),
        },
        3 => match catch(|| a.checked_big_div(b)) {
            Ok(Ok(r)) => lo(val(r), x * one, y),
            Ok(Err(_)) => fails(x * one, y, bits, big),
            Err(_) => check(false, "a checked division does not panic"),
        },
        _ => match catch(|| a.big_div_up(b)) {
            Ok(r) => hi(val(r), x * one, y),
            Err(_) => fails(x * one, y, bits, big),
        },
    }
}
pub fn h_big_price_price() {
    big::<SqrtPrice, SqrtPrice>(384, 128, 5)
}
pub fn h_big_amount_pct() {
    big::<TokenAmount, Percentage>(512, 256, 5)
}
pub fn h_big_amount_price() {
    big::<TokenAmount, SqrtPrice>(512, 256, 5)
}
pub fn h_big_pct_pct() {
    big::<Percentage, Percentage>(256, 128, 5)
}
pub fn h_big_liq_price() {
    big::<Liquidity, SqrtPrice>(512, 256, 5)
}

fn plain<A, B>(bits: u32, ops: u8)
where
    A: Decimal + core::ops::Mul<B, Output = A> + core::ops::Div<B, Output = A> + Others<B> + Copy,
    B: Decimal + Copy,
    A::U: Prim + ToZ,
    B::U: Prim + ToZ,
{
    let a = A::new(any::<A::U>("a"));
    let b = B::new(any::<B::U>("b"));
    let one = pow10(B::scale() as u32);
    let (x, y) = (val(a), val(b));
    match pick(ops) {
        0 => match catch(|| a * b) {
            Ok(r) => {
                reach("product");
                lo(val(r), x * y, one)
            }
            Err(_) => fails(x * y, one, bits, bits),
        },
        1 => match catch(|| a.mul_up(b)) {
            Ok(r) => hi(val(r), x * y, one),
            Err(_) => fails(x * y, one, bits, bits),
        },
        2 => match catch(|| a / b) {
            Ok(r) => {
                reach("quotient");
                lo(val(r), x * one, y)
            }
            Err(_) => fails(x * one, y, bits, bits),
        },
        _ => match catch(|| a.div_up(b)) {
            Ok(r) => hi(val(r), x * one, y),
            Err(_) => fails(x * one, y, bits, bits),
        },
    }
}
pub fn h_plain_pct_pct() {
    plain::<Percentage, Percentage>(128, 4)
}
pub fn h_plain_fixed_fixed() {
    plain::<FixedPoint, FixedPoint>(128, 4)
}
pub fn h_plain_price_fixed() {
    plain::<SqrtPrice, FixedPoint>(128, 4)
}
pub fn h_plain_amount_pct() {
    plain::<TokenAmount, Percentage>(256, 4)
}

fn addsub<A>(bits: u32)
where
    A: Decimal + core::ops::Add<Output = A> + core::ops::Sub<Output = A> + core::ops::AddAssign + core::ops::SubAssign + CheckedOps + OthersSameType + Copy,
    A::U: Prim + ToZ,
{
    let a = A::new(any::<A::U>("a"));
    let b = A::new(any::<A::U>("b"));
    let (x, y) = (val(a), val(b));
    let op = pick(8);
    let one = pow10(A::scale() as u32);
    match op {
        5 => match catch(|| {
            let mut c = a;
            c += b;
            c
        }) {
            Ok(r) => check(val(r) == x + y, "sum in place"),
            Err(_) => check(x + y >= pow2(bits), "refused only on overflow"),
        },
        6 => match catch(|| {
            let mut c = a;
            c -= b;
            c
        }) {
            Ok(r) => check(val(r) == x - y, "difference in place"),
            Err(_) => check(x < y, "refused only when negative"),
        },
        7 => match catch(|| a.checked_div(b)) {
            Ok(Ok(r)) => {
                reach("checked quotient");
                lo(val(r), x * one, y)
            }
            Ok(Err(_)) => fails(x * one, y, bits, bits),
            Err(_) => check(false, "a checked quotient does not panic"),
        },
        0 | 1 => {
            let r = catch(|| if op == 0 { Ok(a + b) } else { a.checked_add(b) });
            match r {
                Ok(Ok(r)) => {
                    reach("sum");
                    check(val(r) == x + y, "sum")
                }
                Ok(Err(_)) => check(x + y >= pow2(bits), "refused only on overflow"),
                Err(_) => {
                    check(op == 0, "a checked sum does not panic");
                    check(x + y >= pow2(bits), "refused only on overflow")
                }
            }
        }
        2 | 3 => {
            let r = catch(|| if op == 2 { Ok(a - b) } else { a.checked_sub(b) });
            match r {
                Ok(Ok(r)) => {
                    reach("difference");
                    check(val(r) == x - y, "difference")
                }
                Ok(Err(_)) => check(x < y, "refused only when negative"),
                Err(_) => {
                    check(op == 2, "a checked difference does not panic");
                    check(x < y, "refused only when negative")
                }
            }
        }
        _ => {
            let r = a.sub_abs(b);
            check(or(val(r) == x - y, val(r) == y - x), "distance");
        }
    }
}
pub fn h_addsub_amount() {
    addsub::<TokenAmount>(256)
}
pub fn h_addsub_price() {
    addsub::<SqrtPrice>(128)
}
pub fn h_addsub_liq() {
    addsub::<Liquidity>(256)
}
pub fn h_addsub_pct() {
    addsub::<Percentage>(128)
}

/// results kept in the wide type
fn to_value<A, B, V>(big: u32)
where
    A: Decimal + ToValue<B, V> + Copy,
    B: Decimal + Copy,
    A::U: Prim + ToZ,
    B::U: Prim + ToZ,
    V: ToZ,
{
    let (a, b) = (A::new(any::<A::U>("a")), B::new(any::<B::U>("b")));
    let one = pow10(B::scale() as u32);
    let n = val(a) * val(b);
    match pick(2) {
        0 => match catch(|| a.big_mul_to_value(b)) {
            Ok(r) => {
                reach("product");
                lo(z(r), n, one)
            }
            Err(_) => check(n >= pow2(big), "fails only for want of room"),
        },
        _ => match catch(|| a.big_mul_to_value_up(b)) {
            Ok(r) => hi(z(r), n, one),
            Err(_) => check(n + one >= pow2(big), "fails only for want of room"),
        },
    }
}
pub fn h_value() {
    match pick(4) {
        0 => to_value::<TokenAmount, SqrtPrice, U512>(512),
        1 => to_value::<SqrtPrice, SqrtPrice, U384>(384),
        2 => to_value::<SqrtPrice, TokenAmount, U384>(384),
        _ => to_value::<SqrtPrice, Liquidity, U384>(384),
    }
}
/// divisions by a wide number
fn by_number<A, V>(bits: u32, big: u32)
where
    A: Decimal + ByNumber<V> + Copy,
    A::U: Prim + ToZ,
    V: Prim + ToZ + Copy,
{
    let (a, b) = (A::new(any::<A::U>("a")), any::<V>("b"));
    let n = val(a) * pow10(A::scale() as u32);
    let d = z(b);
    match pick(4) {
        0 => match catch(|| a.big_div_by_number(b)) {
            Ok(r) => lo(val(r), n, d),
            Err(_) => fails(n, d, bits, big),
        },
        1 => match catch(|| a.checked_big_div_by_number(b)) {
            Ok(Ok(r)) => {
                reach("quotient");
                lo(val(r), n, d)
            }
            Ok(Err(_)) => fails(n, d, bits, big),
            Err(_) => check(false, "a checked division does not panic"),
        },
        2 => match catch(|| a.big_div_by_number_up(b)) {
            Ok(r) => hi(val(r), n, d),
            Err(_) => fails(n, d, bits, big),
        },
        _ => match catch(|| a.checked_big_div_by_number_up(b)) {
            Ok(Ok(r)) => hi(val(r), n, d),
            Ok(Err(_)) | Err(_) => fails(n, d, bits, big),
        },
    }
}
pub fn h_by_number() {
    match pick(3) {
        0 => by_number::<SqrtPrice, U384>(128, 384),
        1 => by_number::<TokenAmount, U512>(256, 512),
        _ => by_number::<Liquidity, U512>(256, 512),
    }
}
/// quotients of two wide numbers, as a price or as an amount (through the price's precision)
pub fn h_div_values() {
    let one = pow10(24);
    match pick(5) {
        0 => {
            let (n, d) = (any::<U448>("n"), any::<U448>("d"));
            match catch(|| SqrtPrice::checked_big_div_values(n, d)) {
                Ok(Ok(r)) => {
                    reach("price");
                    lo(val(r), z(n) * one, z(d))
                }
                Ok(Err(_)) => fails(z(n) * one, z(d), 128, 448),
                Err(_) => check(false, "a checked division does not panic"),
            }
        }
        1 => {
            let (n, d) = (any::<U448>("n"), any::<U448>("d"));
            match catch(|| SqrtPrice::checked_big_div_values_up(n, d)) {
                Ok(Ok(r)) => hi(val(r), z(n) * one, z(d)),
                Ok(Err(_)) => check(or(z(d) == z(0u8), or(z(n) * one + z(d) >= pow2(128) * z(d), z(n) * one + z(d) >= pow2(448))), "fails only for want of room"),
                Err(_) => check(false, "a checked division does not panic"),
            }
        }
        2 => {
            let (n, d) = (any::<U384>("n"), any::<U384>("d"));
            match catch(|| SqrtPrice::big_div_values_up(n, d)) {
                Ok(r) => hi(val(r), z(n) * one, z(d)),
                Err(_) => check(or(z(d) == z(0u8), or(z(n) * one + z(d) >= pow2(128) * z(d), z(n) * one + z(d) >= pow2(384))), "fails only for want of room"),
            }
        }
        3 => {
            let (n, d) = (any::<U384>("n"), any::<U384>("d"));
            match catch(|| SqrtPrice::big_div_values_to_token(n, d)) {
                Ok(Ok(r)) => {
                    reach("amount");
                    lo(val(r), z(n), z(d))
                }
                Ok(Err(_)) => check(or(z(d) == z(0u8), or(z(n) * one >= pow2(384) * z(d), or(z(n) * one >= pow2(448), z(n) >= pow2(256) * z(d)))), "fails only for want of room"),
                Err(_) => check(false, "a checked division does not panic"),
            }
        }
        _ => {
            let (n, d) = (any::<U384>("n"), any::<U384>("d"));
            if let Ok(Ok(r)) = catch(|| SqrtPrice::big_div_values_to_token_up(n, d)) {
                reach("amount up");
                let r = val(r);
                check(r * z(d) >= z(n), "not below the exact value");
                check((r - z(1u8)) * one * z(d) < z(n) * one + z(d), "less than one unit above the exact value rounded up at the price's precision");
            }
        }
    }
}

fn scale<A, B>(bits: u32)
where
    A: Decimal + BetweenDecimals<B> + Factories<B::U>,
    B: Decimal + Copy,
    A::U: ToZ,
    B::U: Prim + ToZ,
{
    let b = B::new(any::<B::U>("b"));
    let y = val(b);
    let (sa, sb) = (A::scale() as u32, B::scale() as u32);
    let (n, d) = if sa > sb { (y * pow10(sa - sb), z(1u8)) } else { (y, pow10(sb - sa)) };
    match pick(6) {
        3 => match catch(|| A::from_scale(b.get(), B::scale())) {
            Ok(r) => lo(val(r), n, d),
            Err(_) => fails(n, d, bits, bits),
        },
        4 => match catch(|| A::from_scale_up(b.get(), B::scale())) {
            Ok(r) => hi(val(r), n, d),
            Err(_) => fails(n, d, bits, bits),
        },
        5 => match catch(|| A::from_integer(b.get())) {
            Ok(r) => check(val(r) == y * pow10(sa), "an integer keeps its value"),
            Err(_) => fails(y * pow10(sa), z(1u8), bits, bits),
        },
        0 => match catch(|| A::from_decimal(b)) {
            Ok(r) => {
                reach("rescaled");
                lo(val(r), n, d)
            }
            Err(_) => fails(n, d, bits, bits),
        },
        1 => match catch(|| A::checked_from_decimal(b)) {
            Ok(Ok(r)) => lo(val(r), n, d),
            Ok(Err(_)) | Err(_) => fails(n, d, bits, bits),
        },
        _ => match catch(|| A::from_decimal_up(b)) {
            Ok(r) => hi(val(r), n, d),
            Err(_) => fails(n, d, bits, bits),
        },
    }
}
pub fn h_rescale_price_fixed() {
    scale::<SqrtPrice, FixedPoint>(128)
}
pub fn h_rescale_fixed_price() {
    scale::<FixedPoint, SqrtPrice>(128)
}
pub fn h_rescale_amount_liq() {
    scale::<TokenAmount, Liquidity>(256)
}
pub fn h_rescale_liq_amount() {
    scale::<Liquidity, TokenAmount>(256)
}
/// a change of scale into the wide type
fn scale_to_value<A, B, V>(big: u32)
where
    A: Decimal + BetweenDecimalsToValue<B, V>,
    B: Decimal + Copy,
    B::U: Prim + ToZ,
    V: ToZ,
{
    let b = B::new(any::<B::U>("b"));
    let y = val(b);
    let (sa, sb) = (A::scale() as u32, B::scale() as u32);
    let (n, d) = if sa > sb { (y * pow10(sa - sb), z(1u8)) } else { (y, pow10(sb - sa)) };
    match catch(|| A::checked_from_decimal_to_value(b)) {
        Ok(Ok(r)) => {
            reach("rescaled");
            lo(z(r), n, d)
        }
        Ok(Err(_)) | Err(_) => check(n >= pow2(big), "fails only for want of room"),
    }
}
pub fn h_rescale_value() {
    match pick(3) {
        0 => scale_to_value::<SqrtPrice, Liquidity, U384>(384),
        1 => scale_to_value::<SqrtPrice, TokenAmount, U384>(384),
        _ => scale_to_value::<SqrtPrice, FixedPoint, U384>(384),
    }
}

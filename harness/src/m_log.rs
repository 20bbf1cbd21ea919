//! A price's tick: the greatest tick of the grid whose price is not above it. A tick's price: 1.0001^(tick/2).
use crate::kit::*;
use crate::vk::*;

fn price(t: i32) -> u128 {
    calculate_sqrt_price(t).unwrap().get()
}
/// every price of the ticks from..to (the last price excluded)
fn window(from: i32, to: i32, spacing: u16) {
    let s = spacing as i32;
    let p = any::<u128>("price");
    assume(p >= price(from));
    assume(p < price(to));
    let r = catch(|| get_tick_at_sqrt_price(SqrtPrice::new(p), spacing));
    let t = match r {
        Ok(Ok(t)) => t,
        _ => {
            check(false, "every price in the range has a tick");
            return;
        }
    };
    reach("answered");
    check(t % s == 0, "on the grid");
    check(t >= -MAX_TICK && price(t) <= p, "not above the price");
    check(t + s > MAX_TICK || p < price(t + s), "the greatest such tick");
}
pub fn h_log_zero() {
    window(-40, 40, 1)
}
pub fn h_log_zero_10() {
    window(-60, 70, 10)
}
pub fn h_log_zero_100() {
    window(-100, 100, 100)
}
pub fn h_log_zero_3() {
    window(-40, 41, 3)
}
pub fn h_log_high() {
    window(MAX_TICK - 60, MAX_TICK, 1)
}
pub fn h_log_high_100() {
    window(221700, MAX_TICK, 100)
}
pub fn h_log_low() {
    window(-MAX_TICK, -MAX_TICK + 60, 1)
}
pub fn h_log_low_100() {
    window(-221800, -221690, 100)
}
pub fn h_log_up_a() {
    window(13835, 13895, 1)
}
pub fn h_log_up_b() {
    window(131050, 131110, 2)
}
pub fn h_log_down_a() {
    window(-13895, -13835, 1)
}
pub fn h_log_down_b() {
    window(-131110, -131050, 5)
}
/// places all over the range, at many spacings
fn place(i: i32) {
    let s = [1, 2, 3, 7, 10, 20, 60, 99, 100][(i % 9) as usize];
    let from = -216000 + 10800 * i + 17 * (i % 5);
    window(from, from + if s < 20 { 60 } else { 200 }, s)
}
pub fn h_log_at_0() {
    place(0)
}
pub fn h_log_at_1() {
    place(1)
}
pub fn h_log_at_2() {
    place(2)
}
pub fn h_log_at_3() {
    place(3)
}
pub fn h_log_at_4() {
    place(4)
}
pub fn h_log_at_5() {
    place(5)
}
pub fn h_log_at_6() {
    place(6)
}
pub fn h_log_at_7() {
    place(7)
}
pub fn h_log_at_8() {
    place(8)
}
pub fn h_log_at_9() {
    place(9)
}
pub fn h_log_at_10() {
    place(10)
}
pub fn h_log_at_11() {
    place(11)
}
pub fn h_log_at_12() {
    place(12)
}
pub fn h_log_at_13() {
    place(13)
}
pub fn h_log_at_14() {
    place(14)
}
pub fn h_log_at_15() {
    place(15)
}
pub fn h_log_at_16() {
    place(16)
}
pub fn h_log_at_17() {
    place(17)
}
pub fn h_log_at_18() {
    place(18)
}
pub fn h_log_at_19() {
    place(19)
}
pub fn h_log_at_20() {
    place(20)
}
pub fn h_log_at_21() {
    place(21)
}
pub fn h_log_at_22() {
    place(22)
}
pub fn h_log_at_23() {
    place(23)
}
pub fn h_log_at_24() {
    place(24)
}
pub fn h_log_at_25() {
    place(25)
}
pub fn h_log_at_26() {
    place(26)
}
pub fn h_log_at_27() {
    place(27)
}
pub fn h_log_at_28() {
    place(28)
}
pub fn h_log_at_29() {
    place(29)
}
pub fn h_log_at_30() {
    place(30)
}
pub fn h_log_at_31() {
    place(31)
}
pub fn h_log_at_32() {
    place(32)
}
pub fn h_log_at_33() {
    place(33)
}
pub fn h_log_at_34() {
    place(34)
}
pub fn h_log_at_35() {
    place(35)
}
pub fn h_log_at_36() {
    place(36)
}
pub fn h_log_at_37() {
    place(37)
}
pub fn h_log_at_38() {
    place(38)
}
pub fn h_log_at_39() {
    place(39)
}
pub fn h_log_at_40() {
    place(40)
}
/// the whole range, 4000 ticks at a time
fn sweep(i: i32) {
    let from = -MAX_TICK + 4000 * i;
    window(from, if from + 4000 < MAX_TICK { from + 4000 } else { MAX_TICK }, 1)
}
pub fn h_log_all_0() {
    sweep(0)
}
pub fn h_log_all_1() {
    sweep(1)
}
pub fn h_log_all_2() {
    sweep(2)
}
pub fn h_log_all_3() {
    sweep(3)
}
pub fn h_log_all_4() {
    sweep(4)
}
pub fn h_log_all_5() {
    sweep(5)
}
pub fn h_log_all_6() {
    sweep(6)
}
pub fn h_log_all_7() {
    sweep(7)
}
pub fn h_log_all_8() {
    sweep(8)
}
pub fn h_log_all_9() {
    sweep(9)
}
pub fn h_log_all_10() {
    sweep(10)
}
pub fn h_log_all_11() {
    sweep(11)
}
pub fn h_log_all_12() {
    sweep(12)
}
pub fn h_log_all_13() {
    sweep(13)
}
pub fn h_log_all_14() {
    sweep(14)
}
pub fn h_log_all_15() {
    sweep(15)
}
pub fn h_log_all_16() {
    sweep(16)
}
pub fn h_log_all_17() {
    sweep(17)
}
pub fn h_log_all_18() {
    sweep(18)
}
pub fn h_log_all_19() {
    sweep(19)
}
pub fn h_log_all_20() {
    sweep(20)
}
pub fn h_log_all_21() {
    sweep(21)
}
pub fn h_log_all_22() {
    sweep(22)
}
pub fn h_log_all_23() {
    sweep(23)
}
pub fn h_log_all_24() {
    sweep(24)
}
pub fn h_log_all_25() {
    sweep(25)
}
pub fn h_log_all_26() {
    sweep(26)
}
pub fn h_log_all_27() {
    sweep(27)
}
pub fn h_log_all_28() {
    sweep(28)
}
pub fn h_log_all_29() {
    sweep(29)
}
pub fn h_log_all_30() {
    sweep(30)
}
pub fn h_log_all_31() {
    sweep(31)
}
pub fn h_log_all_32() {
    sweep(32)
}
pub fn h_log_all_33() {
    sweep(33)
}
pub fn h_log_all_34() {
    sweep(34)
}
pub fn h_log_all_35() {
    sweep(35)
}
pub fn h_log_all_36() {
    sweep(36)
}
pub fn h_log_all_37() {
    sweep(37)
}
pub fn h_log_all_38() {
    sweep(38)
}
pub fn h_log_all_39() {
    sweep(39)
}
pub fn h_log_all_40() {
    sweep(40)
}
pub fn h_log_all_41() {
    sweep(41)
}
pub fn h_log_all_42() {
    sweep(42)
}
pub fn h_log_all_43() {
    sweep(43)
}
pub fn h_log_all_44() {
    sweep(44)
}
pub fn h_log_all_45() {
    sweep(45)
}
pub fn h_log_all_46() {
    sweep(46)
}
pub fn h_log_all_47() {
    sweep(47)
}
pub fn h_log_all_48() {
    sweep(48)
}
pub fn h_log_all_49() {
    sweep(49)
}
pub fn h_log_all_50() {
    sweep(50)
}
pub fn h_log_all_51() {
    sweep(51)
}
pub fn h_log_all_52() {
    sweep(52)
}
pub fn h_log_all_53() {
    sweep(53)
}
pub fn h_log_all_54() {
    sweep(54)
}
pub fn h_log_all_55() {
    sweep(55)
}
pub fn h_log_all_56() {
    sweep(56)
}
pub fn h_log_all_57() {
    sweep(57)
}
pub fn h_log_all_58() {
    sweep(58)
}
pub fn h_log_all_59() {
    sweep(59)
}
pub fn h_log_all_60() {
    sweep(60)
}
pub fn h_log_all_61() {
    sweep(61)
}
pub fn h_log_all_62() {
    sweep(62)
}
pub fn h_log_all_63() {
    sweep(63)
}
pub fn h_log_all_64() {
    sweep(64)
}
pub fn h_log_all_65() {
    sweep(65)
}
pub fn h_log_all_66() {
    sweep(66)
}
pub fn h_log_all_67() {
    sweep(67)
}
pub fn h_log_all_68() {
    sweep(68)
}
pub fn h_log_all_69() {
    sweep(69)
}
pub fn h_log_all_70() {
    sweep(70)
}
pub fn h_log_all_71() {
    sweep(71)
}
pub fn h_log_all_72() {
    sweep(72)
}
pub fn h_log_all_73() {
    sweep(73)
}
pub fn h_log_all_74() {
    sweep(74)
}
pub fn h_log_all_75() {
    sweep(75)
}
pub fn h_log_all_76() {
    sweep(76)
}
pub fn h_log_all_77() {
    sweep(77)
}
pub fn h_log_all_78() {
    sweep(78)
}
pub fn h_log_all_79() {
    sweep(79)
}
pub fn h_log_all_80() {
    sweep(80)
}
pub fn h_log_all_81() {
    sweep(81)
}
pub fn h_log_all_82() {
    sweep(82)
}
pub fn h_log_all_83() {
    sweep(83)
}
pub fn h_log_all_84() {
    sweep(84)
}
pub fn h_log_all_85() {
    sweep(85)
}
pub fn h_log_all_86() {
    sweep(86)
}
pub fn h_log_all_87() {
    sweep(87)
}
pub fn h_log_all_88() {
    sweep(88)
}
pub fn h_log_all_89() {
    sweep(89)
}
pub fn h_log_all_90() {
    sweep(90)
}
pub fn h_log_all_91() {
    sweep(91)
}
pub fn h_log_all_92() {
    sweep(92)
}
pub fn h_log_all_93() {
    sweep(93)
}
pub fn h_log_all_94() {
    sweep(94)
}
pub fn h_log_all_95() {
    sweep(95)
}
pub fn h_log_all_96() {
    sweep(96)
}
pub fn h_log_all_97() {
    sweep(97)
}
pub fn h_log_all_98() {
    sweep(98)
}
pub fn h_log_all_99() {
    sweep(99)
}
pub fn h_log_all_100() {
    sweep(100)
}
pub fn h_log_all_101() {
    sweep(101)
}
pub fn h_log_all_102() {
    sweep(102)
}
pub fn h_log_all_103() {
    sweep(103)
}
pub fn h_log_all_104() {
    sweep(104)
}
pub fn h_log_all_105() {
    sweep(105)
}
pub fn h_log_all_106() {
    sweep(106)
}
pub fn h_log_all_107() {
    sweep(107)
}
pub fn h_log_all_108() {
    sweep(108)
}
pub fn h_log_all_109() {
    sweep(109)
}
pub fn h_log_all_110() {
    sweep(110)
}
pub fn h_log_ends() {
    let s = cases(1 + pick(100), 101) as u16;
    let p = match pick(4) {
        0 => MAX_SQRT_PRICE,
        1 => MIN_SQRT_PRICE,
        2 => {
            let p = any::<u128>("price");
            assume(p > MAX_SQRT_PRICE);
            p
        }
        _ => {
            let p = any::<u128>("price");
            assume(p < MIN_SQRT_PRICE);
            p
        }
    };
    let r = catch(|| get_tick_at_sqrt_price(SqrtPrice::new(p), s));
    if p == MAX_SQRT_PRICE {
        reach("top");
        check(matches!(r, Ok(Ok(t)) if t == get_max_tick(s)), "the highest price has the highest tick");
    } else if p == MIN_SQRT_PRICE {
        reach("bottom");
        check(matches!(r, Ok(Ok(t)) if t <= get_min_tick(s) && t > -MAX_TICK - s as i32), "the lowest price has the lowest tick");
    } else {
        reach("outside");
        check(matches!(r, Ok(Err(_))), "no price beyond the ends has one");
    }
}
/// prices rise with the tick, by the square root of 1.0001
pub fn h_price_steps() {
    let k = pick(18) as u32;
    let d = pick(5) as i32 - 3;
    let t = if any::<bool>("negative") { -((1i32 << k) + d) - 1 } else { (1i32 << k) + d };
    let (a, b) = (price(t), price(t + 1));
    check(a < b, "a higher tick has a higher price");
    let (x, y) = (z(a) * z(a) * z(10001u32), z(b) * z(b) * z(10000u32));
    // within a hundredth of the step (prices carry twelve decimals)
    check(and((y - x) * z(1_000_000u64) <= x, (x - y) * z(1_000_000u64) <= x), "by the square root of 1.0001");
    check(price(-t) > 0, "both ways");
    let m = z(price(t)) * z(price(-t));
    check(and(m <= pow10(48) + pow10(39), m + pow10(39) >= pow10(48)), "opposite ticks have inverse prices");
    reach("stepped");
}
pub fn h_price_ends() {
    check(price(0) == 1_000_000_000_000_000_000_000_000, "tick zero is price one");
    check(price(MAX_TICK) == MAX_SQRT_PRICE && price(-MAX_TICK) == MIN_SQRT_PRICE, "the ends of the grid are the ends of the price range");
    let t = any::<i32>("tick");
    assume(or(t > MAX_TICK, t < -MAX_TICK));
    assume(t > i32::MIN);
    check(matches!(catch(|| calculate_sqrt_price(t)), Ok(Err(_))), "no price beyond the grid");
    reach("ends");
}

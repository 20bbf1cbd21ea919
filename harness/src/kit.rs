//! Shared pieces of the harnesses: bounded inputs, actors, a service on a fresh storage.
use crate::vk::*;
pub use contracts::*;
pub use decimal::*;
pub use invariant::verif::*;
pub use math::consts::*;
pub use math::types::{fee_growth::*, fixed_point::*, liquidity::*, percentage::*, seconds_per_liquidity::*, sqrt_price::*, token_amount::*};
pub use math::*;
pub use sails_rs::prelude::*;
pub use sails_rs::U256;

pub fn any_price(n: &'static str) -> SqrtPrice {
    let p = any::<u128>(n);
    assume(p >= MIN_SQRT_PRICE);
    assume(p <= MAX_SQRT_PRICE);
    SqrtPrice::new(p)
}
pub const ONE_PCT: u128 = 1_000_000_000_000;
pub fn any_fee(n: &'static str) -> Percentage {
    let f = any::<u128>(n);
    assume(f <= ONE_PCT);
    Percentage::new(f)
}
pub fn any_liq(n: &'static str) -> Liquidity {
    Liquidity::new(any::<U256>(n))
}
pub fn any_amt(n: &'static str) -> TokenAmount {
    TokenAmount::new(any::<U256>(n))
}
pub fn amt(n: u128) -> TokenAmount {
    TokenAmount::new(U256::from(n))
}
pub fn liq(n: u128) -> Liquidity {
    Liquidity::new(U256::from(n))
}
pub fn any_growth(n: &'static str) -> FeeGrowth {
    FeeGrowth::new(any::<u128>(n))
}
pub fn actor(n: u8) -> ActorId {
    ActorId::from(n as u64)
}
pub fn any_actor(n: &'static str) -> ActorId {
    actor(any::<u8>(n))
}

/// The message context: who is calling.
#[derive(Clone, Copy)]
pub struct Ctx(pub ActorId);
impl sails_rs::gstd::ExecContext for Ctx {
    fn actor_id(&self) -> ActorId {
        self.0
    }
    fn message_id(&self) -> MessageId {
        MessageId::zero()
    }
}
pub const ADMIN: u8 = 1;
pub fn service(caller: ActorId) -> InvariantService<Ctx> {
    InvariantService::new(Ctx(caller))
}
pub fn init(protocol_fee: Percentage) -> &'static mut Invariant {
    let _ = InvariantStorage::with_config(InvariantConfig { admin: actor(ADMIN), protocol_fee });
    InvariantStorage::as_mut()
}
pub fn pick(n: u8) -> i128 {
    let c = any::<u8>("case");
    assume(c < n);
    cases(c as i128, n as u32)
}
pub fn key(x: u8, y: u8, fee: u128, spacing: u16) -> PoolKey {
    PoolKey { token_x: actor(x), token_y: actor(y), fee_tier: FeeTier { fee: Percentage::new(fee), tick_spacing: spacing } }
}
/// any pool record (no relation between its fields)
pub fn any_pool() -> Pool {
    Pool {
        liquidity: any_liq("pool liquidity"),
        sqrt_price: any_price("pool price"),
        current_tick_index: any::<i32>("pool tick"),
        fee_growth_global_x: any_growth("pool growth x"),
        fee_growth_global_y: any_growth("pool growth y"),
        fee_protocol_token_x: any_amt("pool protocol x"),
        fee_protocol_token_y: any_amt("pool protocol y"),
        start_timestamp: any::<u64>("pool start"),
        last_timestamp: any::<u64>("pool last"),
        fee_receiver: any_actor("pool receiver"),
    }
}
pub fn balance(token: ActorId, user: ActorId) -> TokenAmount {
    match InvariantStorage::as_ref().balances.get(&user) {
        Some(m) => match m.get(&token) {
            Some(a) => *a,
            None => amt(0),
        },
        None => amt(0),
    }
}

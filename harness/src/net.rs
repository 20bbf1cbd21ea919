//! The messages a program exchanges: what it sent, and replies to it. Natively the real gstd machinery runs over
//! system calls that record and answer (below); the engine runs the models of vp/redirect.txt on the same records.
#![allow(static_mut_refs)]
use crate::vk::*;
use sails_rs::prelude::*;

pub struct Sent {
    pub to: ActorId,
    pub payload: Vec<u8>,
    pub gas: u64,
    pub value: u128,
    pub deposit: u64,
    pub id: MessageId,
}
pub static mut SENT: Vec<Sent> = Vec::new();
/// replies the program itself gave to the message it is processing
pub static mut REPLIES: Vec<(Vec<u8>, u128)> = Vec::new();

/// What comes back for a message.
#[derive(Clone, Copy)]
pub struct Answer {
    /// 0: an encoded (String, String, bool), 1: an encoded String, 2: bytes that are neither, 3: no payload at all
    pub kind: u8,
    pub service: &'static str,
    pub action: &'static str,
    pub result: bool,
    /// the reply code says error
    pub failed: bool,
}
/// the message being handled (replies) and everything that was delivered
pub static mut CURRENT: Answer = Answer { kind: 3, service: "", action: "", result: false, failed: false };
pub static mut DELIVERED: Vec<(MessageId, Answer)> = Vec::new();

pub fn sent() -> &'static Vec<Sent> {
    unsafe { &SENT }
}
pub fn replies() -> &'static Vec<(Vec<u8>, u128)> {
    unsafe { &REPLIES }
}
pub fn mid(k: u8) -> MessageId {
    let mut b = [0u8; 32];
    b[0] = 100 + k;
    MessageId::from(b)
}
/// the k-th message that was sent times out
pub fn expire() {
    set_env("expired", 1);
    set_env("block_height", get_env("block_height") + 1000);
}
pub fn current(a: Answer) {
    unsafe { CURRENT = a }
    #[cfg(not(verif_mir))]
    native::load(a);
}
/// a reply to the message arrives: the contract's handle_reply entry point
pub fn deliver(to: MessageId, a: Answer) {
    current(a);
    #[cfg(not(verif_mir))]
    native::reply(to, a);
    #[cfg(verif_mir)]
    {
        unsafe { DELIVERED.push((to, a)) };
        crate::maps::run_hook(to);
    }
}
/// the encoding of a transfer_from request of the token standard
pub fn transfer_from(from: ActorId, to: ActorId, amount: math::types::token_amount::TokenAmount) -> Vec<u8> {
    ["Vft".encode(), "TransferFrom".encode(), from.encode(), to.encode(), amount.encode()].concat()
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    a == b
}

#[cfg(not(verif_mir))]
mod native {
    use super::*;
    use crate::vk::native::{bump, env};
    static mut PAYLOAD: Vec<u8> = Vec::new();
    static mut REPLY_TO: [u8; 32] = [0; 32];
    static mut CODE: [u8; 4] = [0; 4];
    pub fn load(a: Answer) {
        unsafe {
            PAYLOAD = match a.kind {
                0 => (a.service.to_string(), a.action.to_string(), a.result).encode(),
                1 => a.service.to_string().encode(),
                2 => vec![0xff, 0xff, 0xff],
                _ => vec![],
            }
        }
    }
    pub fn reply(to: MessageId, a: Answer) {
        unsafe {
            REPLY_TO.copy_from_slice(to.as_ref());
            // ReplyCode::Success(Manual), ReplyCode::Error(Execution(UserspacePanic))
            CODE = if a.failed { [1, 0, 3, 0] } else { [0, 1, 0, 0] };
        }
        sails_rs::gstd::handle_reply_with_hook();
    }
    unsafe fn put_hash(p: *mut gsys::ErrorWithHash, code: u32, id: [u8; 32]) {
        let b = p as *mut u8;
        core::ptr::copy_nonoverlapping(code.to_le_bytes().as_ptr(), b, 4);
        core::ptr::copy_nonoverlapping(id.as_ptr(), b.add(4), 32);
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_send_wgas(dest: *const gsys::HashWithValue, payload: *const u8, len: u32, gas: u64, _delay: u32, out: *mut gsys::ErrorWithHash) {
        if env("send_fails_at") == SENT.len() as u128 + 1 {
            put_hash(out, 1, [0; 32]);
            return;
        }
        let mut to = [0u8; 32];
        core::ptr::copy_nonoverlapping(dest as *const u8, to.as_mut_ptr(), 32);
        let value = core::ptr::read_unaligned((dest as *const u8).add(32) as *const u128);
        let id = mid(SENT.len() as u8);
        SENT.push(Sent { to: ActorId::from(to), payload: core::slice::from_raw_parts(payload, len as usize).to_vec(), gas, value, deposit: 0, id });
        put_hash(out, 0, id.into_bytes());
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_reply_deposit(id: *const gsys::Hash, gas: u64, err: *mut u32) {
        let mut b = [0u8; 32];
        core::ptr::copy_nonoverlapping(id as *const u8, b.as_mut_ptr(), 32);
        for s in SENT.iter_mut() {
            if s.id.into_bytes() == b {
                s.deposit = gas;
            }
        }
        *err = 0;
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_reply(payload: *const u8, len: u32, value: *const u128, out: *mut gsys::ErrorWithHash) {
        let v = if value.is_null() || value as usize == u32::MAX as usize { 0 } else { core::ptr::read_unaligned(value) };
        REPLIES.push((core::slice::from_raw_parts(payload, len as usize).to_vec(), v));
        put_hash(out, 0, [9; 32]);
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_size(n: *mut u32) { *n = PAYLOAD.len() as u32 }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_read(at: u32, len: u32, buf: *mut u8, err: *mut u32) {
        core::ptr::copy_nonoverlapping(PAYLOAD.as_ptr().add(at as usize), buf, len as usize);
        *err = 0;
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_reply_to(out: *mut gsys::ErrorWithHash) { put_hash(out, 0, REPLY_TO) }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_reply_code(out: *mut gsys::ErrorWithReplyCode) {
        let b = out as *mut u8;
        core::ptr::copy_nonoverlapping([0u8; 4].as_ptr(), b, 4);
        core::ptr::copy_nonoverlapping(CODE.as_ptr(), b.add(4), 4);
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn gr_wake(_: *const gsys::Hash, _: u32, err: *mut u32) {
        bump("woken");
        *err = 0;
    }
}

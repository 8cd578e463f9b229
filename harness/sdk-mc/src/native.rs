//! The native side of the SDK: its global system tape, driven through the public functions.
use std::sync::{Mutex, MutexGuard};

use mozak_runner::state::RawTapes;
use mozak_sdk::common::system::verif_system_tape;
use mozak_sdk::common::types::*;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon2::Poseidon2;
use rkyv::rancor::{Failure, Strategy};
use rkyv::ser::AllocSerializer;

use crate::merkle_mc::reference;
use crate::vm::prefixed;

static LOCK: Mutex<()> = Mutex::new(());
/// The system tape is a process-wide singleton: one native history at a time.
pub fn exclusive() -> MutexGuard<'static, ()> {
    let g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    reset();
    g
}
pub fn reset() {
    let t = verif_system_tape();
    t.private_input_tape.writer.clear();
    t.public_input_tape.writer.clear();
    t.call_tape.writer.clear();
    t.event_tape.writer.clear();
    for _ in 0..32 { mozak_sdk::rm_identity(); }
}
pub fn tape() -> SystemTape { verif_system_tape().clone() }

pub fn pid(i: u8) -> ProgramIdentifier {
    // 0 is the null program; others differ in bytes that make byte order matter
    let mut b = [0; 32];
    if i != 0 { b[0] = 0xF0 - i; b[31] = i; b[7] = 0x80 >> (i & 7); }
    ProgramIdentifier(Poseidon2Hash(b))
}

pub fn sponge(input: &[u8]) -> Poseidon2Hash {
    let mut st = [GoldilocksField::ZERO; 12];
    for c in input.chunks(8) {
        for (s, b) in st.iter_mut().zip(c) { *s = GoldilocksField::from_canonical_u64(u64::from(*b)); }
        st = GoldilocksField::poseidon2(st);
    }
    let mut out = [0; 32];
    for i in 0..4 { out[8 * i..8 * i + 8].copy_from_slice(&st[i].to_canonical_u64().to_le_bytes()); }
    Poseidon2Hash(out)
}
pub fn padded(d: &[u8]) -> Poseidon2Hash {
    let mut v = d.to_vec();
    v.push(1);
    while v.len() % 8 != 0 { v.push(0); }
    sponge(&v)
}

/// What an event commits to, by definition.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Canon { pub addr: u64, pub ty: u8, pub value: [u8; 32] }
impl Canon {
    pub fn of(e: &Event) -> Self { Self { addr: u64::from_le_bytes(e.object.address.0), ty: e.type_ as u8, value: padded(&e.object.data).0 } }
    pub fn hash(&self) -> Poseidon2Hash { sponge(&[&u64::from(self.ty).to_le_bytes()[..], &self.addr.to_le_bytes(), &self.value].concat()) }
    pub fn from_sdk(c: &CanonicalEvent) -> Self { Self { addr: u64::from_le_bytes(c.address.0), ty: c.type_ as u8, value: c.value.0 } }
}
pub fn event_commitment(mut c: Vec<Canon>) -> Poseidon2Hash {
    c.sort();
    reference(&c.iter().map(|c| (c.addr, c.hash())).collect::<Vec<_>>())
}
pub fn cast_commitment(cast: &[ProgramIdentifier]) -> Poseidon2Hash {
    reference(&cast.iter().enumerate().map(|(i, p)| (i as u64, p.0)).collect::<Vec<_>>())
}

pub fn bytes<T>(t: &T) -> Vec<u8>
where T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Failure>> {
    rkyv::to_bytes::<_, 256, _>(t).unwrap().into_vec()
}

/// The tapes a program gets for proving, by the format the guest side reads.
pub fn raw_tapes(sys: &SystemTape, me: ProgramIdentifier) -> RawTapes {
    let mut cast: Vec<_> = sys.call_tape.writer.iter().map(|c| c.callee).collect();
    cast.sort();
    cast.dedup();
    let hints = sys.event_tape.writer.get(&me).cloned().unwrap_or_default().get_canonical_order_temporal_hints();
    let input = |w: &std::collections::HashMap<ProgramIdentifier, RawMessage>| prefixed(&w.get(&me).cloned().unwrap_or_default().0);
    RawTapes {
        private_tape: input(&sys.private_input_tape.writer),
        public_tape: input(&sys.public_input_tape.writer),
        call_tape: prefixed(&bytes(&sys.call_tape.writer)),
        event_tape: prefixed(&bytes(&hints)),
        self_prog_id_tape: me.0 .0,
        events_commitment_tape: event_commitment(hints.iter().map(|h| Canon::from_sdk(&h.0)).collect()).0,
        cast_list_commitment_tape: cast_commitment(&cast).0,
    }
}

//! A guest that interprets a script of SDK operations placed in memory by the
//! host at 0xFD00_0000 and logs their results at 0xFE00_0000.
#![cfg_attr(target_os = "mozakvm", no_main)]
#![feature(restricted_std)]
#[cfg(not(target_os = "mozakvm"))]
fn main() {}
#[cfg(target_os = "mozakvm")]
mod g {
    use std::io::{Read, Seek, SeekFrom};

    use mozak_sdk::common::merkle::merkleize;
    use mozak_sdk::common::types::*;
    use mozak_sdk::InputTapeType as T;

    static mut IP: usize = 0xFD00_0000;
    static mut LOG: usize = 0xFE00_0004;
    fn u8_() -> u8 { unsafe { let v = (IP as *const u8).read_volatile(); IP += 1; v } }
    fn u32_() -> u32 { u32::from_le_bytes([u8_(), u8_(), u8_(), u8_()]) }
    fn u64_() -> u64 { u64::from(u32_()) | u64::from(u32_()) << 32 }
    fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| u8_()).collect() }
    fn blob() -> Vec<u8> { let n = u32_() as usize; bytes(n) }
    fn arr<const N: usize>() -> [u8; N] { let mut a = [0; N]; for x in &mut a { *x = u8_(); } a }
    fn log(b: &[u8]) {
        unsafe {
            for x in b { (LOG as *mut u8).write_volatile(*x); LOG += 1; }
            (0xFE00_0000usize as *mut u32).write_volatile((LOG - 0xFE00_0004) as u32);
        }
    }
    fn log32(v: u32) { log(&v.to_le_bytes()); }
    fn logblob(b: &[u8]) { log32(b.len() as u32); log(b); }
    fn event() -> Event {
        let type_ = match u8_() { 0 => EventType::Write, 1 => EventType::Ensure, 2 => EventType::Read, 3 => EventType::GiveOwner, _ => EventType::TakeOwner };
        Event { type_, object: StateObject { address: StateAddress(arr()), constraint_owner: ProgramIdentifier(Poseidon2Hash(arr())), data: blob() } }
    }
    fn pid() -> ProgramIdentifier { ProgramIdentifier(Poseidon2Hash(arr())) }

    #[derive(Clone, Default, PartialEq, rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)]
    pub enum Msg { #[default] Nil, Pair(u8, u64), Text(Vec<u8>), List(Vec<(u32, bool)>), Many(Vec<Vec<u8>>) }
    fn msg() -> Msg {
        match u8_() {
            0 => Msg::Nil,
            1 => Msg::Pair(u8_(), u64_()),
            2 => Msg::Text(blob()),
            4 => { let n = u8_(); Msg::Many((0..n).map(|_| blob()).collect()) }
            _ => { let n = u8_(); Msg::List((0..n).map(|_| (u32_(), u8_() != 0)).collect()) }
        }
    }
    fn logmsg(m: &Msg) {
        match m {
            Msg::Nil => log(&[0]),
            Msg::Pair(a, b) => { log(&[1, *a]); log(&b.to_le_bytes()); }
            Msg::Text(t) => { log(&[2]); logblob(t); }
            Msg::Many(l) => { log(&[4, l.len() as u8]); for b in l { logblob(b); } }
            Msg::List(l) => { log(&[3, l.len() as u8]); for (a, b) in l { log32(*a); log(&[u8::from(*b)]); } }
        }
    }
    enum Tape { Priv(PrivateInputTapeType), Pub(PublicInputTapeType) }
    fn logres(r: std::io::Result<u64>) { match r { Ok(n) => { log(&[0]); log(&n.to_le_bytes()); } Err(_) => log(&[1]) } }

    pub fn main() {
        let mut tapes: Vec<Tape> = vec![];
        loop {
            match u8_() {
                0 => break,
                1 => { // read from a global tape
                    let k = if u8_() == 0 { T::PrivateTape } else { T::PublicTape };
                    let mut b = vec![0xEE; u32_() as usize];
                    let r = mozak_sdk::read(&k, &mut b);
                    logres(r.map(|x| x as u64)); logblob(&b);
                }
                2 => { // a tape of our own
                    let k = u8_(); let n = u32_() as usize;
                    tapes.push(if k == 0 { Tape::Priv(PrivateInputTapeType::with_size_hint(n)) } else { Tape::Pub(PublicInputTapeType::with_size_hint(n)) });
                }
                3 => {
                    let t = u8_() as usize; let mut b = vec![0xEE; u32_() as usize];
                    let r = match &mut tapes[t] { Tape::Priv(t) => t.read(&mut b), Tape::Pub(t) => t.read(&mut b) };
                    logres(r.map(|x| x as u64)); logblob(&b);
                }
                4 => {
                    let t = u8_() as usize;
                    let w = u8_(); let o = u64_();
                    let s = match w { 0 => SeekFrom::Start(o), 1 => SeekFrom::End(o as i64), _ => SeekFrom::Current(o as i64) };
                    let r = match &mut tapes[t] { Tape::Priv(t) => t.seek(s), Tape::Pub(t) => t.seek(s) };
                    logres(r);
                }
                5 => { let k = if u8_() == 0 { T::PrivateTape } else { T::PublicTape }; log32(mozak_sdk::input_tape_len(&k) as u32); }
                6 => { // send
                    match u8_() {
                        0 => { let p = pid(); let a = u32_(); let r: u32 = mozak_sdk::call_send(p, a, |_| unreachable!()); log32(r); }
                        1 => { let p = pid(); let a = msg(); let r: Msg = mozak_sdk::call_send(p, a, |_| unreachable!()); logmsg(&r); }
                        _ => { let p = pid(); let a = blob(); let r: Vec<u8> = mozak_sdk::call_send(p, a, |_| unreachable!()); logblob(&r); }
                    }
                }
                7 => { // receive
                    match u8_() {
                        0 => match mozak_sdk::call_receive::<u32, u32>() { None => log(&[0]), Some((p, a, r)) => { log(&[1]); log(&p.inner()); log32(a); log32(r); } },
                        1 => match mozak_sdk::call_receive::<Msg, Msg>() { None => log(&[0]), Some((p, a, r)) => { log(&[1]); log(&p.inner()); logmsg(&a); logmsg(&r); } },
                        _ => match mozak_sdk::call_receive::<Vec<u8>, Vec<u8>>() { None => log(&[0]), Some((p, a, r)) => { log(&[1]); log(&p.inner()); logblob(&a); logblob(&r); } },
                    }
                }
                8 => { let e = event(); mozak_sdk::event_emit(e); log(&[8]); }
                9 => { // allocate, and check nothing: the host does
                    let (n, a) = (u32_() as usize, u32_() as usize);
                    let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align(n, a).unwrap()) };
                    log32(p as usize as u32);
                }
                10 => { let b = blob(); log(&mozak_sdk::poseidon2_hash_with_pad(&b).inner()); }
                11 => { let b = blob(); log(&mozak_sdk::poseidon2_hash_no_pad(&b).inner()); }
                12 => { let e = event(); let c = CanonicalEvent::from_event(&e); log(&c.value.inner()); log(&c.canonical_hash().inner()); }
                13 => { let n = u8_(); let l = (0..n).map(|_| (u64_(), Poseidon2Hash(arr()))).collect(); log(&merkleize(l).inner()); }
                14 => { let b = blob(); mozak_sdk::core::env::write(&b); }
                15 => panic!("as told"),
                16 => { let a = u32_() as usize; let v = vec![1u8, 2, 3]; log(&[v[a]]); } // bounds check
                17 => { let (a, b) = (u32_(), u32_()); log32(a.checked_div(b).unwrap()); }
                18 => { let a = u8_(); log32(Poseidon2Hash::from(vec![a; a as usize]).0[0].into()); }
                19 => { let n = u32_() as usize; let p = alloc_grow(n); log32(p); }
                20 => { let p = pid(); let os = (0..u8_()).map(|_| StateObject { constraint_owner: pid(), ..StateObject::default() }).collect::<Vec<_>>(); p.ensure_constraint_owner_similarity(os.iter()); log(&[u8::from(p.is_null_program())]); }
                21 => { std::process::abort() }
                22 => heap(),
                _ => panic!("bad script"),
            }
        }
        log(&[0xFF]);
    }
    // grows a vector byte by byte: contents must survive every reallocation
    fn alloc_grow(n: usize) -> u32 {
        let mut v = vec![];
        let mut others = vec![];
        for i in 0..n { v.push(i as u8); if i % 3 == 0 { others.push(vec![i as u8; i % 5 + 1]); } }
        let ok = v.iter().enumerate().all(|(i, x)| *x == i as u8) && others.iter().enumerate().all(|(j, o)| o.iter().all(|x| *x == (3 * j) as u8) && o.len() == 3 * j % 5 + 1);
        u32::from(ok)
    }
    // the heap's whole interface; contents of all live blocks are checked after every step
    fn heap() {
        use std::alloc::{alloc, alloc_zeroed, dealloc, realloc, Layout};
        // (address, size, alignment, fill byte)
        let mut slots: [Option<(usize, usize, usize, u8)>; 4] = [None; 4];
        let n = u8_();
        for step in 0..n {
            let (kind, slot, size, align) = (u8_(), u8_() as usize, u32_() as usize, u32_() as usize);
            let fill = 0xA0 + step;
            let mut ok = true;
            let mut ptr = 0usize;
            unsafe {
                match (kind, slots[slot]) {
                    (0 | 1, _) => {
                        let l = Layout::from_size_align(size, align).unwrap();
                        ptr = if kind == 0 { alloc(l) } else { alloc_zeroed(l) } as usize;
                        if kind == 1 { for i in 0..size { ok &= ((ptr + i) as *const u8).read_volatile() == 0; } }
                        for i in 0..size { ((ptr + i) as *mut u8).write_volatile(fill); }
                        slots[slot] = Some((ptr, size, align, fill));
                    }
                    (2, Some((p, s, a, f))) => {
                        ptr = realloc(p as *mut u8, Layout::from_size_align(s, a).unwrap(), size) as usize;
                        for i in 0..size.min(s) { ok &= ((ptr + i) as *const u8).read_volatile() == f; }
                        for i in 0..size { ((ptr + i) as *mut u8).write_volatile(fill); }
                        slots[slot] = Some((ptr, size, a, fill));
                    }
                    (3, Some((p, s, a, _))) => { dealloc(p as *mut u8, Layout::from_size_align(s, a).unwrap()); slots[slot] = None; }
                    _ => {}
                }
                for (p, s, _, f) in slots.iter().flatten() { for i in 0..*s { ok &= ((p + i) as *const u8).read_volatile() == *f; } }
            }
            log32(ptr as u32);
            log(&[u8::from(ok)]);
        }
    }
    mozak_sdk::entry!(main);
}

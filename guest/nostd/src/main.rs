#![cfg_attr(target_os = "mozakvm", no_main)]
#![cfg_attr(target_os = "mozakvm", no_std)]
// A guest without std: script words at 0xFD00_0000.
#[cfg(target_os = "mozakvm")]
mod g {
    extern crate alloc;
    use alloc::vec::Vec;
    fn w(i: usize) -> u32 { unsafe { ((0xFD00_0000usize + 4 * i) as *const u32).read_volatile() } }
    fn put(i: usize, v: u32) { unsafe { ((0xFE00_0000usize + 4 * i) as *mut u32).write_volatile(v) } }
    pub fn main() {
        put(0, 1);
        let n = w(1) as usize;
        let mut v: Vec<u32> = (0..n as u32).collect();
        match w(0) {
            0 => {}
            1 => { assert_eq!(n, 7, "length"); }
            2 => { put(1, v[w(2) as usize]); }
            3 => { put(1, 1000u32.checked_div(w(2)).unwrap()); }
            4 => { let mut b = Vec::new(); b.resize(n, 0u8); mozak_sdk::core::ecall::ioread_private(&mut b); put(1, b.iter().map(|x| u32::from(*x)).sum()); }
            _ => { v.reverse(); put(1, v[0]); mozak_sdk::core::env::write(&[w(2) as u8]); }
        }
        put(0, 2);
    }
    mozak_sdk::entry!(main);
}
#[cfg(not(target_os = "mozakvm"))]
fn main() {}

//! Stand-in for the `elf` crate (0.7): the part of its API that
//! mozak-runner uses, with the same parsing rules (lazy program header table,
//! byte-for-byte checks of e_ident, bounds checked offsets).
pub mod abi {
    pub const EM_RISCV: u16 = 243;
    pub const ET_EXEC: u16 = 2;
    pub const PF_NONE: u32 = 0;
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const PT_NULL: u32 = 0;
    pub const PT_LOAD: u32 = 1;
    pub const PT_DYNAMIC: u32 = 2;
    pub const PT_INTERP: u32 = 3;
    pub const PT_NOTE: u32 = 4;
    pub const PT_PHDR: u32 = 6;
    pub const PT_TLS: u32 = 7;
    pub const PT_GNU_EH_FRAME: u32 = 0x6474e550;
    pub const PT_GNU_STACK: u32 = 0x6474e551;
    pub const PT_GNU_RELRO: u32 = 0x6474e552;
    pub const PT_RISCV_ATTRIBUTES: u32 = 0x70000003;
    pub const PN_XNUM: u16 = 0xffff;
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ParseError {
    BadMagic([u8; 4]),
    UnsupportedElfClass(u8),
    UnsupportedElfEndianness(u8),
    UnsupportedVersion((u64, u64)),
    BadOffset(u64),
    BadEntsize((u64, u64)),
    SliceReadError((usize, usize)),
    IntegerOverflow,
}
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for ParseError {}
pub mod endian {
    pub trait EndianParse: Copy + Default + PartialEq + std::fmt::Debug { fn from_ei_data(b: u8) -> Result<Self, super::ParseError>; }
    #[derive(Debug, Default, Copy, Clone, PartialEq, Eq)]
    pub struct LittleEndian;
    impl EndianParse for LittleEndian {
        fn from_ei_data(b: u8) -> Result<Self, super::ParseError> {
            if b == 1 { Ok(Self) } else { Err(super::ParseError::UnsupportedElfEndianness(b)) }
        }
    }
}
pub mod file {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Class { ELF32, ELF64 }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct FileHeader {
        pub class: Class,
        pub version: u32,
        pub e_type: u16,
        pub e_machine: u16,
        pub e_entry: u64,
        pub e_phoff: u64,
        pub e_shoff: u64,
        pub e_flags: u32,
        pub e_ehsize: u16,
        pub e_phentsize: u16,
        pub e_phnum: u16,
        pub e_shentsize: u16,
        pub e_shnum: u16,
        pub e_shstrndx: u16,
    }
}
pub mod segment {
    use super::file::Class;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ProgramHeader {
        pub p_type: u32,
        pub p_offset: u64,
        pub p_vaddr: u64,
        pub p_paddr: u64,
        pub p_filesz: u64,
        pub p_memsz: u64,
        pub p_flags: u32,
        pub p_align: u64,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct SegmentTable<'d, E> { pub(crate) class: Class, pub(crate) data: &'d [u8], pub(crate) _e: E }
    impl<'d, E> SegmentTable<'d, E> {
        fn ent(&self) -> usize { if self.class == Class::ELF32 { 32 } else { 56 } }
        pub fn len(&self) -> usize { self.data.len() / self.ent() }
        pub fn is_empty(&self) -> bool { self.data.is_empty() }
        pub fn get(&self, i: usize) -> Result<ProgramHeader, super::ParseError> {
            let e = self.ent();
            let d = self.data.get(i * e..(i + 1) * e).ok_or(super::ParseError::BadOffset((i * e) as u64))?;
            let w = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
            let q = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
            Ok(if self.class == Class::ELF32 {
                ProgramHeader { p_type: w(0), p_offset: w(4).into(), p_vaddr: w(8).into(), p_paddr: w(12).into(), p_filesz: w(16).into(), p_memsz: w(20).into(), p_flags: w(24), p_align: w(28).into() }
            } else {
                ProgramHeader { p_type: w(0), p_flags: w(4), p_offset: q(8), p_vaddr: q(16), p_paddr: q(24), p_filesz: q(32), p_memsz: q(40), p_align: q(48) }
            })
        }
        pub fn iter(&self) -> SegIter<'_, 'd, E> { SegIter { t: self, i: 0 } }
    }
    pub struct SegIter<'a, 'd, E> { t: &'a SegmentTable<'d, E>, i: usize }
    impl<E> Iterator for SegIter<'_, '_, E> {
        type Item = ProgramHeader;
        fn next(&mut self) -> Option<ProgramHeader> {
            if self.i >= self.t.len() { return None; }
            self.i += 1;
            self.t.get(self.i - 1).ok()
        }
    }
}
use endian::EndianParse;
use file::{Class, FileHeader};
use segment::SegmentTable;
#[derive(Debug, Clone)]
pub struct ElfBytes<'d, E: EndianParse> { pub ehdr: FileHeader, phdrs: Option<SegmentTable<'d, E>> }
impl<'d, E: EndianParse> ElfBytes<'d, E> {
    pub fn minimal_parse(data: &'d [u8]) -> Result<Self, ParseError> {
        let ident = data.get(0..16).ok_or(ParseError::SliceReadError((0, 16)))?;
        if ident[..4] != [0x7f, b'E', b'L', b'F'] { return Err(ParseError::BadMagic(ident[..4].try_into().unwrap())); }
        if ident[6] != 1 { return Err(ParseError::UnsupportedVersion((u64::from(ident[6]), 1))); }
        let class = match ident[4] { 1 => Class::ELF32, 2 => Class::ELF64, c => return Err(ParseError::UnsupportedElfClass(c)) };
        let e = E::from_ei_data(ident[5])?;
        let tail_len = if class == Class::ELF32 { 36 } else { 48 };
        let t = data.get(16..16 + tail_len).ok_or(ParseError::SliceReadError((16, 16 + tail_len)))?;
        let h = |o: usize| u16::from_le_bytes(t[o..o + 2].try_into().unwrap());
        let w = |o: usize| u32::from_le_bytes(t[o..o + 4].try_into().unwrap());
        let q = |o: usize| u64::from_le_bytes(t[o..o + 8].try_into().unwrap());
        let ehdr = if class == Class::ELF32 {
            FileHeader { class, e_type: h(0), e_machine: h(2), version: w(4), e_entry: w(8).into(), e_phoff: w(12).into(), e_shoff: w(16).into(), e_flags: w(20), e_ehsize: h(24), e_phentsize: h(26), e_phnum: h(28), e_shentsize: h(30), e_shnum: h(32), e_shstrndx: h(34) }
        } else {
            FileHeader { class, e_type: h(0), e_machine: h(2), version: w(4), e_entry: q(8), e_phoff: q(16), e_shoff: q(24), e_flags: w(32), e_ehsize: h(36), e_phentsize: h(38), e_phnum: h(40), e_shentsize: h(42), e_shnum: h(44), e_shstrndx: h(46) }
        };
        let phdrs = if ehdr.e_phoff == 0 { None } else {
            if ehdr.e_phnum == abi::PN_XNUM { return Err(ParseError::BadOffset(ehdr.e_phoff)); }
            let want: u16 = if class == Class::ELF32 { 32 } else { 56 };
            if ehdr.e_phentsize != want { return Err(ParseError::BadEntsize((ehdr.e_phentsize.into(), want.into()))); }
            let start = ehdr.e_phoff as usize;
            let end = start.checked_add(usize::from(want) * usize::from(ehdr.e_phnum)).ok_or(ParseError::IntegerOverflow)?;
            Some(SegmentTable { class, data: data.get(start..end).ok_or(ParseError::SliceReadError((start, end)))?, _e: e })
        };
        Ok(Self { ehdr, phdrs })
    }
    pub fn segments(&self) -> Option<SegmentTable<'d, E>> { self.phdrs }
}

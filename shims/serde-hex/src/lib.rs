//! Stand-in for serde-hex: StrictPfx ("0x" + fixed-width lowercase hex).
use serde::{Deserialize, Deserializer, Serializer};
pub struct StrictPfx;
pub trait SerHex<C>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<const N: usize> SerHex<StrictPfx> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{}", hex::encode(self))) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let h = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing 0x"))?;
        let v = hex::decode(h).map_err(serde::de::Error::custom)?;
        v.try_into().map_err(|_| serde::de::Error::custom("bad length"))
    }
}
pub trait SerHexSeq<C>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl SerHexSeq<StrictPfx> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{}", hex::encode(self))) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let h = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing 0x"))?;
        hex::decode(h).map_err(serde::de::Error::custom)
    }
}

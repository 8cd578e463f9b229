use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub trait BigArray<'de>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<'de, T: Serialize + Deserialize<'de>, const N: usize> BigArray<'de> for [T; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(self.iter()) }
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v: Vec<T> = Vec::deserialize(d)?;
        v.try_into().map_err(|_| serde::de::Error::custom("bad length"))
    }
}

//! serialisation is not exercised here
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
macro_rules! none { ($($t:ty),*) => { $(
impl Serialize for $t { fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> Deserialize<'de> for $t { fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(de::Error::custom("")) } }
)* } }
none!(crate::f3g::F3G, crate::f5g::F5G);

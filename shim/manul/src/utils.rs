//! `manul::utils::SerializableMap`.
use serde::{de::SeqAccess, de::Visitor, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

/// A map serialized as a sequence of pairs (so that it can be used with formats that do not support
/// non-string keys). Duplicate keys are rejected at deserialization, as in manul.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct SerializableMap<K, V>(BTreeMap<K, V>);

impl<K: Ord, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
    fn from(m: BTreeMap<K, V>) -> Self {
        Self(m)
    }
}
impl<K, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
    fn from(m: SerializableMap<K, V>) -> Self {
        m.0
    }
}
impl<K, V> Deref for SerializableMap<K, V> {
    type Target = BTreeMap<K, V>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> DerefMut for SerializableMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V> AsRef<BTreeMap<K, V>> for SerializableMap<K, V> {
    fn as_ref(&self) -> &BTreeMap<K, V> {
        &self.0
    }
}
impl<K: Serialize, V: Serialize> Serialize for SerializableMap<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter())
    }
}
impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = SerializableMap<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a map serialized as a list of pairs")
            }
            fn visit_seq<M: SeqAccess<'de>>(self, mut access: M) -> Result<Self::Value, M::Error> {
                let mut map = BTreeMap::new();
                while let Some((k, v)) = access.next_element::<(K, V)>()? {
                    if map.insert(k, v).is_some() {
                        return Err(serde::de::Error::custom("Duplicate key"));
                    }
                }
                Ok(SerializableMap(map))
            }
        }
        d.deserialize_seq(Vis(PhantomData))
    }
}

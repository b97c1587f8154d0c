use std::ops::Deref;

use ciborium::Value;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::{Curve, KeyType};

pub mod cbor {
    use serde::de::DeserializeOwned;
    use serde::Serialize;

    pub fn to_vec<T: Serialize + ?Sized>(value: &T) -> anyhow::Result<Vec<u8>> {
        let mut buf = Vec::new();
        ciborium::into_writer(value, &mut buf)?;
        Ok(buf)
    }
    pub fn from_slice<T: DeserializeOwned>(slice: &[u8]) -> anyhow::Result<T> {
        Ok(ciborium::from_reader(slice)?)
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct CoseKey {
    pub kty: KeyType,
    pub crv: Curve,
    pub x: Vec<u8>,
    pub y: Option<Vec<u8>>,
}
impl Serialize for CoseKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let int = |i: i64| Value::Integer(i.into());
        let mut m = vec![
            (int(1), int(if self.kty == KeyType::Okp { 1 } else { 2 })),
            (int(-1), int(if self.crv == Curve::Ed25519 { 6 } else { 8 })),
            (int(-2), Value::Bytes(self.x.clone())),
        ];
        if let Some(y) = &self.y {
            m.push((int(-3), Value::Bytes(y.clone())));
        }
        Value::Map(m).serialize(s)
    }
}
impl<'de> Deserialize<'de> for CoseKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        let mut key = Self::default();
        for (k, v) in v.as_map().cloned().unwrap_or_default() {
            match k.as_integer().map(i128::from) {
                Some(-2) => key.x = v.as_bytes().cloned().unwrap_or_default(),
                Some(-3) => key.y = v.as_bytes().cloned(),
                _ => {}
            }
        }
        Ok(key)
    }
}

/// CBOR `#6.24(bstr .cbor T)`.
#[derive(Clone, Debug)]
pub struct Tag24<T>(pub T);
impl<T> Deref for Tag24<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: Serialize> Tag24<T> {
    pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> {
        cbor::to_vec(self)
    }
}
impl<T: Serialize> Serialize for Tag24<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let inner = cbor::to_vec(&self.0).map_err(serde::ser::Error::custom)?;
        Value::Tag(24, Box::new(Value::Bytes(inner))).serialize(s)
    }
}
impl<'de, T: DeserializeOwned> Deserialize<'de> for Tag24<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let Value::Tag(24, inner) = Value::deserialize(d)? else {
            return Err(D::Error::custom("expected tag 24"));
        };
        let Value::Bytes(b) = *inner else {
            return Err(D::Error::custom("expected bytes"));
        };
        cbor::from_slice(&b).map(Self).map_err(D::Error::custom)
    }
}

//! Stand-in for the part of `coset` the repository uses: COSE_Sign1 as RFC 9052 lays it out.
use ciborium::Value;

pub mod iana {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Algorithm {
        EdDSA,
        ES256K,
    }
}

#[derive(Debug)]
pub struct CoseError(pub String);
impl std::fmt::Display for CoseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CoseError {}

pub trait AsCborValue: Sized {
    fn from_cbor_value(value: Value) -> Result<Self, CoseError>;
    fn to_cbor_value(self) -> Result<Value, CoseError>;
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header {
    pub alg: Option<i64>,
    pub key_id: Vec<u8>,
}
impl Header {
    fn to_value(&self) -> Value {
        let mut m = vec![];
        if let Some(a) = self.alg {
            m.push((Value::Integer(1.into()), Value::Integer(a.into())));
        }
        if !self.key_id.is_empty() {
            m.push((Value::Integer(4.into()), Value::Bytes(self.key_id.clone())));
        }
        Value::Map(m)
    }
    fn from_value(v: &Value) -> Self {
        let mut h = Self::default();
        for (k, v) in v.as_map().into_iter().flatten() {
            match k.as_integer().map(i128::from) {
                Some(1) => h.alg = v.as_integer().map(|i| i128::from(i) as i64),
                Some(4) => h.key_id = v.as_bytes().cloned().unwrap_or_default(),
                _ => {}
            }
        }
        h
    }
}

#[derive(Default)]
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn algorithm(mut self, a: iana::Algorithm) -> Self {
        self.0.alg = Some(match a {
            iana::Algorithm::EdDSA => -8,
            iana::Algorithm::ES256K => -47,
        });
        self
    }
    pub fn key_id(mut self, k: Vec<u8>) -> Self {
        self.0.key_id = k;
        self
    }
    pub fn build(self) -> Header {
        self.0
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct CoseSign1 {
    pub protected: Header,
    pub unprotected: Header,
    pub payload: Option<Vec<u8>>,
    pub signature: Vec<u8>,
}

#[derive(Default)]
pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn protected(mut self, h: Header) -> Self {
        self.0.protected = h;
        self
    }
    pub fn unprotected(mut self, h: Header) -> Self {
        self.0.unprotected = h;
        self
    }
    pub fn payload(mut self, p: Vec<u8>) -> Self {
        self.0.payload = Some(p);
        self
    }
    pub fn signature(mut self, s: Vec<u8>) -> Self {
        self.0.signature = s;
        self
    }
    pub fn build(self) -> CoseSign1 {
        self.0
    }
}

impl AsCborValue for CoseSign1 {
    fn to_cbor_value(self) -> Result<Value, CoseError> {
        let mut prot = Vec::new();
        if self.protected != Header::default() {
            ciborium::into_writer(&self.protected.to_value(), &mut prot)
                .map_err(|e| CoseError(e.to_string()))?;
        }
        Ok(Value::Array(vec![
            Value::Bytes(prot),
            self.unprotected.to_value(),
            self.payload.map_or(Value::Null, Value::Bytes),
            Value::Bytes(self.signature),
        ]))
    }
    fn from_cbor_value(value: Value) -> Result<Self, CoseError> {
        let err = || CoseError("not a COSE_Sign1".into());
        let a = value.into_array().map_err(|_| err())?;
        if a.len() != 4 {
            return Err(err());
        }
        let prot = a[0].as_bytes().ok_or_else(err)?;
        let protected = if prot.is_empty() {
            Header::default()
        } else {
            let v: Value =
                ciborium::from_reader(prot.as_slice()).map_err(|e| CoseError(e.to_string()))?;
            Header::from_value(&v)
        };
        Ok(Self {
            protected,
            unprotected: Header::from_value(&a[1]),
            payload: a[2].as_bytes().cloned(),
            signature: a[3].as_bytes().cloned().ok_or_else(err)?,
        })
    }
}

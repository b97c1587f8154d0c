//! An independent reader of `mso_mdoc` credentials (ISO 18013-5 `IssuerSigned`):
//! decodes the CBOR itself and recomputes digests and the signature.

use std::collections::{BTreeMap, BTreeSet};

use base64ct::{Base64UrlUnpadded, Encoding};
use ciborium::Value as Cbor;
use serde_json::{Map, Value};
use sha2::{Digest, Sha256};

use crate::world::Key;

pub struct Mdoc {
    /// namespace -> element -> value
    pub elements: Value,
    /// namespace -> [(digest id, digest of the item bytes)]
    items: Vec<(String, i128, Vec<u8>)>,
    randoms: Vec<Vec<u8>>,
    digests: BTreeMap<(String, i128), Vec<u8>>,
    digest_algorithm: String,
    doc_type: String,
    pub device_key: Vec<u8>,
    payload: Vec<u8>,
    signature: Vec<u8>,
    kid: Vec<u8>,
    alg: Option<i128>,
    version: String,
    signed: String,
    valid_from: String,
    valid_until: String,
    /// written with names or types other than the standard's
    loose: bool,
}

fn field<'a>(v: &'a Cbor, name: &str) -> Result<&'a Cbor, String> {
    v.as_map()
        .ok_or("not a map")?
        .iter()
        .find(|(k, _)| k.as_text() == Some(name))
        .map(|(_, v)| v)
        .ok_or_else(|| format!("no {name}"))
}

fn json(v: &Cbor) -> Value {
    match v {
        Cbor::Text(t) => Value::String(t.clone()),
        Cbor::Bool(b) => Value::Bool(*b),
        Cbor::Null => Value::Null,
        Cbor::Integer(i) => {
            let i = i128::from(*i);
            serde_json::json!(i64::try_from(i).map(|x| serde_json::json!(x)).unwrap_or_else(|_| serde_json::json!(i as u64)))
        }
        Cbor::Float(f) => serde_json::json!(f),
        Cbor::Array(a) => Value::Array(a.iter().map(json).collect()),
        Cbor::Map(m) => {
            Value::Object(m.iter().map(|(k, v)| (k.as_text().unwrap_or("?").to_string(), json(v))).collect())
        }
        other => Value::String(format!("{other:?}")),
    }
}

fn parse(bytes: &[u8]) -> Result<Cbor, String> {
    ciborium::from_reader(bytes).map_err(|e| format!("CBOR: {e}"))
}

fn tag24(v: &Cbor) -> Result<Vec<u8>, String> {
    let Cbor::Tag(24, inner) = v else { return Err(format!("expected tag 24, got {v:?}")) };
    inner.as_bytes().cloned().ok_or("tag 24 without bytes".into())
}

fn bytes_of(v: &Cbor) -> Vec<u8> {
    match v {
        Cbor::Bytes(b) => b.clone(),
        Cbor::Array(a) => a.iter().filter_map(|x| x.as_integer()).map(|i| i128::from(i) as u8).collect(),
        _ => vec![],
    }
}

pub fn open(token: &str) -> Result<Mdoc, String> {
    let raw = Base64UrlUnpadded::decode_vec(token).map_err(|e| format!("base64url: {e}"))?;
    let doc = parse(&raw)?;
    let spaces = field(&doc, "nameSpaces")?.as_map().ok_or("nameSpaces")?;
    let mut elements = Map::new();
    let mut items = vec![];
    let mut randoms = vec![];
    let mut loose = false;
    for (ns, list) in spaces {
        let ns = ns.as_text().ok_or("namespace name")?.to_string();
        let mut m = Map::new();
        for item in list.as_array().ok_or("namespace items")? {
            let inner = tag24(item)?;
            let it = parse(&inner)?;
            let get = |a: &str, b: &str| field(&it, a).or_else(|_| field(&it, b)).cloned();
            loose |= field(&it, "digestID").is_err() || !field(&it, "random")?.is_bytes();
            let id = get("digestID", "digest_id")?.as_integer().ok_or("digest id")?;
            let name = get("elementIdentifier", "element_identifier")?.as_text().ok_or("element id")?.to_string();
            let value = get("elementValue", "element_value")?;
            randoms.push(bytes_of(field(&it, "random")?));
            let mut whole = vec![];
            ciborium::into_writer(item, &mut whole).map_err(|e| e.to_string())?;
            items.push((ns.clone(), i128::from(id), Sha256::digest(&whole).to_vec()));
            if m.insert(name.clone(), json(&value)).is_some() {
                return Err(format!("element {name} twice"));
            }
        }
        elements.insert(ns, Value::Object(m));
    }
    let auth = field(&doc, "issuerAuth")?.as_array().ok_or("issuerAuth is not COSE_Sign1")?;
    if auth.len() != 4 {
        return Err("COSE_Sign1 has four parts".into());
    }
    let protected = parse(auth[0].as_bytes().ok_or("protected header")?)?;
    let alg = protected
        .as_map()
        .and_then(|m| m.iter().find(|(k, _)| k.as_integer() == Some(1.into())))
        .and_then(|(_, v)| v.as_integer())
        .map(i128::from);
    let kid = auth[1]
        .as_map()
        .and_then(|m| m.iter().find(|(k, _)| k.as_integer() == Some(4.into())))
        .map(|(_, v)| bytes_of(v))
        .unwrap_or_default();
    let payload = auth[2].as_bytes().ok_or("payload")?.clone();
    let signature = auth[3].as_bytes().ok_or("signature")?.clone();
    let mso = parse(&tag24(&parse(&payload)?)?)?;
    let mut digests = BTreeMap::new();
    for (ns, m) in field(&mso, "valueDigests")?.as_map().ok_or("valueDigests")? {
        let ns = ns.as_text().ok_or("namespace")?.to_string();
        for (id, d) in m.as_map().ok_or("digests")? {
            let id = i128::from(id.as_integer().ok_or("digest id")?);
            if digests.insert((ns.clone(), id), bytes_of(d)).is_some() {
                return Err("digest id twice".into());
            }
        }
    }
    let text = |v: &Cbor, k: &str| match field(v, k) {
        // a date may be marked as one
        Ok(Cbor::Tag(0, t)) => t.as_text().unwrap_or_default().to_string(),
        Ok(t) => t.as_text().unwrap_or_default().to_string(),
        Err(_) => String::new(),
    };
    let validity = field(&mso, "validityInfo")?;
    let device = field(field(&mso, "deviceKeyInfo")?, "deviceKey")?;
    let device_key = device
        .as_map()
        .and_then(|m| m.iter().find(|(k, _)| k.as_integer() == Some((-2).into())))
        .map(|(_, v)| bytes_of(v))
        .unwrap_or_default();
    Ok(Mdoc {
        elements: Value::Object(elements),
        items,
        randoms,
        digests,
        digest_algorithm: text(&mso, "digestAlgorithm"),
        doc_type: text(&mso, "docType"),
        device_key,
        payload,
        signature,
        kid,
        alg,
        version: text(&mso, "version"),
        signed: text(validity, "signed"),
        valid_from: text(validity, "validFrom"),
        valid_until: text(validity, "validUntil"),
        loose,
    })
}

impl Mdoc {
    /// Everything a reader would refuse the document for.
    pub fn faults(&self, issuer: &Key) -> Vec<String> {
        let mut out = vec![];
        if self.digest_algorithm != "SHA-256" {
            out.push(format!("digest algorithm {}", self.digest_algorithm));
        }
        let mut ids = BTreeSet::new();
        for (ns, id, digest) in &self.items {
            if !ids.insert((ns.clone(), *id)) {
                out.push(format!("digest id {id} used twice in {ns}"));
            }
            if !(0..=i128::from(i32::MAX)).contains(id) {
                out.push(format!("digest id {id} out of range"));
            }
            match self.digests.get(&(ns.clone(), *id)) {
                Some(d) if d == digest => {}
                Some(_) => out.push(format!("digest {id} of {ns} does not match its item")),
                None => out.push(format!("no digest for item {id} of {ns}")),
            }
        }
        if self.digests.len() != self.items.len() {
            out.push(format!("{} digests for {} items", self.digests.len(), self.items.len()));
        }
        if self.randoms.iter().any(|x| x.len() < 16) {
            out.push("item salt shorter than 16 bytes".into());
        }
        if self.randoms.iter().collect::<BTreeSet<_>>().len() != self.randoms.len() {
            out.push("item salt repeated".into());
        }
        let direct = vercre_infosec::sim::verify(&issuer.public(), &self.payload, &self.signature);
        if !direct && self.deviations(issuer).iter().any(|d| d.0.starts_with("signature")) {
            out.push("signature does not cover the security object".into());
        }
        if self.kid != issuer.kid().as_bytes() {
            out.push("key id is not the issuer's".into());
        }
        if self.alg != Some(-8) {
            out.push(format!("algorithm {:?}", self.alg));
        }
        if self.doc_type != "org.iso.18013.5.1.mDL" {
            out.push(format!("docType {}", self.doc_type));
        }
        if self.version != "1.0" {
            out.push(format!("security object version {}", self.version));
        }
        let from = chrono::DateTime::parse_from_rfc3339(&self.valid_from);
        let until = chrono::DateTime::parse_from_rfc3339(&self.valid_until);
        match (from, until) {
            (Ok(a), Ok(b)) => {
                let now = crate::clock::now();
                match chrono::DateTime::parse_from_rfc3339(&self.signed) {
                    Ok(s) if s <= a && s.timestamp() <= now + 1 && s.timestamp() >= now - 60 => {}
                    _ => out.push(format!("signed {} but valid from {}", self.signed, self.valid_from)),
                }
                if !(a.timestamp() <= now + 1 && b.timestamp() > now) {
                    out.push(format!("not valid now: {} to {}", self.valid_from, self.valid_until));
                }
            }
            _ => out.push("validity dates unreadable".into()),
        }
        out
    }
}

impl Mdoc {
    pub fn salts(&self) -> &[Vec<u8>] {
        &self.randoms
    }

    pub fn ids(&self) -> Vec<i128> {
        self.items.iter().map(|i| i.1).collect()
    }

    /// Where the document departs from ISO 18013-5 without changing what it
    /// says: (signature, what).
    pub fn deviations(&self, issuer: &Key) -> Vec<(&'static str, String)> {
        let mut out = vec![];
        let mut protected = vec![];
        let header = Cbor::Map(vec![(Cbor::Integer(1.into()), Cbor::Integer((-8).into()))]);
        let _ = ciborium::into_writer(&header, &mut protected);
        let tbs = Cbor::Array(vec![
            Cbor::Text("Signature1".into()),
            Cbor::Bytes(protected),
            Cbor::Bytes(vec![]),
            Cbor::Bytes(self.payload.clone()),
        ]);
        let mut bytes = vec![];
        let _ = ciborium::into_writer(&tbs, &mut bytes);
        if !vercre_infosec::sim::verify(&issuer.public(), &bytes, &self.signature) {
            out.push(("signature-not-over-sig-structure", "COSE signature is not over the Sig_structure".into()));
        }
        if self.loose {
            out.push(("mdoc-member-names", "IssuerSignedItem member names or byte strings are not ISO's".into()));
        }
        out
    }
}

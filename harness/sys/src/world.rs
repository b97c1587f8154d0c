//! The providers the libraries run against: a recording state store with
//! injectable faults and suspension points, metadata, subjects with datasets,
//! keys and DID documents.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use anyhow::anyhow;
use base64ct::{Base64UrlUnpadded, Encoding};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::{Algorithm, Curve, Decryptor, Encryptor, KeyType, PublicKeyJwk, SecOps, Signer};
use vercre_openid::provider::StateStore;

use crate::exec::step;

pub type Result<T> = anyhow::Result<T>;

/// A signing key published in a DID document.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key {
    pub did: String,
    pub fragment: String,
    pub secret: Vec<u8>,
}

impl Key {
    pub fn new(did: &str, fragment: &str, secret: &str) -> Self {
        Self { did: did.into(), fragment: fragment.into(), secret: secret.as_bytes().to_vec() }
    }

    pub fn kid(&self) -> String {
        format!("{}#{}", self.did, self.fragment)
    }

    pub fn public(&self) -> Vec<u8> {
        vercre_infosec::sim::public(&self.secret)
    }
}

impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        Ok(vercre_infosec::sim::sign(&self.secret, msg))
    }

    async fn public_key(&self) -> Result<Vec<u8>> {
        Ok(self.public())
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        self.kid()
    }
}

/// Compact JWS with any header, signed (or not) as told.
pub fn jws(header: &Value, claims: &Value, key: &Key) -> String {
    let h = Base64UrlUnpadded::encode_string(header.to_string().as_bytes());
    let c = Base64UrlUnpadded::encode_string(claims.to_string().as_bytes());
    let sig = vercre_infosec::sim::sign(&key.secret, format!("{h}.{c}").as_bytes());
    format!("{h}.{c}.{}", Base64UrlUnpadded::encode_string(&sig))
}

/// Header and claims of a compact JWS, if its signature is `key`'s.
pub fn jws_open(token: &str, key: &Key) -> Option<(Value, Value)> {
    let parts: Vec<&str> = token.split('.').collect();
    let [h, c, s] = parts[..] else { return None };
    let sig = Base64UrlUnpadded::decode_vec(s).ok()?;
    if !vercre_infosec::sim::verify(&key.public(), format!("{h}.{c}").as_bytes(), &sig) {
        return None;
    }
    let h = serde_json::from_slice(&Base64UrlUnpadded::decode_vec(h).ok()?).ok()?;
    let c = serde_json::from_slice(&Base64UrlUnpadded::decode_vec(c).ok()?).ok()?;
    Some((h, c))
}

#[derive(Clone, Debug)]
pub enum Op {
    Put { key: String, value: Value, expiry: i64 },
    Get { key: String, found: bool },
    Purge { key: String },
    Metadata(&'static str, String),
    Authorize { subject: String, config: String },
    Dataset { subject: String, identifier: String },
    Status { subject: String, identifier: String },
    Sign(String),
    Resolve(String),
    Fault(String),
    Http { what: &'static str, body: Value },
}

#[derive(Clone, Debug, Default)]
pub struct Subj {
    /// credential_configuration_id -> identifiers the subject may have
    pub allowed: BTreeMap<String, Vec<String>>,
    /// identifier -> claims
    pub datasets: BTreeMap<String, Map<String, Value>>,
    pub pending: BTreeSet<String>,
}

#[derive(Debug, Default)]
pub struct Inner {
    pub store: BTreeMap<String, (Value, i64)>,
    /// drop entries once their expiry passed (a store may, but need not)
    pub eager: bool,
    pub ops: Vec<Op>,
    /// fail the n-th operation from now (0 = the next one)
    pub fail_at: Option<usize>,
    pub fail_text: String,
    pub op_count: usize,
    pub issuers: BTreeMap<String, Value>,
    pub servers: BTreeMap<String, Value>,
    pub clients: BTreeMap<String, Value>,
    pub verifiers: BTreeMap<String, Value>,
    pub subjects: BTreeMap<String, Subj>,
    pub statuses: BTreeMap<(String, String), Value>,
    pub registered: Vec<Value>,
    /// signer identifier -> key
    pub signers: HashMap<String, Key>,
    pub keys: Vec<Key>,
}

/// Cheaply cloned handle; all clones share everything.
#[derive(Clone, Debug, Default)]
pub struct World(pub Arc<Mutex<Inner>>);

impl World {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        let mut g = self.0.lock().unwrap_or_else(|p| p.into_inner());
        f(&mut g)
    }

    /// Count and log one operation; fails it when the fault plan says so.
    pub fn op(&self, op: Op) -> Result<()> {
        self.with(|i| {
            i.op_count += 1;
            let fail = match i.fail_at {
                Some(0) => {
                    i.fail_at = None;
                    true
                }
                Some(n) => {
                    i.fail_at = Some(n - 1);
                    false
                }
                None => false,
            };
            if fail {
                let t = i.fail_text.clone();
                i.ops.push(Op::Fault(format!("{op:?}")));
                return Err(anyhow!("{t}"));
            }
            i.ops.push(op);
            Ok(())
        })
    }

    pub fn take_ops(&self) -> Vec<Op> {
        self.with(|i| std::mem::take(&mut i.ops))
    }

    pub fn add_key(&self, key: &Key) {
        self.with(|i| i.keys.push(key.clone()));
    }

    /// Everything stored, for before/after comparisons.
    pub fn snapshot(&self) -> BTreeMap<String, (Value, i64)> {
        self.with(|i| i.store.clone())
    }
}

impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> {
        let value = serde_json::to_value(&state)?;
        step().await;
        self.op(Op::Put { key: key.into(), value: value.clone(), expiry: expiry.timestamp() })?;
        self.with(|i| i.store.insert(key.into(), (value, expiry.timestamp())));
        Ok(())
    }

    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        step().await;
        let now = crate::clock::now();
        let v = self.with(|i| {
            i.store.get(key).filter(|(_, e)| !i.eager || *e >= now).map(|(v, _)| v.clone())
        });
        self.op(Op::Get { key: key.into(), found: v.is_some() })?;
        let v = v.ok_or_else(|| anyhow!("no matching item in state store"))?;
        Ok(serde_json::from_value(v)?)
    }

    async fn purge(&self, key: &str) -> Result<()> {
        step().await;
        self.op(Op::Purge { key: key.into() })?;
        self.with(|i| i.store.remove(key));
        Ok(())
    }
}

impl DidResolver for World {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        step().await;
        self.op(Op::Resolve(url.into()))?;
        let keys: Vec<Key> = self.with(|i| i.keys.iter().filter(|k| k.did == url).cloned().collect());
        if keys.is_empty() {
            return Err(anyhow!("DID not found"));
        }
        Ok(Document {
            id: url.into(),
            verification_method: keys
                .iter()
                .map(|k| VerificationMethod {
                    id: k.kid(),
                    controller: k.did.clone(),
                    method_type: MethodType::JsonWebKey {
                        public_key_jwk: PublicKeyJwk {
                            kty: KeyType::Okp,
                            crv: Curve::Ed25519,
                            x: Base64UrlUnpadded::encode_string(&k.public()),
                            ..PublicKeyJwk::default()
                        },
                    },
                })
                .collect(),
        })
    }
}

/// Signer that logs and can be made to fail.
pub struct LoggedSigner(World, Key);

impl Signer for LoggedSigner {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        step().await;
        self.0.op(Op::Sign(self.1.kid()))?;
        Ok(vercre_infosec::sim::sign(&self.1.secret, msg))
    }

    async fn public_key(&self) -> Result<Vec<u8>> {
        Ok(self.1.public())
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        self.1.kid()
    }
}

pub struct NoCrypt;

impl Encryptor for NoCrypt {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("not used"))
    }

    fn public_key(&self) -> Vec<u8> {
        vec![]
    }
}

impl Decryptor for NoCrypt {
    async fn decrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("not used"))
    }
}

impl SecOps for World {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer> {
        let key = self.with(|i| i.signers.get(identifier).cloned());
        let key = key.ok_or_else(|| anyhow!("no signer for {identifier}"))?;
        Ok(LoggedSigner(self.clone(), key))
    }

    fn encryptor(&self, _: &str) -> anyhow::Result<impl Encryptor> {
        Ok(NoCrypt)
    }

    fn decryptor(&self, _: &str) -> anyhow::Result<impl Decryptor> {
        Ok(NoCrypt)
    }
}

#[cfg(feature = "issuer")]
mod issuer {
    use vercre_core::Quota;
    use vercre_openid::issuer::{Client, Dataset, Issuer, Metadata, Server, Subject};
    use vercre_status::issuer::Status;
    use vercre_w3c_vc::model::{Bitstring, CredentialStatus, CredentialStatusType, StatusPurpose};

    use super::*;

    impl vercre_openid::issuer::Provider for World {}

    impl World {
        fn lookup<T: DeserializeOwned>(
            &self, what: &'static str, id: &str, get: impl Fn(&Inner) -> Option<Value>,
        ) -> Result<T> {
            self.op(Op::Metadata(what, id.into()))?;
            let v = self.with(|i| get(i)).ok_or_else(|| anyhow!("{what} not found"))?;
            Ok(serde_json::from_value(v)?)
        }
    }

    impl Metadata for World {
        async fn client(&self, client_id: &str) -> Result<Client> {
            step().await;
            self.lookup("client", client_id, |i| i.clients.get(client_id).cloned())
        }

        async fn issuer(&self, issuer_id: &str) -> Result<Issuer> {
            step().await;
            self.lookup("issuer", issuer_id, |i| i.issuers.get(issuer_id).cloned())
        }

        async fn server(&self, server_id: &str, issuer_id: Option<&str>) -> Result<Server> {
            step().await;
            let id = issuer_id.unwrap_or(server_id);
            self.lookup("server", id, |i| i.servers.get(id).cloned())
        }

        async fn register(&self, client: &Client) -> Result<Client> {
            step().await;
            self.op(Op::Metadata("register", client.oauth.client_id.clone()))?;
            let mut c = client.clone();
            let id = self.with(|i| {
                let id = format!("client-{}", i.registered.len());
                i.registered.push(serde_json::to_value(client).unwrap());
                id
            });
            c.oauth.client_id = id;
            Ok(c)
        }
    }

    impl Subject for World {
        async fn authorize(&self, subject_id: &str, config: &str) -> Result<Vec<String>> {
            step().await;
            self.op(Op::Authorize { subject: subject_id.into(), config: config.into() })?;
            self.with(|i| i.subjects.get(subject_id).and_then(|s| s.allowed.get(config).cloned()))
                .ok_or_else(|| anyhow!("subject is not authorized"))
        }

        async fn dataset(&self, subject_id: &str, identifier: &str) -> Result<Dataset> {
            step().await;
            self.op(Op::Dataset { subject: subject_id.into(), identifier: identifier.into() })?;
            self.with(|i| {
                let s = i.subjects.get(subject_id)?;
                let claims = s.datasets.get(identifier)?.clone();
                Some(Dataset { claims, pending: s.pending.contains(identifier) })
            })
            .ok_or_else(|| anyhow!("no dataset"))
        }
    }

    impl Status for World {
        async fn status(&self, subject: &str, identifier: &str) -> Result<Option<Quota<CredentialStatus>>> {
            step().await;
            self.op(Op::Status { subject: subject.into(), identifier: identifier.into() })?;
            let v = self.with(|i| i.statuses.get(&(subject.into(), identifier.into())).cloned());
            Ok(v.map(|v| {
                Quota::One(CredentialStatus {
                    id: v["id"].as_str().map(Into::into),
                    credential_status_type: CredentialStatusType::Bitstring(Bitstring {
                        status_purpose: StatusPurpose::Revocation,
                        status_list_index: v["index"].as_u64().unwrap_or_default() as usize,
                        status_list_credential: "https://st.example/list".into(),
                        status_size: None,
                        status_message: None,
                        status_reference: None,
                    }),
                })
            }))
        }
    }
}

#[cfg(feature = "verifier")]
mod verifier {
    use vercre_openid::verifier::{Metadata, Verifier, Wallet};

    use super::*;

    impl vercre_openid::verifier::Provider for World {}

    impl Metadata for World {
        async fn verifier(&self, id: &str) -> Result<Verifier> {
            step().await;
            self.op(Op::Metadata("verifier", id.into()))?;
            let v = self.with(|i| i.verifiers.get(id).cloned()).ok_or_else(|| anyhow!("verifier not found"))?;
            Ok(serde_json::from_value(v)?)
        }

        async fn wallet(&self, _: &str) -> Result<Wallet> {
            Err(anyhow!("no wallet metadata"))
        }

        async fn register(&self, verifier: &Verifier) -> Result<Verifier> {
            step().await;
            self.op(Op::Metadata("register", verifier.oauth.client_id.clone()))?;
            Ok(verifier.clone())
        }
    }
}

/// JSON text of something serializable (for evidence and comparisons).
pub fn text(v: &impl Serialize) -> String {
    serde_json::to_string(v).unwrap_or_else(|e| format!("<unserializable: {e}>"))
}

pub fn null() -> Value {
    json!(null)
}

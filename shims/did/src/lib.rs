//! API-compatible stand-in for `vercre-did` (a git dependency that is not available offline).
#![allow(missing_docs)]
use std::future::Future;

use serde::{Deserialize, Serialize};
use vercre_infosec::jose::jwk::PublicKeyJwk;

pub trait DidResolver: Send + Sync {
    fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send;
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub struct Document {
    pub id: String,
    #[serde(default)]
    pub verification_method: Vec<VerificationMethod>,
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub struct VerificationMethod {
    pub id: String,
    pub controller: String,
    #[serde(flatten)]
    pub method_type: MethodType,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
#[serde(tag = "type")]
pub enum MethodType {
    JsonWebKey {
        #[serde(rename = "publicKeyJwk")]
        public_key_jwk: PublicKeyJwk,
    },
}
impl Default for MethodType {
    fn default() -> Self {
        Self::JsonWebKey { public_key_jwk: PublicKeyJwk::default() }
    }
}
impl MethodType {
    pub fn jwk(&self) -> anyhow::Result<PublicKeyJwk> {
        let Self::JsonWebKey { public_key_jwk } = self;
        Ok(public_key_jwk.clone())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Options;

#[derive(Clone, Debug)]
pub enum Resource {
    Document(Document),
    VerificationMethod(VerificationMethod),
}

#[derive(Clone, Debug, Default)]
pub struct Dereferenced {
    pub content_stream: Option<Resource>,
}

/// Resolve the DID and select the verification method the URL names.
pub async fn dereference(
    did_url: &str, _opts: Option<Options>, resolver: &impl DidResolver,
) -> anyhow::Result<Dereferenced> {
    let did = did_url.split('#').next().unwrap_or_default();
    let doc = resolver.resolve(did).await?;
    if !did_url.contains('#') {
        return Ok(Dereferenced { content_stream: Some(Resource::Document(doc)) });
    }
    let vm = doc.verification_method.into_iter().find(|vm| vm.id == did_url);
    Ok(Dereferenced { content_stream: vm.map(Resource::VerificationMethod) })
}

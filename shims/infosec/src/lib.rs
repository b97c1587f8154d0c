//! API-compatible stand-in for `vercre-infosec` (a git dependency that is not available offline).
//!
//! Everything the repository calls is here with the same shape: `jws::{encode, decode}` produce and check
//! compact JWS (`header.claims.signature`), the key is found through the caller's callback by `kid`.
//! The signature scheme is a stand-in (a keyed hash bound to the public key, see [`sim`]): what is under
//! observation is what the repository signs, verifies and accepts, not the arithmetic of Ed25519.
#![allow(missing_docs)]

pub mod cose;
pub mod jose;
pub mod sim;

use std::future::{Future, IntoFuture};

pub use jose::jwa::Algorithm;
pub use jose::jwk::PublicKeyJwk;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum KeyType {
    #[default]
    #[serde(rename = "OKP")]
    Okp,
    #[serde(rename = "EC")]
    Ec,
    #[serde(rename = "oct")]
    Oct,
}

#[derive(Clone, Copy, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Curve {
    #[default]
    Ed25519,
    #[serde(rename = "ES256K", alias = "secp256k1")]
    Es256K,
}

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> anyhow::Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> anyhow::Result<impl Decryptor>;
}

pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send {
        let v = async { self.try_sign(msg).await.expect("should sign") };
        v.into_future()
    }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}

pub trait Encryptor: Send + Sync {
    fn encrypt(
        &self, plaintext: &[u8], recipient_public_key: &[u8],
    ) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}

pub trait Decryptor: Send + Sync {
    fn decrypt(
        &self, ciphertext: &[u8], sender_public_key: &[u8],
    ) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
}

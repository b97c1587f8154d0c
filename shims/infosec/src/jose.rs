pub mod jwa {
    use std::fmt;

    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub enum Algorithm {
        ES256K,
        #[default]
        EdDSA,
    }
    impl fmt::Display for Algorithm {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
}

pub mod jwk {
    use serde::{Deserialize, Serialize};

    pub use crate::{Curve, KeyType};

    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct PublicKeyJwk {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub kid: Option<String>,
        pub kty: KeyType,
        pub crv: Curve,
        pub x: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub y: Option<String>,
        #[serde(rename = "use", skip_serializing_if = "Option::is_none")]
        pub use_: Option<String>,
    }
}

pub mod jwt {
    pub use super::jws::{JwtHeader, Jwt, KeyType, Type};
}

pub mod jws {
    use std::fmt;
    use std::future::Future;

    use anyhow::{anyhow, bail};
    use base64ct::{Base64UrlUnpadded, Encoding};
    use serde::de::DeserializeOwned;
    use serde::{Deserialize, Serialize};

    use super::jwa::Algorithm;
    use super::jwk::PublicKeyJwk;
    use crate::Signer;

    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct Jwt<T> {
        pub header: JwtHeader,
        pub claims: T,
    }

    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct JwtHeader {
        pub typ: Type,
        pub alg: Algorithm,
        #[serde(flatten)]
        pub key: KeyType,
    }

    impl JwtHeader {
        pub fn kid(&self) -> Option<&str> {
            match &self.key {
                KeyType::KeyId(k) => Some(k),
                _ => None,
            }
        }
    }

    #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
    pub enum KeyType {
        #[serde(rename = "kid")]
        KeyId(String),
        #[serde(rename = "jwk")]
        Jwk(PublicKeyJwk),
        #[serde(rename = "x5c")]
        Cert(String),
    }
    impl Default for KeyType {
        fn default() -> Self {
            Self::KeyId(String::new())
        }
    }

    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub enum Type {
        #[default]
        Credential,
        Presentation,
        Request,
        Proof,
    }
    impl Type {
        fn as_str(&self) -> &'static str {
            match self {
                Self::Credential | Self::Presentation => "jwt",
                Self::Request => "oauth-authz-req+jwt",
                Self::Proof => "openid4vci-proof+jwt",
            }
        }
    }
    impl Serialize for Type {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(self.as_str())
        }
    }
    impl<'de> Deserialize<'de> for Type {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            match String::deserialize(d)?.as_str() {
                "jwt" | "JWT" => Ok(Self::Credential),
                "oauth-authz-req+jwt" => Ok(Self::Request),
                "openid4vci-proof+jwt" => Ok(Self::Proof),
                t => Err(serde::de::Error::custom(format!("unknown typ {t}"))),
            }
        }
    }
    impl fmt::Display for Type {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(self.as_str())
        }
    }

    pub async fn encode<T>(typ: Type, claims: &T, signer: impl Signer) -> anyhow::Result<String>
    where
        T: Serialize + Send + Sync,
    {
        let header = JwtHeader {
            typ,
            alg: signer.algorithm(),
            key: KeyType::KeyId(signer.verification_method()),
        };
        let header = Base64UrlUnpadded::encode_string(&serde_json::to_vec(&header)?);
        let claims = Base64UrlUnpadded::encode_string(&serde_json::to_vec(claims)?);
        let payload = format!("{header}.{claims}");
        let sig = signer.try_sign(payload.as_bytes()).await?;
        Ok(format!("{payload}.{}", Base64UrlUnpadded::encode_string(&sig)))
    }

    pub async fn decode<F, Fut, T>(token: &str, pk_cb: F) -> anyhow::Result<Jwt<T>>
    where
        T: DeserializeOwned + Send,
        F: Fn(String) -> Fut + Send + Sync,
        Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send,
    {
        let parts = token.split('.').collect::<Vec<&str>>();
        if parts.len() != 3 {
            bail!("invalid Compact JWS format");
        }
        let header_bytes =
            Base64UrlUnpadded::decode_vec(parts[0]).map_err(|e| anyhow!("issue decoding header: {e}"))?;
        let claims_bytes =
            Base64UrlUnpadded::decode_vec(parts[1]).map_err(|e| anyhow!("issue decoding claims: {e}"))?;
        let sig =
            Base64UrlUnpadded::decode_vec(parts[2]).map_err(|e| anyhow!("issue decoding signature: {e}"))?;
        let header: JwtHeader = serde_json::from_slice(&header_bytes)
            .map_err(|e| anyhow!("issue deserializing header: {e}"))?;
        if header.alg != Algorithm::EdDSA {
            bail!("'alg' is not recognised");
        }
        let KeyType::KeyId(kid) = &header.key else {
            bail!("'kid' is not set");
        };
        let jwk = pk_cb(kid.to_string()).await?;
        let public =
            Base64UrlUnpadded::decode_vec(&jwk.x).map_err(|e| anyhow!("unable to decode x: {e}"))?;
        let payload = format!("{}.{}", parts[0], parts[1]);
        if !crate::sim::verify(&public, payload.as_bytes(), &sig) {
            bail!("unable to verify signature");
        }
        let claims = serde_json::from_slice(&claims_bytes)
            .map_err(|e| anyhow!("issue deserializing claims: {e}"))?;
        Ok(Jwt { header, claims })
    }
}

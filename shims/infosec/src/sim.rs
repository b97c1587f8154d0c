//! Stand-in signature scheme: `sig = H("sig", pub, msg)` with `pub = H("pub", secret)`.
//! Callers outside [`sign`] never build a signature for a key they do not hold, so a signature that
//! verifies is one the holder of the key made over exactly these bytes.
use sha2::{Digest, Sha256};

pub fn public(secret: &[u8]) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"vsim-pub");
    h.update(secret);
    h.finalize().to_vec()
}

pub fn sign(secret: &[u8], msg: &[u8]) -> Vec<u8> {
    mac(&public(secret), msg)
}

pub fn verify(public: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    mac(public, msg) == sig
}

fn mac(public: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for i in 0u8..2 {
        let mut h = Sha256::new();
        h.update(b"vsim-sig");
        h.update([i]);
        h.update(public);
        h.update(msg);
        out.extend(h.finalize());
    }
    out
}

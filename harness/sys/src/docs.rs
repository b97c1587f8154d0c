//! Generated W3C credential and presentation documents, as JSON.

use serde_json::{json, Map, Value};

use crate::rng::Rng;

pub fn any_text(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        r.ident()
    } else {
        r.hostile(8)
    }
}

pub fn any_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => json!(any_text(r)),
        1 => json!(r.next() as i64),
        2 => json!(r.next()),
        3 => json!(r.chance(1, 2)),
        4 => Value::Null,
        5 => json!(r.below(1000) as f64 / 8.0),
        6 => Value::Array((0..r.below(4)).map(|_| any_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (any_text(r), any_json(r, depth - 1))).collect()),
    }
}

/// One item bare, or a list of any length.
pub fn quota(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> Value) -> Value {
    if r.chance(1, 2) {
        f(r)
    } else {
        Value::Array((0..r.range(1, 3)).map(|_| f(r)).collect())
    }
}

pub fn date(r: &mut Rng) -> Value {
    let t = chrono::DateTime::from_timestamp(r.below(4_000_000_000) as i64, 0).unwrap();
    json!(t.to_rfc3339_opts(chrono::SecondsFormat::Secs, true))
}

fn put(r: &mut Rng, m: &mut Map<String, Value>, k: &str, f: impl FnOnce(&mut Rng) -> Value) {
    if r.chance(1, 2) {
        let v = f(r);
        m.insert(k.into(), v);
    }
}

pub fn extras(r: &mut Rng, taken: &[&str]) -> Map<String, Value> {
    let mut m = Map::new();
    for _ in 0..r.below(4) {
        let k = any_text(r);
        if !taken.contains(&k.as_str()) {
            let v = any_json(r, 2);
            m.insert(k, v);
        }
    }
    m
}

pub fn subject(r: &mut Rng) -> Value {
    let mut m = extras(r, &["id"]);
    m.insert("claim".into(), any_json(r, 2));
    put(r, &mut m, "id", |r| json!(format!("did:key:{}", r.ident())));
    Value::Object(m)
}

fn lang(r: &mut Rng) -> Value {
    fn obj(r: &mut Rng) -> Value {
        let mut m = Map::new();
        m.insert("@value".into(), json!(any_text(r)));
        put(r, &mut m, "@language", |r| json!(*r.pick(&["en", "ar", "fr", "de-CH"])));
        put(r, &mut m, "@direction", |r| json!(*r.pick(&["ltr", "rtl"])));
        Value::Object(m)
    }
    if r.chance(1, 3) {
        json!(any_text(r))
    } else {
        quota(r, obj)
    }
}

pub fn status(r: &mut Rng) -> Value {
    let mut m = Map::new();
    put(r, &mut m, "id", |r| json!(any_text(r)));
    m.insert("type".into(), json!("BitstringStatusListEntry"));
    m.insert("statusPurpose".into(), json!(*r.pick(&["revocation", "suspension", "message"])));
    m.insert("statusListIndex".into(), json!(r.below(200_000)));
    m.insert("statusListCredential".into(), json!(any_text(r)));
    put(r, &mut m, "statusSize", |r| json!(r.below(9)));
    put(r, &mut m, "statusMessage", |r| {
        Value::Array((0..r.below(3)).map(|i| json!({"status": format!("0x{i}"), "message": any_text(r)})).collect())
    });
    put(r, &mut m, "statusReference", |r| json!(any_text(r)));
    Value::Object(m)
}

pub fn proof(r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("type".into(), json!("DataIntegrityProof"));
    m.insert("proofPurpose".into(), json!("assertionMethod"));
    m.insert("verificationMethod".into(), json!(any_text(r)));
    m.insert("proofValue".into(), json!(any_text(r)));
    for k in ["id", "cryptosuite", "challenge", "nonce"] {
        put(r, &mut m, k, |r| json!(any_text(r)));
    }
    for k in ["created", "expires"] {
        put(r, &mut m, k, date);
    }
    for k in ["domain", "previousProof"] {
        put(r, &mut m, k, |r| quota(r, |r| json!(any_text(r))));
    }
    Value::Object(m)
}

fn contexts(r: &mut Rng) -> Value {
    let mut c = vec![json!("https://www.w3.org/2018/credentials/v1")];
    for _ in 0..r.below(4) {
        c.push(if r.chance(1, 2) {
            json!(any_text(r))
        } else {
            Value::Object(extras(r, &[]))
        });
    }
    Value::Array(c)
}

fn digests(r: &mut Rng, m: &mut Map<String, Value>) {
    for k in ["digestSRI", "digestMultibase"] {
        put(r, m, k, |r| quota(r, |r| json!(any_text(r))));
    }
}

/// A credential with any combination of the members the model has.
pub fn credential(r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("@context".into(), contexts(r));
    let types = quota(r, |r| json!(any_text(r)));
    m.insert("type".into(), types);
    let issuer = if r.chance(1, 2) {
        json!(format!("https://issuer.example/{}", any_text(r)))
    } else {
        let mut i = extras(r, &["id"]);
        i.insert("id".into(), json!(format!("https://issuer.example/{}", r.ident())));
        Value::Object(i)
    };
    m.insert("issuer".into(), issuer);
    let subj = quota(r, subject);
    m.insert("credentialSubject".into(), subj);
    put(r, &mut m, "id", |r| json!(any_text(r)));
    put(r, &mut m, "name", lang);
    put(r, &mut m, "description", lang);
    put(r, &mut m, "validFrom", date);
    put(r, &mut m, "validUntil", date);
    put(r, &mut m, "credentialStatus", |r| quota(r, status));
    put(r, &mut m, "credentialSchema", |r| quota(r, |r| json!({"id": any_text(r), "type": any_text(r)})));
    if r.chance(1, 4) {
        let p = quota(r, proof);
        m.insert("proof".into(), p);
    }
    put(r, &mut m, "relatedResource", |r| {
        quota(r, |r| {
            let mut m = Map::new();
            m.insert("id".into(), json!(any_text(r)));
            put(r, &mut m, "mediaType", |r| json!(any_text(r)));
            digests(r, &mut m);
            Value::Object(m)
        })
    });
    put(r, &mut m, "refreshService", |r| {
        json!({"url": any_text(r), "type": any_text(r), "refreshToken": any_text(r)})
    });
    put(r, &mut m, "termsOfUse", |r| {
        quota(r, |r| {
            let mut m = extras(r, &["type", "id"]);
            m.insert("type".into(), json!(any_text(r)));
            put(r, &mut m, "id", |r| json!(any_text(r)));
            Value::Object(m)
        })
    });
    put(r, &mut m, "evidence", |r| {
        quota(r, |r| {
            let mut m = extras(r, &["id", "type", "name", "description", "digestSRI", "digestMultibase"]);
            m.insert("type".into(), Value::Array((0..r.below(3)).map(|_| json!(any_text(r))).collect()));
            for k in ["id", "name", "description"] {
                put(r, &mut m, k, |r| json!(any_text(r)));
            }
            digests(r, &mut m);
            Value::Object(m)
        })
    });
    Value::Object(m)
}

/// A presentation; `embedded` lets it carry credentials as objects.
pub fn presentation(r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("@context".into(), contexts(r));
    let types = quota(r, |r| json!(any_text(r)));
    m.insert("type".into(), types);
    put(r, &mut m, "id", |r| json!(any_text(r)));
    put(r, &mut m, "holder", |r| json!(any_text(r)));
    put(r, &mut m, "verifiableCredential", |r| {
        Value::Array(
            (0..r.below(4)).map(|_| if r.chance(1, 2) { json!(any_text(r)) } else { credential(r) }).collect(),
        )
    });
    if r.chance(1, 4) {
        let p = quota(r, proof);
        m.insert("proof".into(), p);
    }
    Value::Object(m)
}

fn each(v: Option<&mut Value>, f: &dyn Fn(&mut Map<String, Value>)) {
    match v {
        Some(Value::Array(a)) => {
            for x in a {
                if let Value::Object(m) = x {
                    f(m);
                }
            }
        }
        Some(Value::Object(m)) => f(m),
        _ => {}
    }
}

/// The same document with `null` for the optional members dropped: a member
/// that is null says as much as one that is absent.
pub fn plain_credential(mut v: Value) -> Value {
    let drop = |m: &mut Map<String, Value>, keys: &[&str]| {
        for k in keys {
            if m.get(*k).is_some_and(Value::is_null) {
                m.remove(*k);
            }
        }
    };
    if let Value::Object(m) = &mut v {
        drop(m, &["id", "validFrom", "validUntil"]);
        each(m.get_mut("evidence"), &|m| drop(m, &["id", "name", "description"]));
        each(m.get_mut("termsOfUse"), &|m| drop(m, &["id"]));
    }
    v
}

pub fn plain_presentation(mut v: Value) -> Value {
    if let Some(Value::Array(a)) = v.get_mut("verifiableCredential") {
        for c in a.iter_mut() {
            *c = plain_credential(c.take());
        }
    }
    v
}

/// A message with the credentials and presentations in it made plain.
pub fn plain(mut v: Value) -> Value {
    match &mut v {
        Value::Array(a) => a.iter_mut().for_each(|x| *x = plain(x.take())),
        Value::Object(m) => {
            for x in m.values_mut() {
                *x = plain(x.take());
            }
            if m.contains_key("credentialSubject") {
                return plain_credential(v);
            }
        }
        _ => {}
    }
    v
}

/// Equality of documents, numbers compared by value.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let whole = |n: &serde_json::Number| {
                let f = || n.as_f64().filter(|f| f.fract() == 0.0).map(|f| f as i128);
                n.as_i64().map(i128::from).or(n.as_u64().map(i128::from)).or_else(f)
            };
            x == y || whole(x).map_or(x.as_f64() == y.as_f64(), |a| whole(y) == Some(a))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w)))
        }
        _ => a == b,
    }
}

/// Two messages say the same.
pub fn alike(a: &Value, b: &Value) -> bool {
    same(&plain(a.clone()), &plain(b.clone()))
}

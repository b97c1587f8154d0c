//! Monitors over credential and presentation formats: data model, proofs,
//! ISO mdocs, status lists.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;

use base64ct::{Base64UrlUnpadded, Encoding};
use serde_json::{json, Map, Value};
use sys::docs::{self, any_json, any_text, plain_credential, plain_presentation, same};
use sys::exec::block_on;
use sys::report::{args, Report};
use sys::rng::Rng;
use sys::world::{jws, jws_open, Key, World};
use sys::{clock, guarded, mdoc};
use vercre_core::{Kind, Quota};
use vercre_infosec::{Algorithm, Signer};
use vercre_w3c_vc::model::types::{LangString, LangValue};
use vercre_w3c_vc::model::{CredentialSubject, StatusPurpose, VerifiableCredential, VerifiablePresentation};
use vercre_w3c_vc::proof::{self, Payload, Verify, W3cFormat};

const ASSUME: &[&str] = &[
    "JOSE signatures are a stand-in scheme: a signature verifies exactly for the key and bytes it was made with",
    "keys are resolved by the harness's DID resolver",
];

fn main() {
    let (prop, rep) = args();
    match prop.as_str() {
        "P11" => proofs(rep),
        "P12" => models(rep),
        "P13" => mdocs(rep),
        "P14" => bitstrings(rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

fn vc_of(v: &Value) -> Result<VerifiableCredential, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}

fn vp_of(v: &Value) -> Result<VerifiablePresentation, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}

fn as_json(v: &impl serde::Serialize) -> Value {
    serde_json::to_value(v).unwrap_or(Value::Null)
}

fn keys(w: &World) -> (Key, Key, Key) {
    let a = Key::new("did:web:issuer.example", "key-0", "issuer secret");
    let b = Key::new("did:web:issuer.example", "key-1", "issuer second secret");
    let c = Key::new("did:key:holder", "key-0", "holder secret");
    for k in [&a, &b, &c] {
        w.add_key(k);
    }
    (a, b, c)
}

fn flat<T>(r: Result<anyhow::Result<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Tokens nobody made: alterations of a genuine one, or made with the wrong
/// key or header.
fn forge(r: &mut Rng, tok: &str, header: &Value, claims: &Value, owner: &Key, other: &Key) -> (String, &'static str) {
    let parts: Vec<&str> = tok.split('.').collect();
    match r.below(11) {
        0 => {
            let mut c: Vec<char> = tok.chars().collect();
            let k = r.below(c.len());
            let was = c[k];
            let mut to = *r.pick(&['A', 'b', '7', '_', '-', 'z']);
            if to == was || was == '.' {
                to = if was == 'Q' { 'R' } else { 'Q' };
            }
            c[k] = to;
            (c.into_iter().collect(), "one character altered")
        }
        1 => (jws(header, claims, other), "signed by another key"),
        2 => {
            let mut h = header.clone();
            h["kid"] = json!(other.kid());
            (jws(&h, claims, owner), "names another key")
        }
        3 => {
            let mut h = header.clone();
            h["kid"] = json!(format!("did:key:unknown-{}#key-0", r.ident()));
            (jws(&h, claims, owner), "unresolvable key")
        }
        4 => {
            let mut h = header.clone();
            h.as_object_mut().unwrap().remove("kid");
            (jws(&h, claims, owner), "no key named")
        }
        5 => {
            let mut h = header.clone();
            h["alg"] = json!("none");
            let h64 = Base64UrlUnpadded::encode_string(h.to_string().as_bytes());
            (format!("{h64}.{}.", parts[1]), "alg none without signature")
        }
        6 => (format!("{}.{}.", parts[0], parts[1]), "signature removed"),
        7 => (format!("{}.{}", parts[0], parts[1]), "two parts"),
        8 => {
            let mut c = claims.clone();
            c["iss"] = json!("did:web:someone.else");
            let c64 = Base64UrlUnpadded::encode_string(c.to_string().as_bytes());
            (format!("{}.{c64}.{}", parts[0], parts[2]), "claims replaced under an old signature")
        }
        9 => (format!("{}.{}.{}", parts[0], parts[1], Base64UrlUnpadded::encode_string(&[7; 64])), "made-up signature"),
        _ => {
            let mut h = header.clone();
            h["kid"] = json!(owner.did.clone());
            (jws(&h, claims, owner), "names a document, not a key")
        }
    }
}

/// P11: proofs say exactly what was signed, by whom, and anything else fails.
fn proofs(mut rep: Report) {
    let n = rep.n(6000, 120_000);
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        let mut r = Rng::case(rep.seed ^ 0x11, i);
        let w = World::new();
        let (issuer, second, holder) = keys(&w);
        let signer = if r.chance(1, 4) { second.clone() } else { issuer.clone() };
        let doc = docs::credential(&mut r);
        rep.eval(&doc.to_string(), true);
        let vc = match vc_of(&doc) {
            Ok(v) => v,
            Err(e) => {
                rep.violation("credential-unreadable", format!("{e}: {doc}"));
                continue;
            }
        };
        let issued_at = r.below(4_000_000_000) as i64;
        let fmt = if r.chance(1, 2) { W3cFormat::JwtVcJson } else { W3cFormat::JwtVcJsonLd };
        let made = flat(guarded(|| {
            block_on(proof::create(fmt, Payload::Vc { vc: vc.clone(), issued_at }, signer.clone()))
        }));
        let tok = match made {
            Ok(t) => t,
            Err(e) => {
                rep.violation("credential-not-signed", format!("{e}: {doc}"));
                continue;
            }
        };
        rep.count("credentials_signed");
        let Some((header, claims)) = jws_open(&tok, &signer) else {
            rep.violation("not-the-signers-signature", tok.clone());
            continue;
        };
        rep.check(header["kid"] == json!(signer.kid()), "kid-not-signers", || header.to_string());
        rep.check(header["alg"] == json!("EdDSA"), "alg-not-signers", || header.to_string());
        rep.check(claims["iat"] == json!(issued_at), "iat", || claims.to_string());
        let iss = doc["issuer"].as_str().or_else(|| doc["issuer"]["id"].as_str()).unwrap();
        rep.check(claims["iss"] == json!(iss), "iss-not-issuer", || claims.to_string());
        let subj = doc["credentialSubject"].get(0).unwrap_or(&doc["credentialSubject"]);
        let sub = subj["id"].as_str().unwrap_or_default();
        rep.check(claims["sub"].as_str().unwrap_or_default() == sub, "sub-not-subject", || claims.to_string());
        let jti = doc["id"].as_str().unwrap_or_default();
        rep.check(claims["jti"].as_str().unwrap_or_default() == jti, "jti-not-id", || claims.to_string());
        let exp = doc["validUntil"].as_str().map(|d| chrono::DateTime::parse_from_rfc3339(d).unwrap().timestamp());
        rep.check(claims["exp"].as_i64() == exp, "exp-not-valid-until", || claims.to_string());
        rep.check(
            same(&plain_credential(claims["vc"].clone()), &plain_credential(doc.clone())),
            "signed-credential-differs",
            || format!("{doc}\n{}", claims["vc"]),
        );

        // verification gives back what was signed
        match flat(guarded(|| block_on(proof::verify(Verify::Vc(&Kind::String(tok.clone())), &w)))) {
            Ok(Payload::Vc { vc: got, issued_at: at }) => {
                rep.count("credentials_verified");
                rep.check(got == vc, "verified-credential-differs", || format!("{doc}\n{}", as_json(&got)));
                rep.check(at == issued_at, "verified-issued-at-differs", || format!("{at} {issued_at}"));
            }
            Ok(_) => rep.violation("verified-as-something-else", tok.clone()),
            Err(e) => rep.violation("genuine-credential-refused", format!("{e} {claims}")),
        }
        for _ in 0..4 {
            let (bad, how) = forge(&mut r, &tok, &header, &claims, &signer, &holder);
            if bad == tok {
                continue;
            }
            rep.count("forged_credentials");
            rep.saw("forgeries", how);
            match flat(guarded(|| block_on(proof::verify(Verify::Vc(&Kind::String(bad.clone())), &w)))) {
                Ok(_) => rep.violation("forged-credential-accepted", format!("{how}: {bad}")),
                Err(e) => rep.check(!e.starts_with("panic"), "verification-panicked", || format!("{how}: {e}")),
            }
        }
        // a credential that is not a signed token proves nothing
        let unsigned = Kind::Object(vc.clone());
        rep.check(
            matches!(guarded(|| block_on(proof::verify(Verify::Vc(&unsigned), &w)).is_err()), Ok(true)),
            "unsigned-credential-accepted",
            || doc.to_string(),
        );
        rep.check(
            matches!(guarded(|| block_on(proof::verify(Verify::Vp(&Kind::String(tok.clone())), &w)).is_err()), Ok(true)),
            "credential-accepted-as-presentation",
            || tok.clone(),
        );
        rep.check(
            matches!(
                guarded(|| block_on(proof::create(
                    W3cFormat::DataIntegrityJsonLd,
                    Payload::Vc { vc: vc.clone(), issued_at },
                    signer.clone()
                ))
                .is_err()),
                Ok(true)
            ),
            "unsupported-format-not-refused",
            || "data integrity".into(),
        );

        // presentations
        let mut pdoc = docs::presentation(&mut r);
        if r.chance(1, 2) {
            pdoc["verifiableCredential"] = json!([tok]);
        }
        let vp = match vp_of(&pdoc) {
            Ok(v) => v,
            Err(e) => {
                rep.violation("presentation-unreadable", format!("{e}: {pdoc}"));
                continue;
            }
        };
        let (client_id, nonce) = (any_text(&mut r), any_text(&mut r));
        clock::advance(r.below(1_000_000) as i64);
        let before = clock::now();
        let made = flat(guarded(|| {
            block_on(proof::create(
                W3cFormat::JwtVcJson,
                Payload::Vp { vp: vp.clone(), client_id: client_id.clone(), nonce: nonce.clone() },
                holder.clone(),
            ))
        }));
        let after = clock::now();
        let ptok = match made {
            Ok(t) => t,
            Err(e) => {
                rep.violation("presentation-not-signed", format!("{e}: {pdoc}"));
                continue;
            }
        };
        rep.count("presentations_signed");
        let Some((header, claims)) = jws_open(&ptok, &holder) else {
            rep.violation("not-the-signers-signature", ptok.clone());
            continue;
        };
        rep.check(header["kid"] == json!(holder.kid()), "kid-not-signers", || header.to_string());
        rep.check(claims["aud"] == json!(client_id), "aud-not-verifier", || claims.to_string());
        rep.check(claims["nonce"] == json!(nonce), "nonce-not-verifiers", || claims.to_string());
        let h = pdoc["holder"].as_str().unwrap_or_default();
        rep.check(claims["iss"].as_str().unwrap_or_default() == h, "iss-not-holder", || claims.to_string());
        let jti = pdoc["id"].as_str().unwrap_or_default();
        rep.check(claims["jti"].as_str().unwrap_or_default() == jti, "jti-not-id", || claims.to_string());
        let (iat, nbf, exp) = (claims["iat"].as_i64(), claims["nbf"].as_i64(), claims["exp"].as_i64());
        let now = |t: Option<i64>| t.is_some_and(|t| t >= before - 1 && t <= after + 1);
        rep.check(now(iat) && now(nbf), "not-made-now", || format!("{claims} {before}"));
        rep.check(
            exp.is_some_and(|e| e > after && e <= after + 3601),
            "presentation-lifetime",
            || format!("{claims} {before}"),
        );
        rep.check(
            same(&plain_presentation(claims["vp"].clone()), &plain_presentation(pdoc.clone())),
            "signed-presentation-differs",
            || format!("{pdoc}\n{}", claims["vp"]),
        );
        match flat(guarded(|| block_on(proof::verify(Verify::Vp(&Kind::String(ptok.clone())), &w)))) {
            Ok(Payload::Vp { vp: got, client_id: c, nonce: n }) => {
                rep.count("presentations_verified");
                rep.check(got == vp, "verified-presentation-differs", || format!("{pdoc}\n{}", as_json(&got)));
                rep.check(c == client_id && n == nonce, "verified-audience-or-nonce", || format!("{c} {n} {claims}"));
            }
            Ok(_) => rep.violation("verified-as-something-else", ptok.clone()),
            Err(e) => rep.violation("genuine-presentation-refused", format!("{e} {claims}")),
        }
        for _ in 0..4 {
            let (bad, how) = forge(&mut r, &ptok, &header, &claims, &holder, &issuer);
            if bad == ptok {
                continue;
            }
            rep.count("forged_presentations");
            match flat(guarded(|| block_on(proof::verify(Verify::Vp(&Kind::String(bad.clone())), &w)))) {
                Ok(_) => rep.violation("forged-presentation-accepted", format!("{how}: {bad}")),
                Err(e) => rep.check(!e.starts_with("panic"), "verification-panicked", || format!("{how}: {e}")),
            }
        }
        rep.check(
            matches!(guarded(|| block_on(proof::verify(Verify::Vc(&Kind::String(ptok.clone())), &w)).is_err()), Ok(true)),
            "presentation-accepted-as-credential",
            || ptok.clone(),
        );
        // a presentation that is not a signed token
        let mut bare = pdoc.clone();
        let has_proof = r.chance(1, 2);
        if has_proof {
            bare["proof"] = json!({"challenge": nonce, "proofValue": r.ident()});
        } else {
            bare.as_object_mut().unwrap().remove("proof");
        }
        if let Ok(vp) = vp_of(&bare) {
            rep.count("unsigned_presentations");
            match guarded(|| block_on(proof::verify(Verify::Vp(&Kind::Object(vp)), &w)).is_ok()) {
                Ok(false) => {}
                Ok(true) if has_proof => rep.violation("embedded-presentation-proof-not-checked", bare.to_string()),
                Ok(true) => rep.violation("unsigned-presentation-accepted", bare.to_string()),
                Err(e) => rep.violation("verification-panicked", e),
            }
        }
    }
    for (what, n) in [
        ("credentials_verified", 1000),
        ("presentations_verified", 1000),
        ("forged_credentials", 1000),
        ("forged_presentations", 1000),
    ] {
        rep.require(what, n);
    }
    // degenerate credentials: no panic
    for doc in [json!({}), json!({"credentialSubject": []}), json!({"issuer": {}, "type": []})] {
        if let Ok(vc) = vc_of(&doc) {
            let res = guarded(|| {
                let k = Key::new("did:web:i", "k", "s");
                let _ = block_on(proof::create(W3cFormat::JwtVcJson, Payload::Vc { vc, issued_at: 1 }, k));
            });
            rep.check(res.is_ok(), "signing-panicked", || format!("{doc} {res:?}"));
        }
    }
    rep.finish(
        "a case is one generated credential and presentation, signed, read independently, verified and forged; distinct by document",
        ASSUME,
    )
}

/// P12: the documents survive the data model and the builders build them.
fn models(mut rep: Report) {
    let n = rep.n(12_000, 250_000);
    let mut ids = HashSet::new();
    for i in rep.cases(n) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 0x12, i);
        match i % 6 {
            0 | 1 => {
                let doc = docs::credential(&mut r);
                rep.eval(&doc.to_string(), true);
                rep.count("credential_documents");
                match guarded(|| vc_of(&doc)) {
                    Ok(Ok(vc)) => {
                        let back = as_json(&vc);
                        rep.check(
                            same(&plain_credential(back.clone()), &plain_credential(doc.clone())),
                            "credential-altered",
                            || format!("{doc}\n{back}"),
                        );
                        // named members are where a reader of the model looks for them
                        let listed = |v: &Value| match v {
                            Value::Array(a) => a.clone(),
                            Value::Null => vec![],
                            v => vec![v.clone()],
                        };
                        let have = match &vc.evidence {
                            None => vec![],
                            Some(Quota::One(e)) => vec![e.clone()],
                            Some(Quota::Many(v)) => v.clone(),
                        };
                        for (e, d) in have.iter().zip(listed(&doc["evidence"])) {
                            for (got, k) in [
                                (json!(e.id), "id"),
                                (json!(e.type_), "type"),
                                (json!(e.name), "name"),
                                (json!(e.description), "description"),
                                (json!(e.digest_sri), "digestSRI"),
                                (json!(e.digest_multibase), "digestMultibase"),
                            ] {
                                rep.check(
                                    same(&json!(listed(&got)), &json!(listed(&d[k]))),
                                    "credential-member-misread",
                                    || format!("evidence {k} {got} of {d}"),
                                );
                            }
                        }
                        let text = serde_json::to_string(&vc).unwrap_or_default();
                        rep.check(
                            serde_json::from_str::<VerifiableCredential>(&text).ok().as_ref() == Some(&vc),
                            "credential-round-trip",
                            || text.clone(),
                        );
                    }
                    Ok(Err(e)) => rep.violation("credential-refused", format!("{e} {doc}")),
                    Err(e) => rep.violation("model-panicked", format!("{e} {doc}")),
                }
            }
            2 => {
                let doc = docs::presentation(&mut r);
                rep.eval(&doc.to_string(), true);
                rep.count("presentation_documents");
                let plain = plain_presentation(doc.clone());
                let text = doc.to_string();
                let coded = Base64UrlUnpadded::encode_string(text.as_bytes());
                for (how, got) in [
                    ("value", flat(guarded(|| vp_of(&doc).map_err(|e| anyhow::anyhow!(e))))),
                    ("text", flat(guarded(|| text.parse::<VerifiablePresentation>()))),
                    ("base64url", flat(guarded(|| coded.parse::<VerifiablePresentation>()))),
                ] {
                    match got {
                        Ok(vp) => {
                            let back = plain_presentation(as_json(&vp));
                            rep.check(same(&back, &plain), "presentation-altered", || format!("{how} {doc}\n{back}"));
                        }
                        Err(e) => rep.violation("presentation-refused", format!("{how} {e} {doc}")),
                    }
                }
            }
            3 => {
                rep.count("hostile_texts");
                let mut t = match r.below(4) {
                    0 => String::new(),
                    1 => r.hostile(12),
                    2 => docs::presentation(&mut r).to_string(),
                    _ => docs::credential(&mut r).to_string(),
                };
                for _ in 0..r.below(4) {
                    let c: Vec<char> = t.chars().collect();
                    let k = r.below(c.len() + 1);
                    let mut c2 = c.clone();
                    match r.below(3) {
                        0 if k < c2.len() => {
                            c2.remove(k);
                        }
                        1 => c2.insert(k, *r.pick(&['é', '{', '[', '"', '\u{0}', '漢', '9'])),
                        _ => c2.truncate(k),
                    }
                    t = c2.into_iter().collect();
                }
                rep.eval(&t, true);
                let res = guarded(|| {
                    let _ = t.parse::<VerifiablePresentation>();
                    let _ = serde_json::from_str::<VerifiableCredential>(&t);
                    let _ = serde_json::from_str::<VerifiablePresentation>(&t);
                });
                rep.check(res.is_ok(), "reading-panicked", || format!("{t:?} {res:?}"));
            }
            4 => builders(&mut rep, &mut r, &mut ids),
            _ => languages(&mut rep, &mut r),
        }
    }
    // names of purposes and formats
    for name in ["revocation", "suspension", "message"] {
        let got = serde_json::from_value::<StatusPurpose>(json!(name));
        rep.check(
            got.as_ref().is_ok_and(|p| p.to_string() == name && json!(p) == json!(name)),
            "status-purpose-name",
            || format!("{name} {got:?}"),
        );
    }
    for (name, f) in [
        ("jwt_vc_json", W3cFormat::JwtVcJson),
        ("jwt_vc_json-ld", W3cFormat::JwtVcJsonLd),
        ("ldp_vc", W3cFormat::DataIntegrityJsonLd),
    ] {
        let got = serde_json::from_value::<W3cFormat>(json!(name));
        rep.check(got.is_ok_and(|g| g == f) && json!(f) == json!(name), "format-name", || format!("{name}"));
    }
    rep.require("credential_documents", 500);
    rep.require("built", 100);
    rep.require("not_built", 100);
    rep.finish("a case is one document, text, builder history or language string; distinct by content", ASSUME)
}

fn builders(rep: &mut Report, r: &mut Rng, ids: &mut HashSet<String>) {
    let mut log = vec![];
    // credential
    let mut b = VerifiableCredential::builder();
    let mut want = Map::new();
    let mut context = vec![json!("https://www.w3.org/2018/credentials/v1")];
    let mut types = vec![json!("VerifiableCredential")];
    let mut subjects: Vec<Value> = vec![];
    let mut proofs: Vec<Value> = vec![];
    let mut issuer = String::new();
    for _ in 0..r.below(16) {
        let k = r.below(11);
        log.push(k);
        match k {
            0 => {
                let c = any_text(r);
                context.push(json!(c));
                b = b.add_context(Kind::String(c));
            }
            1 => {
                let c = Value::Object(docs::extras(r, &[]));
                context.push(c.clone());
                b = b.add_context(Kind::Object(c));
            }
            2 => {
                let t = any_text(r);
                types.push(json!(t));
                b = b.add_type(t);
            }
            3 => {
                let t = any_text(r);
                want.insert("id".into(), json!(t));
                b = b.id(t);
            }
            4 => {
                issuer = any_text(r);
                b = b.issuer(issuer.clone());
            }
            5 | 6 => {
                let mut s = docs::subject(r);
                if s["id"].is_string() && r.chance(1, 6) {
                    // nothing is claimed of the subject but who it is
                    s = json!({"id": s["id"]});
                }
                let m = s.as_object().unwrap().clone();
                let id = m.get("id").and_then(Value::as_str).map(str::to_string);
                let mut claims = m.clone();
                claims.remove("id");
                b = b.add_subject(CredentialSubject { id, claims });
                subjects.push(s);
            }
            7 => {
                let p = docs::proof(r);
                for _ in 0..if r.chance(1, 5) { 2 } else { 1 } {
                    if let Ok(x) = serde_json::from_value(p.clone()) {
                        b = b.add_proof(x);
                        proofs.push(p.clone());
                    }
                }
            }
            8 | 9 => {
                // the last one counts, and can be taken back
                let t = r.chance(3, 4).then(|| any_text(r));
                let l = t.as_ref().map(|t| LangString::new_string(t));
                let name = if k == 8 { "name" } else { "description" };
                want.remove(name);
                if let Some(t) = &t {
                    want.insert(name.into(), json!(t));
                }
                b = if k == 8 { b.add_name(l) } else { b.add_description(l) };
            }
            _ => {
                let st = docs::quota(r, docs::status);
                if let Ok(x) = serde_json::from_value(st.clone()) {
                    b = b.status(Some(x));
                    want.insert("credentialStatus".into(), st);
                }
            }
        }
    }
    let some = |mut v: Vec<Value>| if v.len() == 1 { v.remove(0) } else { Value::Array(v) };
    let complete = context.len() > 1 && types.len() > 1 && !issuer.is_empty() && !subjects.is_empty();
    rep.eval(&format!("{log:?} {types:?}"), true);
    let got = flat(guarded(|| b.build()));
    match got {
        Ok(vc) => {
            rep.count("built");
            rep.check(complete, "incomplete-credential-built", || as_json(&vc).to_string());
            if complete {
                want.insert("@context".into(), Value::Array(context));
                want.insert("type".into(), some(types));
                want.insert("issuer".into(), json!(issuer));
                want.insert("credentialSubject".into(), some(subjects));
                if !proofs.is_empty() {
                    want.insert("proof".into(), some(proofs));
                }
                let back = plain_credential(as_json(&vc));
                rep.check(same(&back, &Value::Object(want.clone())), "built-credential-differs", || {
                    format!("{}\n{back}", Value::Object(want.clone()))
                });
            }
        }
        Err(e) => {
            rep.count("not_built");
            rep.check(!complete, "complete-credential-not-built", || format!("{e} {log:?}"));
            rep.check(!e.starts_with("panic"), "builder-panicked", || e.clone());
        }
    }

    // presentation
    let mut b = VerifiablePresentation::builder();
    let mut want = Map::new();
    let mut context = vec![json!("https://www.w3.org/2018/credentials/v1")];
    let mut types = vec![json!("VerifiablePresentation")];
    let mut creds = vec![];
    for _ in 0..r.below(10) {
        match r.below(5) {
            0 => {
                let c = any_text(r);
                context.push(json!(c));
                b = b.add_context(Kind::String(c));
            }
            1 => {
                let t = any_text(r);
                types.push(json!(t));
                b = b.add_type(t);
            }
            2 => {
                let t = any_text(r);
                for _ in 0..if r.chance(1, 4) { 2 } else { 1 } {
                    creds.push(json!(t));
                    b = b.add_credential(Kind::String(t.clone()));
                }
            }
            3 => {
                let d = docs::credential(r);
                if let Ok(vc) = vc_of(&d) {
                    for _ in 0..if r.chance(1, 4) { 2 } else { 1 } {
                        creds.push(plain_credential(d.clone()));
                        b = b.add_credential(Kind::Object(vc.clone()));
                    }
                }
            }
            _ => {
                let t = any_text(r);
                want.insert("holder".into(), json!(t));
                b = b.holder(t);
            }
        }
    }
    let complete = context.len() > 1;
    match flat(guarded(|| b.build())) {
        Ok(vp) => {
            rep.count("built");
            rep.check(complete, "incomplete-presentation-built", || as_json(&vp).to_string());
            let mut back = plain_presentation(as_json(&vp));
            let id = back.as_object_mut().and_then(|m| m.remove("id"));
            let id = id.and_then(|v| v.as_str().map(str::to_string)).unwrap_or_default();
            let uuid = id.strip_prefix("urn:uuid:").is_some_and(|u| {
                u.len() == 36 && u.bytes().enumerate().all(|(k, b)| match k {
                    8 | 13 | 18 | 23 => b == b'-',
                    _ => b.is_ascii_hexdigit(),
                })
            });
            rep.check(uuid && ids.insert(id.clone()), "presentation-id", || id.clone());
            if complete {
                want.insert("@context".into(), Value::Array(context));
                want.insert("type".into(), some(types));
                if !creds.is_empty() {
                    want.insert("verifiableCredential".into(), Value::Array(creds));
                }
                rep.check(same(&back, &Value::Object(want.clone())), "built-presentation-differs", || {
                    format!("{}\n{back}", Value::Object(want.clone()))
                });
            }
        }
        Err(e) => {
            rep.count("not_built");
            rep.check(!complete, "complete-presentation-not-built", || e.clone());
        }
    }
}

fn languages(rep: &mut Report, r: &mut Rng) {
    fn value(r: &mut Rng) -> LangValue {
        LangValue {
            value: any_text(r),
            language: r.chance(2, 3).then(|| r.pick(&["en", "ar", "fr", "de-CH"]).to_string()),
            direction: None,
        }
    }
    let mut model: Vec<LangValue> = vec![];
    let plain = r.chance(1, 2);
    let mut s = if plain {
        let t = any_text(r);
        model.push(LangValue { value: t.clone(), language: None, direction: None });
        LangString::new_string(&t)
    } else {
        let v = value(r);
        model.push(v.clone());
        LangString::new_object(v)
    };
    for k in 0..r.range(1, 6) {
        rep.count("language_lookups");
        rep.eval(&as_json(&s).to_string(), true);
        let bare = plain && k == 0;
        rep.check(s.len() == model.len() && !s.is_empty(), "language-count", || as_json(&s).to_string());
        for tag in ["en", "ar", "fr", "de-CH", "es", ""] {
            let want = if bare {
                Some(model[0].value.clone())
            } else {
                model.iter().find(|v| v.language.as_deref() == Some(tag)).map(|v| v.value.clone())
            };
            let got = guarded(|| s.value(tag).ok());
            rep.check(got == Ok(want.clone()), "language-lookup", || format!("{tag} {} {got:?}", as_json(&s)));
        }
        // every value added is there, in order, as written
        let shown = match as_json(&s) {
            Value::Array(a) => a,
            other => vec![other],
        };
        let want: Vec<Value> = model
            .iter()
            .map(|v| {
                let mut m = json!({"@value": v.value});
                if let Some(l) = &v.language {
                    m["@language"] = json!(l);
                }
                if bare { json!(v.value) } else { m }
            })
            .collect();
        rep.check(same(&json!(shown), &json!(want)), "language-values", || format!("{shown:?} for {want:?}"));
        let text = serde_json::to_string(&s).unwrap_or_default();
        rep.check(
            serde_json::from_str::<LangString>(&text).ok().as_ref() == Some(&s),
            "language-round-trip",
            || text.clone(),
        );
        let v = value(r);
        model.push(v.clone());
        s.add(v);
    }
}

struct Other(Key, bool);

impl Signer for Other {
    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> {
        if self.1 {
            anyhow::bail!("key vault unavailable");
        }
        self.0.try_sign(msg).await
    }

    async fn public_key(&self) -> anyhow::Result<Vec<u8>> {
        self.0.public_key().await
    }

    fn algorithm(&self) -> Algorithm {
        if self.1 {
            Algorithm::EdDSA
        } else {
            Algorithm::ES256K
        }
    }

    fn verification_method(&self) -> String {
        self.0.verification_method()
    }
}

/// Values at the places where encodings of numbers, texts and depth change.
fn edge_value(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => r
            .pick(&[
                json!(0), json!(23), json!(24), json!(-1), json!(-24), json!(-25), json!(255), json!(256), json!(-256), json!(-257),
                json!(65_535), json!(65_536), json!(-65_537), json!(u32::MAX), json!(1u64 << 32), json!(i64::MIN), json!(i64::MAX),
                json!(u64::MAX), json!(1u64 << 63), json!((1u64 << 53) + 1),
            ])
            .clone(),
        1 => r
            .pick(&[
                json!(1e300), json!(-1e19), json!(1.8e19), json!(0.1), json!(-0.5), json!(5e-324), json!(f64::MAX), json!(65_504.0),
                json!(65_520.5), json!(1e15), json!(3.0), json!(-0.0), json!(16_777_217.0), json!(0.333_333_333_333_333_3),
            ])
            .clone(),
        2 => r.pick(&[json!(""), json!([]), json!({}), json!(null), json!([null]), json!({"": null}), json!("2024-02-29"), json!("2024-02-29T12:00:00Z"), json!("\u{0}")]).clone(),
        3 => (0..r.range(3, 20)).fold(json!(1), |v, k| if k % 2 == 0 { json!([v]) } else { json!({ "d": v }) }),
        _ => r.pick(&[json!("1"), json!("true"), json!("null"), json!("h'00'"), json!("AAEC"), json!("data:image/png;base64,AAEC"), json!({"elementIdentifier": "a", "elementValue": 1}), json!({"random": "x", "digestID": 1})]).clone(),
    }
}

/// P13: mdocs carry the dataset, salted, digested and signed.
fn mdocs(mut rep: Report) {
    let n = rep.n(6000, 100_000);
    let key = Key::new("did:web:issuer.example", "key-0", "issuer secret");
    let mut salts: HashSet<Vec<u8>> = HashSet::new();
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        rand::clear_injected();
        let mut r = Rng::case(rep.seed ^ 0x13, i);
        clock::advance(r.below(1_000_000_000) as i64);
        let mut data = Map::new();
        for _ in 0..if r.chance(1, 50) { r.range(5, 30) } else { r.below(4) } {
            let mut ns = Map::new();
            for _ in 0..if r.chance(1, 50) { r.range(10, 60) } else { r.below(9) } {
                ns.insert(any_text(&mut r), any_json(&mut r, 2));
            }
            if r.chance(1, 6) {
                ns.insert(any_text(&mut r), edge_value(&mut r));
            }
            data.insert(format!("org.{}", any_text(&mut r)), Value::Object(ns));
        }
        // around the sizes at which a counter or an encoded length changes
        let many = if i % 1500 == 7 {
            Some(*r.pick(&[4097, 5000, 8200]))
        } else {
            r.chance(1, 200).then(|| *r.pick(&[22usize, 23, 24, 25, 127, 128, 129, 254, 255, 256, 257, 300, 1024]))
        };
        if let Some(many) = many {
            rep.count("large_name_spaces");
            let ns = (0..many).map(|k| (format!("e{k}"), json!(k))).collect();
            data.insert(format!("org.{}", any_text(&mut r)), Value::Object(ns));
        }
        if r.chance(1, 200) {
            rep.count("large_elements");
            let len = *r.pick(&[22usize, 23, 24, 25, 127, 128, 254, 255, 256, 257, 4095, 4096, 65_535, 65_536, 70_000]);
            let v = match r.below(3) {
                0 => json!("é".repeat(len)),
                1 => Value::Array(vec![json!(1); len]),
                _ => Value::Object((0..len.min(5000)).map(|k| (format!("m{k}"), json!(k))).collect()),
            };
            data.insert("org.large".into(), json!({ "e": v, "x".repeat(len.min(5000)): 1 }));
        }
        let bad = r.chance(1, 10);
        if bad {
            let v = loop {
                let v = any_json(&mut r, 1);
                if !v.is_object() {
                    break v;
                }
            };
            data.insert("broken".into(), v);
        }
        let doc = Value::Object(data.clone());
        rep.eval(&doc.to_string(), !data.is_empty());
        // outcomes of the random digest ids a uniform draw almost never has
        match r.below(4) {
            0 => rand::inject_i32([i32::MIN]),
            1 => rand::inject_i32([7, 7, -7, 7, 0, 0, 7, 7, 0, 8, 8, 7]),
            2 => rand::inject_i32([i32::MIN, i32::MAX, i32::MIN, -1, 1, 1]),
            _ => {}
        }
        let issue = || flat(guarded(|| block_on(vercre_iso_mdl::to_credential(data.clone(), key.clone()))));
        let got = issue();
        rand::clear_injected();
        match got {
            Err(e) => {
                rep.count("refused");
                rep.check(bad, "dataset-refused", || format!("{e} {doc}"));
            }
            Ok(_) if bad => rep.violation("broken-dataset-issued", doc.to_string()),
            Ok(tok) => {
                rep.count("mdocs_issued");
                match mdoc::open(&tok) {
                    Err(e) => rep.violation("mdoc-unreadable", format!("{e} {doc}")),
                    Ok(m) => {
                        // a namespace without elements says nothing
                        let mut want = data.clone();
                        want.retain(|_, v| !v.as_object().unwrap().is_empty());
                        let mut have = m.elements.as_object().unwrap().clone();
                        have.retain(|_, v| !v.as_object().unwrap().is_empty());
                        rep.check(
                            same(&Value::Object(want), &Value::Object(have)),
                            "mdoc-claims-differ",
                            || format!("{doc}\n{}", m.elements),
                        );
                        for f in m.faults(&key) {
                            rep.violation("mdoc-rejected", format!("{f}: {doc}"));
                        }
                        rep.count("mdocs_judged");
                        for s in m.salts() {
                            rep.check(salts.insert(s.clone()), "salt-reused", || format!("{s:?}"));
                        }
                        for (sig, what) in m.deviations(&key) {
                            rep.violation(sig, what);
                        }
                        // another issuance of the same data is unlinkable
                        if let Ok(Ok(m2)) = issue().map(|t| mdoc::open(&t)) {
                            let (a, b) = (m.ids(), m2.ids());
                            if a.len() > 3 {
                                rep.count("reissued");
                                rep.check(a != b, "digest-ids-repeat", || format!("{a:?}"));
                            }
                            for s in m2.salts() {
                                rep.check(salts.insert(s.clone()), "salt-reused", || format!("{s:?}"));
                            }
                        }
                    }
                }
            }
        }
        if !bad && r.chance(1, 10) {
            for failing in [false, true] {
                let s = Other(key.clone(), failing);
                let got = guarded(|| block_on(vercre_iso_mdl::to_credential(data.clone(), s)).is_err());
                rep.count("unusable_signers");
                rep.check(got == Ok(true), "unusable-signer-not-refused", || format!("failing: {failing} {got:?}"));
            }
        }
    }
    rep.require("mdocs_judged", 1000);
    rep.require("large_name_spaces", 5);
    rep.finish("a case is one dataset issued and read back with the independent reader; distinct by dataset", ASSUME)
}

fn unpack(s: &str) -> Result<Vec<u8>, String> {
    let body = s.strip_prefix('u').ok_or("no multibase prefix")?;
    let raw = Base64UrlUnpadded::decode_vec(body).map_err(|e| e.to_string())?;
    let mut out = vec![];
    flate2::read::GzDecoder::new(&raw[..]).read_to_end(&mut out).map_err(|e| e.to_string())?;
    Ok(out)
}

fn bit(list: &[u8], i: usize) -> bool {
    list[i / 8] >> (7 - i % 8) & 1 == 1
}

/// P14: a published status list says of every credential what the log says.
fn bitstrings(mut rep: Report) {
    let n = rep.n(2500, 30_000);
    const N: usize = 131_072;
    let w = World::new();
    let (key, _, _) = keys(&w);
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        let mut r = Rng::case(rep.seed ^ 0x14, i);
        let purposes = ["revocation", "suspension", "message"];
        let purpose = *r.pick(&purposes);
        let size = if purpose == "message" { r.range(1, 8) } else { 1 };
        let config = json!({"purpose": purpose, "list": r.below(50), "size": size});
        let capacity = N / size;
        let mut log = vec![];
        // index -> value, later entries supersede earlier ones
        let mut model: BTreeMap<usize, u8> = BTreeMap::new();
        let mut out_of_range = false;
        let mut unsayable = false;
        let lots = if r.chance(1, 60) { r.range(200, 2000) } else { r.below(60) };
        let mut last = 0;
        for k in 0..lots {
            let mut st = vec![];
            for _ in 0..r.range(0, 3) {
                let p = *r.pick(&purposes);
                let index = match r.below(6) {
                    0 => r.below(16),
                    1 => capacity - 1 - r.below(4),
                    2 => last + 1,
                    _ => r.below(capacity),
                }
                .min(capacity - 1);
                last = index;
                let value = if p == "message" { r.below(1 << size.min(8)) as u8 } else { r.below(2) as u8 };
                let (mut index, mut value) = (index, value);
                if r.chance(1, 400) {
                    index = *r.pick(&[capacity, capacity + 1, capacity + 100, 1_000_000 + N, usize::MAX, usize::MAX / size, (usize::MAX / size).saturating_add(1)]);
                }
                if p == "message" && p == purpose && size < 8 && r.chance(1, 200) {
                    // more than an entry of the list can say
                    value |= 1 << r.range(size, 7);
                    unsayable = true;
                }
                if p == purpose {
                    out_of_range |= index >= capacity;
                    model.insert(index, value);
                } else {
                    value = 1;
                }
                st.push(json!({"purpose": p, "list_index": index, "value": value}));
            }
            log.push(json!({"credential_id": format!("c{k}"), "subject_id": r.ident(), "status": st}));
        }
        let text = format!("{config} {}", Value::Array(log.clone()));
        rep.eval(&text, !model.is_empty());
        let got = flat(guarded(|| {
            vercre_status::bitstring::bitstring(
                &serde_json::from_value(config.clone()).expect("config"),
                &serde_json::from_value::<Vec<_>>(json!(log)).expect("log"),
            )
        }));
        let encoded = match got {
            Err(e) => {
                rep.count("refused");
                rep.check(out_of_range || unsayable, "log-refused", || format!("{e} {text}"));
                rep.check(!e.starts_with("panic"), "bitstring-panicked", || format!("{e} {text}"));
                continue;
            }
            Ok(s) => s,
        };
        if unsayable {
            rep.violation("value-out-of-range-accepted", text);
            continue;
        }
        if out_of_range {
            rep.violation("index-out-of-range-accepted", text);
            continue;
        }
        match unpack(&encoded) {
            Err(e) => rep.violation("list-unreadable", format!("{e} {}", &encoded[..encoded.len().min(40)])),
            Ok(list) => {
                rep.count("lists_judged");
                rep.check(list.len() * 8 >= N, "list-too-short", || format!("{}", list.len()));
                let mut want: BTreeSet<usize> = BTreeSet::new();
                for (k, v) in &model {
                    for b in 0..size {
                        if v >> b & 1 == 1 {
                            want.insert(k * size + b);
                        }
                    }
                }
                let have: BTreeSet<usize> = (0..list.len() * 8).filter(|i| bit(&list, *i)).collect();
                if purpose == "message" && size > 1 {
                    // the order of the bits inside an entry is not judged
                    let ones = |s: &BTreeSet<usize>| {
                        let mut m: BTreeMap<usize, usize> = BTreeMap::new();
                        for b in s {
                            *m.entry(b / size).or_default() += 1;
                        }
                        m
                    };
                    rep.check(ones(&want) == ones(&have), "status-differs", || format!("{text} {have:?}"));
                } else {
                    rep.check(want == have, "status-differs", || format!("{text} {have:?}"));
                }
                rep.add("statuses_judged", model.len() as u64);
            }
        }

        // the list as a signed credential
        let root = *r.pick(&["https://status.example/lists", "https://status.example/lists", "http://localhost:8080", "https://status.example/a/b/c", "https://status.example/?tenant=1&list=", "https://status.example/#"]);
        let base = &if r.chance(1, 2) { format!("{root}/") } else { root.to_string() };
        let n = r.below(1_000_000) as u64;
        let ttl = r.chance(1, 2).then(|| *r.pick(&[0, 1, 300_000, u64::MAX, n, n]));
        let issuer = format!("https://issuer.example/{}", r.ident());
        let made = flat(guarded(|| {
            block_on(vercre_status::bitstring::credential(
                &issuer,
                &serde_json::from_value(config.clone()).expect("config"),
                base,
                &encoded,
                ttl,
                key.clone(),
            ))
        }));
        match made {
            Err(e) => rep.violation("list-credential-not-made", e),
            Ok(tok) => {
                rep.count("list_credentials");
                let Some((_, claims)) = jws_open(&tok, &key) else {
                    rep.violation("not-the-signers-signature", tok);
                    continue;
                };
                let vc = &claims["vc"];
                let id = format!("{root}/{}", config["list"]);
                rep.check(vc["id"] == json!(id), "list-credential-id", || vc.to_string());
                rep.check(vc["issuer"] == json!(issuer), "list-credential-issuer", || vc.to_string());
                rep.check(
                    vc["type"].as_array().is_some_and(|a| a.contains(&json!("BitstringStatusListCredential"))),
                    "list-credential-type",
                    || vc.to_string(),
                );
                let s = &vc["credentialSubject"];
                rep.check(
                    s["type"] == json!("BitstringStatusList")
                        && s["statusPurpose"] == json!(purpose)
                        && s["encodedList"] == json!(encoded)
                        && s["id"] == json!(format!("{id}#list"))
                        && s["ttl"] == json!(ttl.unwrap_or(300_000)),
                    "list-credential-contents",
                    || format!("{config} {s}"),
                );
            }
        }
        errors(&mut rep, &mut r);
    }
    rep.require("lists_judged", 100);
    rep.require("list_credentials", 50);
    // checking a status is offered, so it must answer
    struct NoStatus;
    impl vercre_status::verifier::Status for NoStatus {
        async fn status(
            &self, _: &vercre_status::verifier::CredentialStatus, _: &str,
        ) -> anyhow::Result<bool> {
            Ok(false)
        }
    }
    if guarded(|| vercre_status::bitstring::validate(&NoStatus, &Default::default()).is_ok()).is_err() {
        rep.violation("validate-panics", sys::last_panic());
    }
    rep.finish("a case is one status log rendered as a list and a list credential; distinct by log", ASSUME)
}

/// Status errors are JSON objects with the code of their kind.
fn errors(rep: &mut Report, r: &mut Rng) {
    use vercre_status::bitstring::Error;
    let t = r.hostile(8);
    let k = r.below(4);
    let make = || match k {
        0 => (Error::Retrieval(t.clone()), -128),
        1 => (Error::Verification(t.clone()), -129),
        2 => (Error::ListLength(t.clone()), -130),
        _ => (Error::Range(t.clone()), -67),
    };
    let (e, code) = make();
    rep.count("status_errors");
    let ser = serde_json::to_value(&e).unwrap_or(Value::Null);
    for v in [ser, e.to_json()] {
        rep.check(
            v["code"] == json!(code)
                && v["detail"] == json!(t)
                && v["type"].as_str().is_some_and(|t| t.starts_with("https://www.w3.org/ns/credentials/status-list#")),
            "status-error-form",
            || format!("{t:?} {v}"),
        );
    }
    let _ = Quota::One(0);
}

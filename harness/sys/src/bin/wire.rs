//! Monitors over the OpenID messages: errors and requests, responses and
//! metadata as they travel.

use std::collections::BTreeMap;

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use sys::docs::{alike, any_json, any_text, plain_credential, plain_presentation};
use sys::guarded;
use sys::report::{args, Report};
use sys::rng::Rng;
use vercre_core::urlencode;
use vercre_openid::{issuer as iss, oauth, verifier as ver, Error};

const ASSUME: &[&str] = &[
    "messages are written by the harness from the OpenID4VCI/OpenID4VP member names the types document",
    "keys in credential_response_encryption follow the stand-in JOSE crate's JWK",
];

fn main() {
    let (prop, rep) = args();
    match prop.as_str() {
        "P30" => errors(rep),
        "P31" => messages(rep),
        "P32" => offered(rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

/// An independent reader of form strings.
fn read_form(s: &str) -> Option<BTreeMap<String, String>> {
    let mut out = BTreeMap::new();
    if s.is_empty() {
        return Some(out);
    }
    let dec = |t: &str| -> Option<String> {
        let b = t.as_bytes();
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' {
                v.push(u8::from_str_radix(t.get(i + 1..i + 3)?, 16).ok()?);
                i += 3;
            } else {
                v.push(if b[i] == b'+' { b' ' } else { b[i] });
                i += 1;
            }
        }
        String::from_utf8(v).ok()
    };
    for part in s.split('&') {
        let (k, v) = part.split_once('=')?;
        if out.insert(dec(k)?, dec(v)?).is_some() {
            return None;
        }
    }
    Some(out)
}

// ----------------------------------------------------------------- errors

type Make = fn(String) -> Error;

const PLAIN: &[(&str, Make)] = &[
    ("invalid_request", Error::InvalidRequest),
    ("invalid_client", Error::InvalidClient),
    ("invalid_grant", Error::InvalidGrant),
    ("unauthorized_client", Error::UnauthorizedClient),
    ("unsupported_grant_type", Error::UnsupportedGrantType),
    ("invalid_scope", Error::InvalidScope),
    ("invalid_authorization_details", Error::InvalidAuthorizationDetails),
    ("access_denied", Error::AccessDenied),
    ("unsupported_response_type", Error::UnsupportedResponseType),
    ("server_error", Error::ServerError),
    ("temporarily_unavailable", Error::TemporarilyUnavailable),
    ("invalid_credential_request", Error::InvalidCredentialRequest),
    ("unsupported_credential_type", Error::UnsupportedCredentialType),
    ("unsupported_credential_format", Error::UnsupportedFormat),
    ("invalid_encryption_parameters", Error::InvalidEncryptionParameters),
    ("invalid_transaction_id", Error::InvalidTransactionId),
    ("vp_formats_not_supported", Error::VpFormatsNotSupported),
    ("invalid_presentation_definition_uri", Error::InvalidPresentationDefinitionUri),
    ("invalid_presentation_definition_reference", Error::InvalidPresentationDefinitionReference),
    ("wallet_unavailable", Error::WalletUnavailable),
];

fn one_error(rep: &mut Report, make: &dyn Fn() -> Error, want: &Value, key: &str) {
    let code = want["error"].as_str().unwrap().to_string();
    rep.saw("error_codes", &code);
    rep.add("oracle_comparisons", 4);
    let text = make().to_string();
    let got: Option<Value> = serde_json::from_str(&text).ok();
    rep.check(got.as_ref() == Some(want), "text", || format!("{want} shown as {text}"));
    let got = guarded(|| make().to_json());
    rep.check(got.as_ref() == Ok(want), "json", || format!("{want} as JSON {got:?}"));
    let got = guarded(|| serde_json::to_value(make()).map_err(|e| e.to_string()));
    rep.check(got.as_ref() == Ok(&Ok(want.clone())), "serialized", || format!("{want} serialized as {got:?}"));
    let qs = guarded(|| make().to_querystring());
    let form = qs.as_ref().ok().and_then(|q| read_form(q));
    let ok = form.as_ref().is_some_and(|f| {
        let has = |k: &str| match &want[k] {
            Value::Null => !f.contains_key(k),
            Value::String(s) => f.get(k) == Some(s),
            v => f.get(k) == Some(&v.to_string()),
        };
        // the nonce is documented as left out of query strings
        let nonce = |k: &str| !f.contains_key(k) || has(k);
        has("error")
            && has("error_description")
            && nonce("c_nonce")
            && nonce("c_nonce_expires_in")
            && (!f.contains_key("interval") || has("interval"))
            && f.keys().all(|k| want.get(k).is_some())
    });
    rep.check(ok, "query", || format!("{want} as query {qs:?}"));
    rep.eval(key, true);
}

fn errors(mut rep: Report) {
    let n = rep.n(2_000, 40_000);
    for i in rep.cases(n) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 0x3030, i);
        for (code, make) in PLAIN {
            let t = if r.chance(1, 3) { r.hostile(30) } else { any_text(&mut r) };
            let want = json!({"error": code, "error_description": t});
            one_error(&mut rep, &|| make(t.clone()), &want, &format!("{code} {t}"));
        }
        let (hint, c_nonce) = (any_text(&mut r), if r.chance(1, 2) { any_text(&mut r) } else { r.hostile(20) });
        let exp = if r.chance(1, 4) { r.next() as i64 } else { r.below(1000) as i64 };
        let want = json!({
            "error": "invalid_proof", "error_description": hint, "c_nonce": c_nonce, "c_nonce_expires_in": exp,
        });
        let make = || Error::InvalidProof { hint: hint.clone(), c_nonce: c_nonce.clone(), c_nonce_expires_in: exp };
        one_error(&mut rep, &make, &want, &format!("proof {hint} {c_nonce} {exp}"));
        let want = json!({"error": "issuance_pending", "interval": exp});
        one_error(&mut rep, &|| Error::IssuancePending(exp), &want, &format!("pending {exp}"));
    }
    rep.require("oracle_comparisons", 1000);
    rep.finish(
        "one evaluation is one error (every code, hostile descriptions) shown, serialized, and written as JSON and as a query string, each read back by an independent reader",
        ASSUME,
    );
}

// --------------------------------------------------------------- messages

struct Doc<'a> {
    r: &'a mut Rng,
    m: Map<String, Value>,
}

impl Doc<'_> {
    fn set(&mut self, k: &str, v: Value) {
        self.m.insert(k.into(), v);
    }

    fn text(&mut self, k: &str) {
        let v = any_text(self.r);
        self.set(k, json!(v));
    }

    /// Text that is left out when it is empty.
    fn maybe_empty(&mut self, k: &str) {
        let v = any_text(self.r);
        if !v.is_empty() {
            self.set(k, json!(v));
        }
    }

    fn opt(&mut self, k: &str, f: impl FnOnce(&mut Rng) -> Value) {
        if self.r.chance(1, 2) {
            let v = f(self.r);
            self.set(k, v);
        }
    }

    fn opts(&mut self, ks: &[&str]) {
        for k in ks {
            self.opt(k, |r| json!(any_text(r)));
        }
    }

    fn merge(&mut self, v: Value) {
        if let Value::Object(o) = v {
            self.m.extend(o);
        }
    }
}

fn doc(r: &mut Rng, f: impl FnOnce(&mut Doc)) -> Value {
    let mut d = Doc { r, m: Map::new() };
    f(&mut d);
    Value::Object(d.m)
}

fn texts(r: &mut Rng, max: usize) -> Value {
    let n = r.below(max + 1);
    json!((0..n).map(|_| any_text(r)).collect::<Vec<_>>())
}

fn num(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!(r.next() as i64),
        1 => json!(-1 - r.below(1000) as i64),
        _ => json!(r.below(100_000)),
    }
}

fn flag(r: &mut Rng) -> Value {
    json!(r.chance(1, 2))
}

fn some<'a>(r: &mut Rng, xs: &[&'a str]) -> Value {
    let n = r.below(xs.len() + 1);
    json!((0..n).map(|_| *r.pick(xs)).collect::<Vec<&'a str>>())
}

const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
const GRANTS: [&str; 2] = ["authorization_code", PRE];

fn claim(r: &mut Rng, depth: usize) -> Value {
    if depth > 0 && r.chance(1, 3) {
        let n = r.range(1, 2);
        let m: Map<String, Value> = (0..n).map(|i| (format!("{}{i}", r.ident()), claim(r, depth - 1))).collect();
        return Value::Object(m);
    }
    doc(r, |d| {
        d.opt("mandatory", flag);
        d.opt("value_type", |r| json!(r.pick(&["string", "number", "image"])));
        d.opt("display", |r| {
            let n = r.below(3);
            json!((0..n).map(|_| display(r)).collect::<Vec<_>>())
        });
    })
}

fn display(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.text("name");
        d.opts(&["locale"]);
    })
}

fn claims(r: &mut Rng) -> Value {
    let n = r.below(3);
    let m: Map<String, Value> = (0..n).map(|i| (format!("{i}{}", any_text(r)), claim(r, 2))).collect();
    Value::Object(m)
}

fn definition(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.opt("@context", |r| texts(r, 2));
        d.opt("type", |r| texts(r, 3));
        d.opt("credentialSubject", claims);
    })
}

fn format(r: &mut Rng) -> Value {
    match r.below(5) {
        k @ 0..=2 => {
            let f = ["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld"][k];
            json!({"format": f, "credential_definition": definition(r)})
        }
        3 => doc(r, |d| {
            d.set("format", json!("mso_mdoc"));
            d.text("doctype");
            d.opt("claims", claims);
        }),
        _ => doc(r, |d| {
            d.set("format", json!("vc+sd-jwt"));
            d.text("vct");
            d.opt("claims", claims);
        }),
    }
}

fn detail(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.set("type", json!("openid_credential"));
        if d.r.chance(1, 2) {
            d.text("credential_configuration_id");
            match d.r.below(3) {
                0 => {
                    let v = definition(d.r);
                    d.set("credential_definition", v);
                }
                1 => {
                    let v = claims(d.r);
                    d.set("claims", v);
                }
                _ => {}
            }
        } else {
            let f = format(d.r);
            d.merge(f);
        }
        d.opt("locations", |r| texts(r, 2));
    })
}

fn details(r: &mut Rng) -> Value {
    let n = r.range(0, 3);
    json!((0..n).map(|_| detail(r)).collect::<Vec<_>>())
}

fn assertion(d: &mut Doc) {
    if d.r.chance(1, 3) {
        d.set("client_assertion_type", json!("urn:ietf:params:oauth:client-assertion-type:jwt-bearer"));
        d.text("client_assertion");
    }
}

fn offer(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.maybe_empty("credential_issuer");
        let ids = texts(d.r, 3);
        d.set("credential_configuration_ids", ids);
        d.opt("grants", |r| {
            doc(r, |d| {
                d.opt("authorization_code", |r| doc(r, |d| d.opts(&["issuer_state", "authorization_server"])));
                d.opt(PRE, |r| {
                    doc(r, |d| {
                        d.text("pre-authorized_code");
                        d.opts(&["authorization_server"]);
                        d.opt("tx_code", |r| {
                            doc(r, |d| {
                                d.opts(&["input_mode", "description"]);
                                d.opt("length", |r| json!(r.below(20)));
                            })
                        });
                    })
                });
            })
        });
    })
}

fn object(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.maybe_empty("credential_issuer");
        let t = *d.r.pick(&["code", "vp_token", "id_token vp_token"]);
        d.set("response_type", json!(t));
        d.text("client_id");
        d.opts(&["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"]);
        d.text("code_challenge");
        d.set("code_challenge_method", json!("S256"));
        d.opt("authorization_details", details);
        d.text("subject_id");
    })
}

fn client(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.text("client_id");
        d.opts(&[
            "client_secret", "client_name", "client_uri", "logo_uri", "scope", "contacts", "tos_uri", "policy_uri",
            "jwks_uri", "jwks", "software_id", "software_version",
        ]);
        d.opt("client_id_issued_at", num);
        d.opt("client_secret_expires_at", num);
        d.opt("redirect_uris", |r| texts(r, 3));
        d.opt("token_endpoint_auth_method", |r| json!(r.pick(&["none", "client_secret_jwt", "private_key_jwt"])));
        d.opt("grant_types", |r| some(r, &GRANTS));
        d.opt("response_types", |r| some(r, &["code", "vp_token", "id_token vp_token"]));
        d.opt("require_pushed_authorization_requests", flag);
    })
}

fn server(r: &mut Rng) -> Value {
    doc(r, |d| {
        for k in ["issuer", "authorization_endpoint", "token_endpoint"] {
            d.text(k);
        }
        d.opts(&[
            "jwks_uri", "registration_endpoint", "service_documentation", "op_policy_uri", "op_tos_uri",
            "revocation_endpoint", "introspection_endpoint", "signed_metadata",
            "pushed_authorization_request_endpoint",
        ]);
        for k in [
            "scopes_supported", "ui_locales_supported", "revocation_endpoint_auth_methods_supported",
            "revocation_endpoint_auth_signing_alg_values_supported", "introspection_endpoint_auth_methods_supported",
            "introspection_endpoint_auth_signing_alg_values_supported",
        ] {
            d.opt(k, |r| texts(r, 2));
        }
        let t = some(d.r, &["code", "vp_token", "id_token vp_token"]);
        d.set("response_types_supported", t);
        d.opt("response_modes_supported", |r| some(r, &["query", "jarm"]));
        d.opt("grant_types_supported", |r| some(r, &GRANTS));
        d.opt("token_endpoint_auth_methods_supported", |r| some(r, &["none", "client_secret_jwt", "private_key_jwt"]));
        d.opt("token_endpoint_auth_signing_alg_values_supported", |r| some(r, &["ES256K", "EdDSA"]));
        d.opt("code_challenge_methods_supported", |r| some(r, &["S256"]));
        d.opt("require_pushed_authorization_requests", flag);
    })
}

fn image(r: &mut Rng) -> Value {
    doc(r, |d| d.opts(&["uri", "alt_text"]))
}

fn issuer(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.text("credential_endpoint");
        d.opts(&["deferred_credential_endpoint", "notification_endpoint", "signed_metadata"]);
        d.opt("authorization_servers", |r| texts(r, 2));
        d.opt("credential_response_encryption", |r| {
            json!({
                "alg_values_supported": texts(r, 2), "enc_values_supported": texts(r, 2), "encryption_required": flag(r),
            })
        });
        d.opt("batch_credential_issuance", |r| json!({"batch_size": num(r)}));
        d.opt("display", display);
        let n = d.r.below(3);
        let mut m = Map::new();
        for i in 0..n {
            let k = format!("{i}{}", any_text(d.r));
            let v = doc(d.r, |d| {
                let f = format(d.r);
                d.merge(f);
                d.opts(&["scope"]);
                d.opt("cryptographic_binding_methods_supported", |r| texts(r, 2));
                d.opt("credential_signing_alg_values_supported", |r| texts(r, 2));
                d.opt("proof_types_supported", |r| {
                    json!({any_text(r): {"proof_signing_alg_values_supported": texts(r, 2)}})
                });
                d.opt("display", |r| {
                    let n = r.below(3);
                    json!((0..n)
                        .map(|_| doc(r, |d| {
                            d.text("name");
                            d.opts(&["locale", "description", "background_color", "text_color"]);
                            d.opt("logo", image);
                            d.opt("background_image", image);
                        }))
                        .collect::<Vec<_>>())
                });
            });
            m.insert(k, v);
        }
        d.set("credential_configurations_supported", Value::Object(m));
    })
}

fn credential(r: &mut Rng) -> Value {
    if r.chance(1, 2) {
        json!(any_text(r))
    } else {
        plain_credential(sys::docs::credential(r))
    }
}

fn issued(r: &mut Rng) -> Value {
    doc(r, |d| {
        match d.r.below(3) {
            0 => {
                let v = credential(d.r);
                d.set("credential", v);
            }
            1 => {
                let n = d.r.below(3);
                let v: Vec<Value> = (0..n).map(|_| credential(d.r)).collect();
                d.set("credentials", json!(v));
            }
            _ => d.text("transaction_id"),
        }
        d.opts(&["c_nonce", "notification_id"]);
        d.opt("c_nonce_expires_in", num);
    })
}

fn descriptor(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.text("id");
        d.opts(&["name", "purpose"]);
        d.opt("format", |r| json!({any_text(r): {"alg": texts(r, 2)}}));
        let c = doc(d.r, |d| {
            d.opt("limit_disclosure", |r| json!(r.pick(&["required", "preferred"])));
            d.opt("fields", |r| {
                let n = r.below(3);
                json!((0..n)
                    .map(|_| doc(r, |d| {
                        let p = texts(d.r, 2);
                        d.set("path", p);
                        d.opts(&["id", "purpose", "name"]);
                        d.opt("optional", flag);
                        d.opt("filter", |r| json!({"type": "string", "const": any_text(r)}));
                    }))
                    .collect::<Vec<_>>())
            });
        });
        d.set("constraints", c);
    })
}

fn pdef(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.text("id");
        d.opts(&["name", "purpose"]);
        let n = d.r.below(3);
        let v: Vec<Value> = (0..n).map(|_| descriptor(d.r)).collect();
        d.set("input_descriptors", json!(v));
    })
}

fn verifier_meta(r: &mut Rng) -> Value {
    let mut c = client(r);
    if r.chance(1, 3) {
        c["vp_formats"] = json!({"jwt_vp_json": {"alg": texts(r, 2)}});
    }
    c
}

fn pres_object(r: &mut Rng) -> Value {
    doc(r, |d| {
        let t = *d.r.pick(&["vp_token", "vp_token id_token", "code"]);
        d.set("response_type", json!(t));
        d.text("client_id");
        d.opts(&["redirect_uri", "response_mode", "response_uri", "scope", "state"]);
        d.text("nonce");
        let p = if d.r.chance(1, 5) { json!(any_text(d.r)) } else { pdef(d.r) };
        d.set("presentation_definition", p);
        d.opt("client_id_scheme", |r| json!(r.pick(&["redirect_uri", "did"])));
        let m = verifier_meta(d.r);
        d.set("client_metadata", m);
    })
}

fn submission(r: &mut Rng) -> Value {
    doc(r, |d| {
        d.text("id");
        d.text("definition_id");
        let n = d.r.below(3);
        let v: Vec<Value> = (0..n)
            .map(|_| {
                json!({
                    "id": any_text(d.r), "path": any_text(d.r), "format": any_text(d.r),
                    "path_nested": {"format": any_text(d.r), "path": any_text(d.r)},
                })
            })
            .collect();
        d.set("descriptor_map", json!(v));
    })
}

/// Read a document as `T` and write it again: nothing lost, changed or added.
fn json_trip<T: DeserializeOwned + Serialize>(rep: &mut Report, what: &str, v: &Value) -> Option<T> {
    rep.saw("message_kinds", what);
    rep.count("documents");
    let text = v.to_string();
    let got = guarded(|| serde_json::from_str::<T>(&text).map_err(|e| e.to_string()));
    let t = match got {
        Ok(Ok(t)) => t,
        other => {
            let e = other.map(|x| x.err()).unwrap_or_else(Some);
            rep.violation(&format!("unread-{what}"), format!("{e:?}: {v}"));
            return None;
        }
    };
    let back = guarded(|| serde_json::to_value(&t).map_err(|e| e.to_string()));
    rep.check(matches!(&back, Ok(Ok(b)) if alike(b, v)), &format!("json-{what}"), || {
        format!("read {v}\n written {back:?}")
    });
    rep.eval(&format!("{what} {text}"), true);
    Some(t)
}

/// Members that are flattened into the message or may be text or an object.
const UNTYPED: &[&str] = &[
    "code",
    "redirect_uri",
    "code_verifier",
    "pre-authorized_code",
    "tx_code",
    "client_assertion",
    "presentation_definition",
];

/// The same as a form.
fn form_trip<T: DeserializeOwned + Serialize>(rep: &mut Report, what: &str, v: &Value, t: &T) -> Option<String> {
    if v.as_object().is_some_and(|m| m.is_empty()) {
        // nothing to send
        return None;
    }
    rep.count("forms");
    let qs = match guarded(|| urlencode::to_string(t).map_err(|e| e.to_string())) {
        Ok(Ok(q)) => q,
        other => {
            rep.violation(&format!("form-{what}"), format!("{other:?}: {v}"));
            return None;
        }
    };
    let want: BTreeMap<String, Value> = v.as_object().unwrap().clone().into_iter().filter(|x| !x.1.is_null()).collect();
    let form = read_form(&qs).unwrap_or_default();
    let same = form.len() == want.len()
        && want.iter().all(|(k, v)| match (form.get(k), v) {
            (Some(s), Value::String(t)) => s == t,
            (Some(s), Value::Null) => s.is_empty(),
            (Some(s), v) => serde_json::from_str::<Value>(s).is_ok_and(|s| alike(&s, v)),
            (None, _) => false,
        });
    rep.check(same, &format!("form-{what}"), || format!("{v}\n form {qs}"));
    // these are read without knowing whether they are text, so text that is a JSON
    // object or array itself cannot be told from one
    let json = |s: &str| s.starts_with(['[', '{']) && serde_json::from_str::<Value>(s).is_ok();
    if UNTYPED.iter().any(|k| v[*k].as_str().is_some_and(json)) {
        rep.count("ambiguous_forms");
        return Some(qs);
    }
    let back = guarded(|| urlencode::from_str::<T>(&qs).map_err(|e| e.to_string()));
    let got = match &back {
        Ok(Ok(t)) => serde_json::to_value(t).map_err(|e| e.to_string()),
        Ok(Err(e)) => Err(e.clone()),
        Err(p) => Err(p.clone()),
    };
    rep.check(got.as_ref().is_ok_and(|g| alike(g, v)), &format!("form-read-{what}"), || format!("{v}\n form {qs}\n read {got:?}"));
    Some(qs)
}

fn messages(mut rep: Report) {
    let n = rep.n(1_500, 30_000);
    for i in rep.cases(n) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 0x3131, i);
        issuing(&mut rep, &mut r);
        presenting(&mut rep, &mut r);
        spelled(&mut rep, &mut r);
    }
    rep.require("documents", 1000);
    rep.require("forms", 500);
    rep.require("qr_codes", 500);
    rep.finish(
        "one evaluation is one OpenID message (every request, response and metadata type, all optional members, hostile text) read from JSON and written back, and, where it travels as a form, written as one and read back",
        ASSUME,
    );
}

/// What a QR code made of `text` carries: a PNG data URL whose picture (in the
/// stand-in image crate) is the text itself.
fn pictured(url: &str) -> Option<String> {
    let b64 = url.strip_prefix("data:image/png;base64,")?;
    const TABLE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if b64.len() % 4 != 0 {
        return None;
    }
    let (mut bits, mut have, mut out) = (0u32, 0, vec![]);
    for c in b64.trim_end_matches('=').bytes() {
        bits = bits << 6 | TABLE.iter().position(|t| *t == c)? as u32;
        have += 6;
        if have >= 8 {
            have -= 8;
            out.push((bits >> have) as u8);
            bits &= (1 << have) - 1;
        }
    }
    String::from_utf8(out).ok()?.strip_prefix("QR:").map(str::to_string)
}

fn qr(rep: &mut Report, what: &str, endpoint: &str, qs: &str, got: Result<Result<String, String>, String>) {
    // what no code can hold may be refused
    let want = format!("{endpoint}{qs}");
    if want.len() > 2_000 {
        rep.count("too_long_for_a_code");
        return;
    }
    rep.count("qr_codes");
    let seen = got.as_ref().ok().and_then(|g| g.as_ref().ok()).and_then(|g| pictured(g));
    rep.check(seen.as_ref() == Some(&want), &format!("qr-{what}"), || format!("for {want}: {seen:?} in {got:?}"));
}

/// The names values are written with where they are not JSON.
fn spelled(rep: &mut Report, r: &mut Rng) {
    use iss::{ProfileClaims, SendType};
    for (v, name) in [(SendType::ByVal, "by_val"), (SendType::ByRef, "by_ref")] {
        rep.check(v.to_string() == name, "send-type", || format!("{v:?} shown {v}"));
        rep.check(SendType::from(name.to_string()) == v, "send-type", || format!("{name} read {:?}", SendType::from(name.to_string())));
    }
    let c = claims(r);
    if let Ok(m) = serde_json::from_value::<std::collections::HashMap<String, iss::Claim>>(c.clone()) {
        for p in [ProfileClaims::IsoMdl(m.clone()), ProfileClaims::SdJwt(m)] {
            let id = any_text(r);
            let shown = format!("{p:?}");
            let read = p.claims().map(|m| serde_json::to_value(m).unwrap_or_default());
            rep.check(read.as_ref().is_some_and(|g| alike(g, &c)), "profile-claims", || format!("{shown} holds {read:?}"));
            let a = iss::CredentialAuthorization::ConfigurationId { credential_configuration_id: id.clone(), claims: Some(p) };
            let want = json!({"credential_configuration_id": id, "claims": c});
            let got = guarded(|| serde_json::to_value(&a).map_err(|e| e.to_string()));
            rep.check(matches!(&got, Ok(Ok(g)) if alike(g, &want)), "profile-claims", || format!("{shown} written {got:?}"));
        }
    }
}

fn issuing(rep: &mut Report, r: &mut Rng) {
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.opts(&["subject_id"]);
        let ids = texts(d.r, 3);
        d.set("credential_configuration_ids", ids);
        d.opt("grant_types", |r| some(r, &GRANTS));
        let (a, b) = (flag(d.r), json!(d.r.pick(&["ByVal", "ByRef"])));
        d.set("tx_code_required", a);
        d.set("send_type", b);
    });
    json_trip::<iss::CreateOfferRequest>(rep, "create-offer-request", &v);
    let v = offer(r);
    json_trip::<iss::CredentialOfferResponse>(rep, "credential-offer-response", &json!({"credential_offer": v}));
    if let Some(t) = json_trip::<iss::CredentialOffer>(rep, "credential-offer", &v) {
        let qs = form_trip(rep, "credential-offer", &v, &t);
        let own = guarded(|| t.to_querystring().ok());
        rep.check(own == Ok(qs.clone()), "offer-query", || format!("{v} query {own:?} form {qs:?}"));
        if let Some(qs) = qs {
            let to = *r.pick(&["", "openid-credential-offer://credential_offer=", "https://holder.example/credential_offer?", "é"]);
            qr(rep, "offer", to, &qs, guarded(|| t.to_qrcode(to).map_err(|e| e.to_string())));
        }
    }
    let v = doc(r, |d| {
        if d.r.chance(1, 2) {
            let o = offer(d.r);
            d.set("credential_offer", o);
        } else {
            d.text("credential_offer_uri");
        }
        d.opts(&["tx_code"]);
    });
    json_trip::<iss::CreateOfferResponse>(rep, "create-offer-response", &v);
    let v = object(r);
    authorization(rep, &v);
    let v = json!({"request_uri": format!("urn:{}", any_text(r))});
    authorization(rep, &v);
    let v = {
        let o = object(r);
        doc(r, |d| {
            d.merge(o);
            assertion(d);
        })
    };
    json_trip::<iss::PushedAuthorizationRequest>(rep, "pushed-request", &v);
    json_trip::<iss::PushedAuthorizationResponse>(
        rep,
        "pushed-response",
        &json!({"request_uri": any_text(r), "expires_in": num(r)}),
    );
    let v = doc(r, |d| {
        d.text("code");
        d.opts(&["state"]);
        d.text("redirect_uri");
    });
    json_trip::<iss::AuthorizationResponse>(rep, "authorization-response", &v);
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.opts(&["client_id"]);
        if d.r.chance(1, 2) {
            d.set("grant_type", json!("authorization_code"));
            d.text("code");
            d.opts(&["redirect_uri", "code_verifier"]);
        } else {
            d.set("grant_type", json!(PRE));
            d.text("pre-authorized_code");
            d.opts(&["tx_code"]);
        }
        d.opt("authorization_details", details);
        assertion(d);
    });
    if let Some(t) = json_trip::<iss::TokenRequest>(rep, "token-request", &v) {
        token_form(rep, &v, &t);
    }
    let v = doc(r, |d| {
        d.text("access_token");
        d.set("token_type", json!("Bearer"));
        let n = num(d.r);
        d.set("expires_in", n);
        d.opts(&["c_nonce"]);
        d.opt("c_nonce_expires_in", num);
        d.opt("authorization_details", |r| {
            let n = r.below(3);
            json!((0..n)
                .map(|_| {
                    let mut d = detail(r);
                    d["credential_identifiers"] = texts(r, 3);
                    d
                })
                .collect::<Vec<_>>())
        });
    });
    json_trip::<iss::TokenResponse>(rep, "token-response", &v);
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.maybe_empty("access_token");
        if d.r.chance(1, 2) {
            d.text("credential_identifier");
        } else {
            let f = format(d.r);
            d.merge(f);
        }
        match d.r.below(3) {
            0 => {
                let j = any_text(d.r);
                d.set("proof", json!({"proof_type": "jwt", "jwt": j}));
            }
            1 => {
                let j = texts(d.r, 3);
                d.set("proofs", json!({"jwt": j}));
            }
            _ => {}
        }
        d.opt("credential_response_encryption", |r| {
            json!({
                "jwk": {"kty": "OKP", "crv": "Ed25519", "x": any_text(r)}, "alg": any_text(r), "enc": any_text(r),
            })
        });
    });
    json_trip::<iss::CredentialRequest>(rep, "credential-request", &v);
    let v = issued(r);
    json_trip::<iss::CredentialResponse>(rep, "credential-response", &v);
    let v = issued(r);
    json_trip::<iss::DeferredCredentialResponse>(rep, "deferred-response", &v);
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.maybe_empty("access_token");
        d.text("transaction_id");
    });
    json_trip::<iss::DeferredCredentialRequest>(rep, "deferred-request", &v);
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.maybe_empty("access_token");
        d.text("notification_id");
        let e = *d.r.pick(&["credential_accepted", "credential_failure", "credential_deleted"]);
        d.set("event", json!(e));
        d.opts(&["event_description"]);
    });
    json_trip::<iss::NotificationRequest>(rep, "notification-request", &v);
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.opts(&["languages"]);
    });
    json_trip::<iss::MetadataRequest>(rep, "metadata-request", &v);
    let v = doc(r, |d| {
        d.text("credential_issuer");
        d.text("id");
    });
    json_trip::<iss::CredentialOfferRequest>(rep, "credential-offer-request", &v);
    let v = doc(r, |d| {
        d.text("client_id");
        d.text("id");
    });
    json_trip::<ver::RequestObjectRequest>(rep, "request-object-request", &v);
    let claims = any_json(r, 2);
    if claims.is_object() {
        let v = json!({"claims": claims, "pending": r.chance(1, 2)});
        json_trip::<iss::Dataset>(rep, "dataset", &v);
    }
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.opts(&["issuer"]);
    });
    json_trip::<iss::OAuthServerRequest>(rep, "server-request", &v);
    let v = doc(r, |d| {
        d.text("aud");
        let n = num(d.r);
        d.set("iat", n);
        d.opts(&["iss", "nonce"]);
    });
    json_trip::<iss::ProofClaims>(rep, "proof-claims", &v);
    let v = issuer(r);
    json_trip::<iss::Issuer>(rep, "issuer-metadata", &v);
    json_trip::<iss::MetadataResponse>(rep, "issuer-metadata-response", &v);
    let mut v = server(r);
    json_trip::<oauth::OAuthServer>(rep, "server-metadata", &v);
    v["pre-authorized_grant_anonymous_access_supported"] = flag(r);
    json_trip::<iss::OAuthServerResponse>(rep, "server-response", &json!({"authorization_server": v}));
    let v = client(r);
    if let Some(t) = json_trip::<oauth::OAuthClient>(rep, "client-metadata", &v) {
        let text = t.to_string();
        let back = guarded(|| text.parse::<oauth::OAuthClient>().ok().map(|c| serde_json::to_value(c).unwrap()));
        rep.check(back == Ok(Some(v.clone())), "client-text", || format!("{v} shown {text} read {back:?}"));
    }
    let v = doc(r, |d| {
        d.maybe_empty("credential_issuer");
        d.maybe_empty("access_token");
        let c = client(d.r);
        d.merge(c);
    });
    json_trip::<iss::RegistrationRequest>(rep, "registration-request", &v);
    let v = client(r);
    json_trip::<iss::RegistrationResponse>(rep, "registration-response", &v);
    let v = format(r);
    if let Some(t) = json_trip::<iss::Format>(rep, "format", &v) {
        let shown = t.to_string();
        rep.check(json!(shown) == v["format"], "format-text", || format!("{v} shown {shown}"));
    }
}

/// A form holds a token request's parameters one by one.
fn token_form(rep: &mut Report, v: &Value, t: &iss::TokenRequest) {
    form_trip(rep, "token-request", v, t);
}

fn authorization(rep: &mut Report, v: &Value) {
    let Some(t) = json_trip::<iss::AuthorizationRequest>(rep, "authorization-request", v) else { return };
    let qs = form_trip(rep, "authorization-request", v, &t);
    let shown = t.to_string();
    rep.check(Some(&shown) == qs.as_ref(), "authorization-text", || format!("{v} shown {shown}"));
    // read back from either text form
    for text in [shown, v.to_string(), format!("\n {v}\n")] {
        let back = guarded(|| text.parse::<iss::AuthorizationRequest>().map_err(|e| e.to_string()));
        let got = match &back {
            Ok(Ok(t)) => serde_json::to_value(t).unwrap_or(Value::Null),
            other => json!(format!("{other:?}")),
        };
        rep.count("texts_read");
        rep.check(got == *v, "authorization-parse", || format!("{text}\n of {v}\n read {got}"));
    }
}

fn presenting(rep: &mut Report, r: &mut Rng) {
    let n = r.below(3);
    let v = json!({
        "client_id": any_text(r), "purpose": any_text(r), "device_flow": r.pick(&["CrossDevice", "SameDevice"]),
        "client_id_scheme": any_text(r),
        "input_descriptors": (0..n).map(|_| descriptor(r)).collect::<Vec<_>>(),
    });
    json_trip::<ver::CreateRequestRequest>(rep, "create-request-request", &v);
    let v = pres_object(r);
    if let Some(t) = json_trip::<ver::RequestObject>(rep, "request-object", &v) {
        let qs = form_trip(rep, "request-object", &v, &t);
        let own = guarded(|| t.to_querystring().ok());
        rep.check(own == Ok(qs.clone()), "request-object-query", || format!("{v} query {own:?} form {qs:?}"));
        if let Some(qs) = qs {
            let to = *r.pick(&["", "openid-vc://?request_uri=", "https://holder.example/authorize?", "é"]);
            qr(rep, "request-object", to, &qs, guarded(|| t.to_qrcode(to).map_err(|e| e.to_string())));
        }
    }
    let v = doc(r, |d| {
        d.opt("request_object", pres_object);
        d.opts(&["request_uri"]);
    });
    json_trip::<ver::CreateRequestResponse>(rep, "create-request-response", &v);
    let v = json!(any_text(r));
    json_trip::<ver::RequestObjectResponse>(rep, "request-object-token", &v);
    let token = any_text(r);
    let got = guarded(|| serde_json::from_value::<ver::RequestObjectResponse>(json!({"jwt": token.clone()})).map_err(|e| e.to_string()));
    rep.check(
        matches!(&got, Ok(Ok(g)) if g.request_object == ver::RequestObjectType::Jwt(token.clone())),
        "request-object-token",
        || format!("{token} read {got:?}"),
    );
    let v = json!({"request_object": pres_object(r)});
    json_trip::<ver::RequestObjectResponse>(rep, "request-object-response", &v);
    let v = doc(r, |d| {
        d.opt("vp_token", |r| {
            let n = r.below(3);
            json!((0..n)
                .map(|_| {
                    if r.chance(1, 2) {
                        json!(any_text(r))
                    } else {
                        plain_presentation(sys::docs::presentation(r))
                    }
                })
                .collect::<Vec<_>>())
        });
        d.opt("presentation_submission", submission);
        d.opts(&["state"]);
    });
    if let Some(t) = json_trip::<ver::ResponseRequest>(rep, "response-request", &v) {
        form_trip(rep, "response-request", &v, &t);
    }
    let v = json!({
        "redirect_uri": if r.chance(1, 2) { json!(any_text(r)) } else { Value::Null },
        "response_code": if r.chance(1, 2) { json!(any_text(r)) } else { Value::Null },
    });
    json_trip::<ver::ResponseResponse>(rep, "response-response", &v);
    let v = verifier_meta(r);
    json_trip::<ver::MetadataResponse>(rep, "verifier-metadata", &v);
    let mut v = server(r);
    v["presentation_definition_uri_supported"] = flag(r);
    v["vp_formats_supported"] =
        if r.chance(1, 2) { json!({any_text(r): {"alg": texts(r, 2)}}) } else { Value::Null };
    json_trip::<ver::Wallet>(rep, "wallet-metadata", &v);
}

/// A tree of claims: an entry, mandatory or not, or nested claims.
#[derive(Clone, PartialEq)]
enum Tree {
    Entry(Option<bool>),
    Set(BTreeMap<String, Tree>),
}

type Trees = BTreeMap<String, Tree>;

fn claim_name(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("{}x", any_text(r)),
        _ => (*r.pick(&["given_name", "family_name", "email", "address", "street", "Email", "email ", "", "a"])).to_string(),
    }
}

fn trees(r: &mut Rng, depth: usize, least: usize) -> Trees {
    let most = if depth == 3 && r.chance(1, 12) { 30 } else { 4 };
    let n = r.range(least, most);
    (0..n)
        .map(|k| {
            let name = if r.chance(1, 3) { format!("{}{k}", claim_name(r)) } else { claim_name(r) };
            let tree = if depth > 0 && r.chance(1, 3) {
                Tree::Set(trees(r, depth - 1, 1))
            } else {
                Tree::Entry(*r.pick(&[None, Some(true), Some(false), Some(false)]))
            };
            (name, tree)
        })
        .collect()
}

fn written(t: &Trees, r: &mut Rng) -> Value {
    let m: Map<String, Value> = t
        .iter()
        .map(|(k, t)| {
            let v = match t {
                Tree::Set(s) => written(s, r),
                Tree::Entry(mandatory) => doc(r, |d| {
                    if let Some(m) = mandatory {
                        d.set("mandatory", json!(m));
                    }
                    d.opt("value_type", |r| json!(r.pick(&["string", "number", "image"])));
                    d.opt("display", |r| json!([display(r)]));
                }),
            };
            (k.clone(), v)
        })
        .collect();
    Value::Object(m)
}

/// Whether the claims `asked` for are all `offered` and none that is mandatory is
/// left out; `None` where nested claims are asked for as if they were one.
fn admitted(asked: &Trees, offered: &Trees) -> Option<bool> {
    let mut open = false;
    for (k, a) in asked {
        match (a, offered.get(k)) {
            (_, None) | (Tree::Set(_), Some(Tree::Entry(_))) => return Some(false),
            (Tree::Set(a), Some(Tree::Set(o))) => match admitted(a, o) {
                Some(false) => return Some(false),
                None => open = true,
                Some(true) => {}
            },
            (Tree::Entry(_), Some(Tree::Set(_))) => open = true,
            (Tree::Entry(_), Some(Tree::Entry(_))) => {}
        }
    }
    for (k, o) in offered {
        match (o, asked.get(k)) {
            (Tree::Entry(Some(true)), None) => return Some(false),
            (Tree::Set(o), None) => match admitted(&Trees::new(), o) {
                Some(false) => return Some(false),
                None => open = true,
                Some(true) => {}
            },
            _ => {}
        }
    }
    (!open).then_some(true)
}

/// Ask for what is offered, leaving out some of what is not mandatory.
fn asked_of(r: &mut Rng, offered: &Trees) -> Trees {
    let mut out = Trees::new();
    for (k, t) in offered {
        match t {
            Tree::Entry(m) if *m == Some(true) || r.chance(2, 3) => {
                out.insert(k.clone(), Tree::Entry(*r.pick(&[None, None, *m, Some(true), Some(false)])));
            }
            Tree::Set(s) => {
                let part = asked_of(r, s);
                if !part.is_empty() {
                    out.insert(k.clone(), Tree::Set(part));
                }
            }
            Tree::Entry(_) => {}
        }
    }
    out
}

/// One thing wrong with what is asked for, somewhere in it.
fn spoilt(r: &mut Rng, asked: &mut Trees, offered: &Trees) {
    // go down, or stay here
    let inner: Vec<String> = asked
        .iter()
        .filter(|(k, t)| matches!((t, offered.get(*k)), (Tree::Set(_), Some(Tree::Set(_)))))
        .map(|x| x.0.clone())
        .collect();
    if !inner.is_empty() && r.chance(2, 3) {
        let k = r.pick(&inner).clone();
        let mut empty = false;
        if let (Some(Tree::Set(a)), Some(Tree::Set(o))) = (asked.get_mut(&k), offered.get(&k)) {
            spoilt(r, a, o);
            empty = a.is_empty();
        }
        if empty {
            asked.remove(&k);
        }
        return;
    }
    let here: Vec<String> = asked.keys().cloned().collect();
    match r.below(5) {
        0 => {
            asked.insert(claim_name(r), Tree::Entry(None));
        }
        1 if !here.is_empty() => {
            // a name that differs by little
            let k = r.pick(&here).clone();
            let other = match r.below(4) {
                0 => k.to_uppercase(),
                1 => format!("{k} "),
                2 => k.chars().skip(1).collect(),
                _ => format!("{k}{k}"),
            };
            if let Some(t) = asked.remove(&k) {
                asked.insert(other, t);
            }
        }
        2 if !here.is_empty() => {
            asked.remove(r.pick(&here));
        }
        3 if !here.is_empty() => {
            // nested claims of an entry
            let k = r.pick(&here).clone();
            asked.insert(k, Tree::Set(Trees::from([(claim_name(r), Tree::Entry(None))])));
        }
        _ => {
            let mandatory: Vec<&String> =
                offered.iter().filter(|x| *x.1 == Tree::Entry(Some(true))).map(|x| x.0).collect();
            if !mandatory.is_empty() {
                asked.remove(*r.pick(&mandatory));
            } else {
                asked.insert(format!("{}?", claim_name(r)), Tree::Entry(Some(true)));
            }
        }
    }
}

/// A kind of credential: the format and what in it names the credential.
#[derive(Clone, PartialEq, Debug)]
struct Sort {
    format: &'static str,
    names: Option<Vec<String>>,
}

const W3C: [&str; 3] = ["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld"];

fn sort(r: &mut Rng) -> Sort {
    let format = *r.pick(&["jwt_vc_json", "ldp_vc", "jwt_vc_json-ld", "mso_mdoc", "vc+sd-jwt"]);
    let name = |r: &mut Rng| match r.below(8) {
        0 => any_text(r),
        _ => (*r.pick(&["EmployeeID", "EmployeeIDCredential", "employeeid", "VerifiableCredential", "org.iso.18013.5.1.mDL", "", "employeeid/", "EmployeeID ", "org.iso.18013.5.1"]))
            .to_string(),
    };
    let names = if W3C.contains(&format) {
        (!r.chance(1, 8)).then(|| {
            let n = r.range(1, 3);
            (0..n).map(|_| name(r)).collect()
        })
    } else {
        Some(vec![name(r)])
    };
    Sort { format, names }
}

impl Sort {
    fn written(&self, r: &mut Rng, claims: &Option<Trees>) -> Value {
        let claims = claims.as_ref().map(|t| written(t, r));
        doc(r, |d| {
            d.set("format", json!(self.format));
            let name = || json!(self.names.as_ref().and_then(|n| n.first()));
            match self.format {
                "mso_mdoc" => d.set("doctype", name()),
                "vc+sd-jwt" => d.set("vct", name()),
                _ => {
                    let def = doc(d.r, |d| {
                        d.opt("@context", |r| texts(r, 2));
                        if let Some(n) = &self.names {
                            d.set("type", json!(n));
                        }
                        if let Some(c) = &claims {
                            d.set("credentialSubject", c.clone());
                        }
                    });
                    d.set("credential_definition", def);
                    return;
                }
            }
            if let Some(c) = &claims {
                d.set("claims", c.clone());
            }
        })
    }

    /// Whether the two name the same credential; open when the same types are
    /// only listed in another order, or none at all.
    fn same(&self, other: &Self) -> Option<bool> {
        if self.format != other.format {
            return Some(false);
        }
        match (&self.names, &other.names) {
            (None, None) => None,
            (Some(a), Some(b)) if a == b => Some(true),
            (Some(a), Some(b)) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.sort();
                a.dedup();
                b.sort();
                b.dedup();
                (a != b).then_some(false)
            }
            _ => Some(false),
        }
    }
}

fn read<T: DeserializeOwned>(rep: &mut Report, what: &str, v: &Value) -> Option<T> {
    match guarded(|| serde_json::from_value::<T>(v.clone()).map_err(|e| e.to_string())) {
        Ok(Ok(t)) => Some(t),
        other => {
            rep.violation("metadata-unreadable", format!("{what}: {:?} for {v}", other.err()));
            None
        }
    }
}

fn offered(mut rep: Report) {
    let n = rep.n(40_000, 600_000);
    for i in rep.cases(n) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 0x3232, i);
        claims_asked(&mut rep, &mut r);
        found_by_format(&mut rep, &mut r);
        same_credential(&mut rep, &mut r);
    }
    rep.require("claims_admitted", 1000);
    rep.require("claims_refused", 1000);
    rep.require("claims_refused_nested", 200);
    rep.require("formats_found", 1000);
    rep.require("formats_not_found", 1000);
    rep.require("same_credential", 500);
    rep.require("other_credential", 1000);
    rep.finish(
        "one evaluation is one set of claims asked of a credential configuration, one format looked up in an issuer's metadata, or two authorizations compared; each judged by a reference over the documents they were read from",
        ASSUME,
    );
}

fn claims_asked(rep: &mut Report, r: &mut Rng) {
    let offered = (!r.chance(1, 10)).then(|| trees(r, 3, 0));
    let mut asked = match &offered {
        Some(o) if !r.chance(1, 12) => asked_of(r, o),
        _ => trees(r, 2, 0),
    };
    if let (Some(o), true) = (&offered, r.chance(3, 5)) {
        spoilt(r, &mut asked, o);
    }
    let kind = sort(r);
    let v = kind.written(r, &offered);
    let want = offered.as_ref().map_or(Some(true), |o| admitted(&asked, o));
    let req = written(&asked, r);
    let text = format!("{req} of {v}");
    rep.eval(&text, true);
    // read anew each time: the order of the claims in memory differs
    for _ in 0..3 {
        let Some(config) = read::<iss::CredentialConfiguration>(rep, "configuration", &v) else { return };
        let Some(set) = read::<std::collections::HashMap<String, iss::Claim>>(rep, "claims", &req) else { return };
        let got = match guarded(|| config.verify_claims(&set).is_ok()) {
            Ok(g) => g,
            Err(p) => {
                rep.violation("claims-panic", format!("{p} for {text}"));
                return;
            }
        };
        let Some(want) = want else {
            rep.count("claims_left_open");
            return;
        };
        rep.count(if want { "claims_admitted" } else { "claims_refused" });
        let nested = offered.as_ref().is_some_and(|o| {
            asked.keys().all(|k| o.contains_key(k)) && o.iter().all(|(k, t)| *t != Tree::Entry(Some(true)) || asked.contains_key(k))
        });
        if nested && !want {
            rep.count("claims_refused_nested");
        }
        rep.check(got == want, if want { "claims-refused" } else { "claims-admitted" }, || text.clone());
    }
    // the claims a format or a detail carries are those written in it
    if let Some(config) = read::<iss::CredentialConfiguration>(rep, "configuration", &v) {
        let want = offered.as_ref().map(|_| {
            if W3C.contains(&kind.format) { v["credential_definition"]["credentialSubject"].clone() } else { v["claims"].clone() }
        });
        let got = config.format.claims().map(|c| serde_json::to_value(c).unwrap_or_default());
        rep.check(got == want, "claims-differ", || format!("{got:?} of {v}"));
        rep.check(config.format.to_string() == kind.format, "format-name", || format!("{} of {v}", config.format));
    }
    let mut d = json!({"type": "openid_credential", "credential_configuration_id": any_text(r)});
    let member = *r.pick(&["credential_definition", "claims", ""]);
    match member {
        "credential_definition" => d[member] = json!({"credentialSubject": req}),
        "claims" => d[member] = req.clone(),
        _ => {}
    }
    if let Some(det) = read::<iss::AuthorizationDetail>(rep, "detail", &d) {
        if let iss::CredentialAuthorization::ConfigurationId { claims, .. } = &det.credential {
            let got = claims.as_ref().and_then(iss::ProfileClaims::claims).map(|c| serde_json::to_value(c).unwrap_or_default());
            let want = (!member.is_empty()).then_some(&req);
            rep.check(got.as_ref() == want, "claims-differ", || format!("{got:?} of {d}"));
        } else {
            rep.violation("detail-by-id", d.to_string());
        }
    }
}

fn found_by_format(rep: &mut Report, r: &mut Rng) {
    let n = if r.chance(1, 10) { r.range(10, 60) } else { r.range(0, 6) };
    let sorts: Vec<(String, Sort)> = (0..n).map(|k| (format!("{}{k}", any_text(r)), sort(r))).collect();
    let mut ask = match sorts.is_empty() {
        false if !r.chance(1, 4) => r.pick(&sorts).1.clone(),
        _ => sort(r),
    };
    match r.below(5) {
        0 => ask.format = sort(r).format,
        1 => {
            if let Some(n) = &mut ask.names {
                let at = r.below(n.len());
                match r.below(4) {
                    0 => n[at] = n[at].to_lowercase(),
                    1 => n[at].push(' '),
                    2 if W3C.contains(&ask.format) => n.push("Extra".into()),
                    _ => n[at] = any_text(r),
                }
            }
        }
        _ => {}
    }
    if !W3C.contains(&ask.format) {
        ask.names = Some(vec![ask.names.and_then(|n| n.first().cloned()).unwrap_or_default()]);
    }
    let mut configs = Map::new();
    for (id, s) in &sorts {
        let claims = r.chance(1, 3).then(|| trees(r, 1, 0));
        let mut c = s.written(r, &claims);
        if r.chance(1, 2) {
            c["scope"] = json!(any_text(r));
        }
        configs.insert(id.clone(), c);
    }
    let claims = r.chance(1, 3).then(|| trees(r, 1, 0));
    let fmt = ask.written(r, &claims);
    let meta = json!({
        "credential_issuer": any_text(r), "credential_endpoint": any_text(r),
        "credential_configurations_supported": configs,
    });
    let text = format!("{fmt} in {meta}");
    rep.eval(&text, true);
    let (Some(issuer), Some(format)) = (read::<iss::Issuer>(rep, "issuer", &meta), read::<iss::Format>(rep, "format", &fmt))
    else {
        return;
    };
    let sure = |id: &String| sorts.iter().find(|x| x.0 == *id).map(|x| x.1.same(&ask));
    match guarded(|| issuer.credential_configuration_id(&format).cloned().map_err(|e| e.to_string())) {
        Err(p) => rep.violation("lookup-panic", format!("{p} for {text}")),
        Ok(Ok(id)) => {
            rep.count("formats_found");
            rep.check(matches!(sure(&id), Some(Some(true) | None)), "found-another", || format!("{id:?} for {text}"));
        }
        Ok(Err(_)) => {
            rep.count("formats_not_found");
            rep.check(sorts.iter().all(|x| x.1.same(&ask) != Some(true)), "not-found", || text.clone());
        }
    }
}

fn same_credential(rep: &mut Report, r: &mut Rng) {
    // by id or by format, with whatever claims
    #[derive(Clone)]
    enum By {
        Id(String),
        Format(Sort),
    }
    let by = |r: &mut Rng| if r.chance(1, 2) { By::Id(claim_name(r)) } else { By::Format(sort(r)) };
    let a = by(r);
    let b = match &a {
        _ if r.chance(1, 4) => by(r),
        By::Id(id) => By::Id(match r.below(6) {
            0 => id.to_uppercase(),
            1 => format!("{id} "),
            2 => id.chars().skip(1).collect(),
            _ => id.clone(),
        }),
        By::Format(s) => {
            let mut s = s.clone();
            match (r.below(6), &mut s.names) {
                (0, Some(n)) => n[0].push('x'),
                (1, Some(n)) if W3C.contains(&s.format) => n.push("Extra".into()),
                (2, _) if W3C.contains(&s.format) => s.format = *r.pick(&W3C),
                (3, _) if !W3C.contains(&s.format) => s.format = *r.pick(&["mso_mdoc", "vc+sd-jwt"]),
                _ => {}
            }
            By::Format(s)
        }
    };
    let mut made = |by: &By| match by {
        By::Id(id) => {
            let mut v = json!({"credential_configuration_id": id});
            match r.below(3) {
                0 => v["claims"] = { let t = trees(r, 1, 1); written(&t, r) },
                1 => v["credential_definition"] = definition(r),
                _ => {}
            }
            v
        }
        By::Format(s) => {
            let c = r.chance(1, 2).then(|| trees(r, 1, 0));
            s.written(r, &c)
        }
    };
    let (va, vb) = (made(&a), made(&b));
    let want = match (&a, &b) {
        (By::Id(a), By::Id(b)) => Some(a == b),
        (By::Format(a), By::Format(b)) => a.same(b),
        _ => Some(false),
    };
    let text = format!("{va} and {vb}");
    rep.eval(&text, true);
    let (Some(ca), Some(cb)) = (
        read::<iss::CredentialAuthorization>(rep, "authorization", &va),
        read::<iss::CredentialAuthorization>(rep, "authorization", &vb),
    ) else {
        return;
    };
    let got = guarded(|| (ca == cb, cb == ca, ca == ca.clone()));
    let Ok((ab, ba, aa)) = got else {
        rep.violation("comparison-panic", text);
        return;
    };
    rep.check(ab == ba && aa, "comparison-lopsided", || text.clone());
    if let Some(want) = want {
        rep.count(if want { "same_credential" } else { "other_credential" });
        rep.check(ab == want, if want { "same-told-apart" } else { "others-taken-for-same" }, || text.clone());
    }
}

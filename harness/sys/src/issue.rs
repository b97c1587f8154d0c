//! Issuance workload: generated issuers, clients, subjects and wallets, and the
//! steps of the issuance protocol as a wallet performs them over the wire
//! (requests are built as JSON and deserialized, as an HTTP endpoint would).

use std::collections::{BTreeMap, BTreeSet};

use base64ct::{Base64UrlUnpadded, Encoding};
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use vercre_openid::issuer as oi;

use crate::exec::block_on;
use crate::guarded;
use crate::rng::Rng;
use crate::world::{jws, Key, Subj, World};

/// What a request came to.
#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Err(vercre_openid::Error),
    Panic(String),
    /// the request does not deserialize
    Malformed(String),
}

impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Self::Ok(t) => Some(t),
            _ => None,
        }
    }

    pub fn is_ok(&self) -> bool {
        matches!(self, Self::Ok(_))
    }

    pub fn why(&self) -> String {
        match self {
            Self::Ok(_) => "accepted".into(),
            Self::Err(e) => format!("refused: {e}"),
            Self::Panic(p) => format!("panicked: {p}"),
            Self::Malformed(m) => format!("malformed: {m}"),
        }
    }
}

fn run<Q: DeserializeOwned, T, F>(v: Value, f: impl FnOnce(Q) -> F) -> Out<T>
where
    F: std::future::Future<Output = vercre_openid::Result<T>>,
{
    let q: Q = match serde_json::from_value(v) {
        Ok(q) => q,
        Err(e) => return Out::Malformed(e.to_string()),
    };
    done(|| block_on(f(q)))
}

pub fn done<T>(f: impl FnOnce() -> vercre_openid::Result<T>) -> Out<T> {
    match guarded(f) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ProofReq {
    Jwt,
    None,
    OtherOnly,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub id: String,
    pub scope: Option<String>,
    pub mdl: bool,
    /// W3C credential type or mdoc doctype
    pub ty: String,
    /// further W3C types of the same credential
    pub more: Vec<String>,
    /// claim definitions as published
    pub claims: Value,
    pub proof: ProofReq,
    pub display: Value,
}

impl Cfg {
    /// The types a W3C credential of this configuration has.
    pub fn types(&self) -> Vec<String> {
        [vec!["VerifiableCredential".to_string(), self.ty.clone()], self.more.clone()].concat()
    }

    /// The `format` form of a request for this configuration, with the claims
    /// wanted (if any).
    pub fn format(&self, claims: Option<&Value>) -> Value {
        if self.mdl {
            let mut v = json!({"format": "mso_mdoc", "doctype": self.ty});
            if let Some(c) = claims {
                v["claims"] = c.clone();
            }
            v
        } else {
            let mut def = json!({"type": self.types()});
            if let Some(c) = claims {
                def["credentialSubject"] = c.clone();
            }
            json!({"format": "jwt_vc_json", "credential_definition": def})
        }
    }

    /// Top-level claim names with a mandatory (or nested mandatory) entry.
    pub fn mandatory(&self) -> BTreeSet<String> {
        fn has(v: &Value) -> bool {
            if v["mandatory"] == json!(true) {
                return true;
            }
            v.as_object().is_some_and(|m| m.values().any(|x| x.is_object() && has(x)))
        }
        self.claims
            .as_object()
            .unwrap()
            .iter()
            .filter(|(_, v)| has(v))
            .map(|(k, _)| k.clone())
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub w: World,
    pub issuer: String,
    pub key: Key,
    pub cfgs: Vec<Cfg>,
    pub subjects: Vec<String>,
    pub clients: Vec<String>,
    pub wallets: Vec<Key>,
    pub anonymous: bool,
}

pub fn merge(a: &mut Value, b: &Value) {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
}

pub fn challenge(verifier: &str) -> String {
    Base64UrlUnpadded::encode_string(&Sha256::digest(verifier))
}

fn word(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz") as char).collect()
}

impl Setup {
    pub fn new(r: &mut Rng) -> Self {
        let w = World::new();
        let host = word(r, 5);
        let host = match r.below(4) {
            0 => format!("{}{}", host[..2].to_uppercase(), &host[2..]),
            _ => host,
        };
        let issuer = format!("https://{host}.example{}", r.pick(&["", "/tenant", ":8443", "/Tenant/é"]));
        let key = Key::new(&format!("did:web:{}", word(r, 6)), "key-0", &word(r, 12));
        w.add_key(&key);
        // an unrelated key in the issuer's own document
        w.add_key(&Key::new(&key.did, "key-1", &word(r, 12)));

        let ncfg = if r.chance(1, 50) { r.range(17, 36) } else { r.range(2, 4) };
        let mut cfgs: Vec<Cfg> = vec![];
        let shared_scope = word(r, 6);
        for k in 0..ncfg {
            let mdl = r.chance(1, 4);
            let nclaims = r.range(1, 4);
            let mut defs = Map::new();
            for c in 0..nclaims {
                let name = format!("{}{c}", r.pick(&["given", "family_", "e-mail", "naïve", "x y"]));
                let def = match r.below(4) {
                    0 => json!({"mandatory": true, "value_type": "string"}),
                    1 => json!({"mandatory": false}),
                    2 => json!({"value_type": "number", "display": [{"name": "N", "locale": "en-NZ"}]}),
                    _ => json!({}),
                };
                defs.insert(name, def);
            }
            let claims = if mdl {
                json!({"org.iso.18013.5.1": defs, "org.iso.18013.5.1.aamva": {"organ_donor": {}}})
            } else {
                if r.chance(1, 2) {
                    defs.insert(
                        "address".into(),
                        json!({"street": {"value_type": "string"}, "city": {"mandatory": r.chance(1, 2)}}),
                    );
                }
                Value::Object(defs)
            };
            let scope = match r.below(4) {
                0 => None,
                1 => Some(shared_scope.clone()),
                _ => Some(format!("{}.{k}", word(r, 5))),
            };
            let proof = match r.below(8) {
                0 => ProofReq::None,
                _ => ProofReq::Jwt,
            };
            let display = match r.below(4) {
                0 => Value::Null,
                1 => json!([{"name": format!("Nom {k}"), "locale": "fr", "description": "carte"},
                            {"name": format!("Name {k}"), "locale": "en-NZ"}]),
                2 => match r.below(3) {
                    0 => json!([{"name": format!("Name {k}")}]),
                    1 if r.chance(1, 2) => json!([{"name": format!("Name {k}"), "locale": "en", "description": "a card"},
                                {"name": format!("Nom {k}"), "locale": "fr", "description": "carte"},
                                {"name": format!("Karte {k}"), "locale": "de", "description": "Karte"}]),
                    1 => json!([{"name": format!("Name {k}"), "locale": "en"}, {"name": format!("Nom {k}"), "description": "x"}]),
                    _ => json!([{"name": format!("N {k}"), "locale": "en"}, {"name": format!("M {k}"), "locale": "en-GB"},
                                {"name": format!("Ñ {k}"), "locale": "es", "description": "tarjeta"}]),
                },
                _ => {
                    let d = *r.pick(&["a card", "c", "", "カード", "a \"card\" & more", "ü"]);
                    json!([{"name": format!("Name {k}"), "locale": "en-NZ", "description": d}])
                }
            };
            cfgs.push(Cfg {
                id: format!("{}{k}", r.pick(&["Employee_JWT", "org.iso.mDL.", "Dev eloper", "degree/é"])),
                scope,
                mdl,
                ty: if mdl { format!("org.iso.18013.5.1.mDL{k}") } else { format!("{}Credential{k}", word(r, 4)) },
                more: (0..if mdl { 0 } else { *r.pick(&[0, 0, 0, 1, 1, 2, 4]) }).map(|n| format!("{}{n}", word(r, 5))).collect(),
                claims,
                proof,
                display,
            });
        }

        let nsub = r.range(2, 4);
        let subjects: Vec<String> = (0..nsub).map(|i| format!("{}-{i}", r.pick(&["user", "Zoë", "a@b"]))).collect();
        for s in &subjects {
            let mut subj = Subj::default();
            for c in &cfgs {
                // every subject is authorized for most, never certainly for all
                if !r.chance(4, 5) {
                    continue;
                }
                let n = *r.pick(&[1, 1, 1, 1, 2, 2, 3, 5]);
                let mut ids = vec![];
                for j in 0..n {
                    let ident = format!("{}#{j}", c.id);
                    let mut data = Map::new();
                    let mark = |path: &str| json!(format!("{s}|{ident}|{path}"));
                    for (k, d) in c.claims.as_object().unwrap() {
                        let nested: Vec<&String> = d
                            .as_object()
                            .unwrap()
                            .iter()
                            .filter(|(k, v)| v.is_object() || (c.mdl && k.as_str() != "display"))
                            .map(|(k, _)| k)
                            .collect();
                        if c.mdl || k == "address" {
                            let mut m = Map::new();
                            for nk in nested {
                                m.insert(nk.clone(), mark(&format!("{k}.{nk}")));
                            }
                            data.insert(k.clone(), Value::Object(m));
                        } else {
                            data.insert(
                                k.clone(),
                                match r.below(5) {
                                    0 => json!([mark(k), 1.5, null, true]),
                                    1 => json!({"deep": mark(k), "n": -7}),
                                    _ => mark(k),
                                },
                            );
                        }
                    }
                    if !c.mdl && r.chance(1, 3) {
                        data.insert("undeclared".into(), mark("undeclared"));
                    }
                    subj.datasets.insert(ident.clone(), data);
                    if r.chance(1, 2) {
                        let status = json!({
                            "id": format!("https://st.example/{}", r.below(100_000)),
                            "index": r.below(100_000),
                        });
                        w.with(|i| i.statuses.insert((s.clone(), ident.clone()), status));
                    }
                    ids.push(ident);
                }
                subj.allowed.insert(c.id.clone(), ids);
            }
            // at least one configuration
            if subj.allowed.is_empty() {
                let c = &cfgs[0];
                let ident = format!("{}#0", c.id);
                let data = if c.mdl {
                    json!({"org.iso.18013.5.1": {"only": format!("{s}|{ident}|only")}})
                } else {
                    json!({"only": format!("{s}|{ident}|only")})
                };
                subj.datasets.insert(ident.clone(), data.as_object().unwrap().clone());
                subj.allowed.insert(c.id.clone(), vec![ident]);
            }
            w.with(|i| i.subjects.insert(s.clone(), subj));
        }

        let nclients = r.range(2, 3);
        let clients: Vec<String> = (0..nclients)
            .map(|i| format!("client {}{i}{}", word(r, 4), r.pick(&["", "", "", " ", "é", "/"])))
            .collect();
        for c in &clients {
            let uris: Vec<String> =
                (0..r.range(1, 3)).map(|i| format!("https://{}/cb{i}?k=v&x", word(r, 5))).collect();
            let v = json!({
                "client_id": c,
                "redirect_uris": uris,
                "grant_types": ["authorization_code", PRE],
                "response_types": ["code"],
                "scope": *r.pick(&["openid credential", "credential", "openid"]),
                "credential_offer_endpoint": "openid-credential-offer://",
            });
            w.with(|i| i.clients.insert(c.clone(), v));
        }

        let anonymous = r.chance(1, 2);
        let mut server = json!({
            "issuer": issuer,
            "authorization_endpoint": "/auth",
            "token_endpoint": "/token",
            "scopes_supported": ["openid", "credential"],
            "response_types_supported": if r.chance(1, 3) { json!(["code", "vp_token"]) } else { json!(["code"]) },
            "response_modes_supported": ["query"],
            "grant_types_supported": ["authorization_code", PRE],
            "code_challenge_methods_supported": ["S256"],
            "pre-authorized_grant_anonymous_access_supported": anonymous,
        });
        // saying that pushing is not needed is like not saying it
        if r.chance(1, 4) {
            server["require_pushed_authorization_requests"] = json!(false);
        }
        w.with(|i| i.servers.insert(issuer.clone(), server));

        let wallets: Vec<Key> = (0..3)
            .map(|i| Key::new(&format!("did:key:{}{i}", word(r, 8)), "key-0", &word(r, 12)))
            .collect();
        for k in &wallets {
            w.add_key(k);
        }
        w.with(|i| i.signers.insert(issuer.clone(), key.clone()));
        let s = Self { w, issuer, key, cfgs, subjects, clients, wallets, anonymous };
        s.publish(r);
        s
    }

    /// Write the issuer metadata document.
    pub fn publish(&self, r: &mut Rng) {
        let mut configs = Map::new();
        for c in &self.cfgs {
            let mut v = c.format(Some(&c.claims));
            if let Some(s) = &c.scope {
                v["scope"] = json!(s);
            }
            v["cryptographic_binding_methods_supported"] = json!(["did:key", "did:web"]);
            v["credential_signing_alg_values_supported"] = json!(["EdDSA"]);
            match c.proof {
                ProofReq::Jwt => {
                    v["proof_types_supported"] = json!({"jwt": {"proof_signing_alg_values_supported": ["EdDSA"]}})
                }
                ProofReq::None => {}
                ProofReq::OtherOnly => {
                    v["proof_types_supported"] = json!({"ldp_vp": {"proof_signing_alg_values_supported": ["EdDSA"]}})
                }
            }
            if !c.display.is_null() {
                v["display"] = c.display.clone();
            }
            configs.insert(c.id.clone(), v);
        }
        let mut meta = json!({
            "credential_issuer": self.issuer,
            "credential_endpoint": format!("{}/credential", self.issuer),
            "deferred_credential_endpoint": format!("{}/deferred", self.issuer),
            "display": {"name": "Iss", "locale": "en-NZ"},
            "credential_configurations_supported": configs,
        });
        if r.chance(1, 3) {
            meta["authorization_servers"] = match r.below(3) {
                0 => json!(["https://as.example/", "https://as2.example"]),
                1 => json!(["https://AS.example/t"]),
                _ => json!(["https://as.example", "https://as2.example"]),
            };
        }
        self.w.with(|i| i.issuers.insert(self.issuer.clone(), meta));
    }

    pub fn cfg(&self, id: &str) -> &Cfg {
        self.cfgs.iter().find(|c| c.id == id).unwrap()
    }

    pub fn allowed(&self, subject: &str) -> BTreeMap<String, Vec<String>> {
        self.w.with(|i| i.subjects.get(subject).map(|s| s.allowed.clone()).unwrap_or_default())
    }

    pub fn dataset(&self, subject: &str, ident: &str) -> Map<String, Value> {
        self.w.with(|i| i.subjects[subject].datasets[ident].clone())
    }

    pub fn redirect_uris(&self, client: &str) -> Vec<String> {
        self.w.with(|i| {
            i.clients[client]["redirect_uris"].as_array().unwrap().iter().map(|u| u.as_str().unwrap().into()).collect()
        })
    }

    // --- endpoints ---
    pub fn create_offer(&self, v: Value) -> Out<oi::CreateOfferResponse> {
        run(v, |q| vercre_issuer::create_offer(self.w.clone(), q))
    }

    pub fn credential_offer(&self, v: Value) -> Out<oi::CredentialOfferResponse> {
        run(v, |q| vercre_issuer::credential_offer(self.w.clone(), q))
    }

    pub fn authorize(&self, v: Value) -> Out<oi::AuthorizationResponse> {
        run(v, |q| vercre_issuer::authorize(self.w.clone(), q))
    }

    pub fn par(&self, v: Value) -> Out<oi::PushedAuthorizationResponse> {
        run(v, |q| vercre_issuer::par(self.w.clone(), q))
    }

    pub fn token(&self, v: Value) -> Out<oi::TokenResponse> {
        run(v, |q| vercre_issuer::token(self.w.clone(), q))
    }

    pub fn credential(&self, v: Value) -> Out<oi::CredentialResponse> {
        run(v, |q| vercre_issuer::credential(self.w.clone(), q))
    }

    pub fn deferred(&self, v: Value) -> Out<oi::DeferredCredentialResponse> {
        run(v, |q| vercre_issuer::deferred(self.w.clone(), q))
    }

    pub fn notification(&self, v: Value) -> Out<oi::NotificationResponse> {
        run(v, |q| vercre_issuer::notification(self.w.clone(), q))
    }

    pub fn register(&self, v: Value) -> Out<oi::RegistrationResponse> {
        run(v, |q| vercre_issuer::register(self.w.clone(), q))
    }

    pub fn metadata(&self, v: Value) -> Out<oi::MetadataResponse> {
        run(v, |q| vercre_issuer::metadata(self.w.clone(), q))
    }

    pub fn oauth_server(&self, v: Value) -> Out<oi::OAuthServerResponse> {
        run(v, |q| vercre_issuer::oauth_server(self.w.clone(), q))
    }
}

/// One wallet's passage through the protocol; fields hold what the wallet
/// knows from responses so far.
#[derive(Clone, Debug, Default)]
pub struct Flow {
    pub subject: String,
    pub client: String,
    pub redirect: String,
    pub verifier: String,
    pub pre: bool,
    pub wanted: Vec<String>,
    pub tx_required: bool,
    // learnt
    pub code: String,
    pub tx_code: Option<String>,
    pub issuer_state: Option<String>,
    pub request_uri: Option<String>,
    pub access_token: String,
    pub c_nonce: String,
    /// configuration id -> identifiers granted
    pub granted: BTreeMap<String, Vec<String>>,
    pub wallet: usize,
    pub details: Value,
    /// configurations asked for by an authorization detail
    pub by_detail: BTreeSet<String>,
    pub scope: Option<String>,
    /// configuration id -> top-level claims asked for at authorization
    pub asked_claims: BTreeMap<String, BTreeSet<String>>,
    /// configuration id -> top-level claims asked for in the token request
    pub token_claims: BTreeMap<String, BTreeSet<String>>,
    pub got_code_at: i64,
    pub token_at: i64,
    pub nonce_at: i64,
}

impl Flow {
    /// A flow the issuer must accept.
    pub fn new(s: &Setup, r: &mut Rng) -> Self {
        let subject = r.pick(&s.subjects).clone();
        let client = r.pick(&s.clients).clone();
        let redirect = r.pick(&s.redirect_uris(&client)).clone();
        let mut wanted: Vec<String> = s.allowed(&subject).keys().cloned().collect();
        r.shuffle(&mut wanted);
        wanted.truncate(r.range(1, wanted.len()));
        let n = r.range(43, 128);
        Self {
            subject,
            client,
            redirect,
            verifier: (0..n).map(|_| *r.pick(b"abcXYZ019-._~") as char).collect(),
            pre: r.chance(1, 2),
            wanted,
            tx_required: r.chance(1, 2),
            wallet: r.below(s.wallets.len()),
            ..Self::default()
        }
    }

    pub fn offer_request(&self, s: &Setup, r: &mut Rng) -> Value {
        let grants = if self.pre {
            if r.chance(1, 4) {
                json!([PRE, "authorization_code"])
            } else {
                json!([PRE])
            }
        } else {
            json!(["authorization_code"])
        };
        json!({
            "credential_issuer": s.issuer,
            "subject_id": self.subject,
            "credential_configuration_ids": self.wanted,
            "grant_types": grants,
            "tx_code_required": self.tx_required,
            "send_type": *r.pick(&["ByVal", "ByRef"]),
        })
    }

    /// Create the offer and take from it what the wallet needs.
    pub fn offer(&mut self, s: &Setup, r: &mut Rng) -> Result<(), String> {
        let out = s.create_offer(self.offer_request(s, r));
        let why = out.why();
        let resp = out.ok().ok_or(why)?;
        let offer = match resp.offer_type {
            oi::OfferType::Object(o) => o,
            oi::OfferType::Uri(uri) => {
                let id = uri.rsplit('/').next().unwrap().to_string();
                let out = s.credential_offer(json!({"credential_issuer": s.issuer, "id": id}));
                let why = out.why();
                out.ok().ok_or(why)?.credential_offer
            }
        };
        self.tx_code = resp.tx_code;
        let grants = offer.grants.ok_or("offer without grants")?;
        if self.pre {
            self.code = grants.pre_authorized_code.ok_or("no pre-authorized grant")?.pre_authorized_code;
            for c in &self.wanted {
                self.granted.insert(c.clone(), s.allowed(&self.subject)[c].clone());
            }
        } else {
            self.issuer_state = grants.authorization_code.ok_or("no authorization grant")?.issuer_state;
        }
        self.got_code_at = crate::clock::now();
        Ok(())
    }

    /// An authorization request the issuer must accept; records what it asks.
    pub fn authorize_request(&mut self, s: &Setup, r: &mut Rng) -> Value {
        let mut details = vec![];
        let mut wanted = self.wanted.clone();
        self.scope = None;
        self.asked_claims.clear();
        // by scope: only when every configuration with that scope is allowed
        if r.chance(1, 3) {
            let allowed = s.allowed(&self.subject);
            let scopes: Vec<String> = s
                .cfgs
                .iter()
                .filter_map(|c| c.scope.clone())
                .filter(|sc| {
                    s.cfgs.iter().filter(|c| c.scope.as_ref() == Some(sc)).all(|c| allowed.contains_key(&c.id))
                })
                .collect();
            if !scopes.is_empty() {
                // one item or several, in any order, perhaps among others the
                // issuer does not know
                let mut items = vec![r.pick(&scopes).clone()];
                while r.chance(1, 3) {
                    let more = match r.below(5) {
                        0 => "openid".to_string(),
                        // nearly the scope of one of the credentials
                        1 => s.cfgs.iter().find_map(|c| c.scope.clone()).unwrap_or_default().to_uppercase(),
                        2 => format!("{}.", r.pick(&scopes)),
                        _ => r.pick(&scopes).clone(),
                    };
                    items.insert(r.below(items.len() + 1), more);
                }
                // details may name the same credential; they take precedence
                let overlap = r.chance(1, 4);
                if !overlap {
                    wanted.retain(|c| !s.cfg(c).scope.as_ref().is_some_and(|x| items.contains(x)));
                    if r.chance(1, 2) {
                        wanted.clear();
                    }
                }
                self.scope = Some(items.join(if r.chance(1, 8) { "  " } else { " " }));
            }
        }
        for id in &wanted {
            let c = s.cfg(id);
            let claims = if r.chance(1, 3) {
                let must = c.mandatory();
                let mut m = Map::new();
                for (k, v) in c.claims.as_object().unwrap() {
                    if must.contains(k) || r.chance(1, 2) {
                        m.insert(k.clone(), if c.mdl || k == "address" { v.clone() } else { json!({}) });
                    }
                }
                if m.is_empty() { None } else { Some(Value::Object(m)) }
            } else {
                None
            };
            if let Some(cl) = &claims {
                self.asked_claims.insert(id.clone(), cl.as_object().unwrap().keys().cloned().collect());
            }
            let mut d = json!({"type": "openid_credential"});
            if r.chance(1, 2) {
                d["credential_configuration_id"] = json!(id);
                if let Some(cl) = &claims {
                    if c.mdl {
                        d["claims"] = cl.clone();
                    } else {
                        d["credential_definition"] = json!({"credentialSubject": cl});
                    }
                }
            } else {
                merge(&mut d, &c.format(claims.as_ref()));
            }
            if r.chance(1, 5) {
                d["locations"] = json!([s.issuer]);
            }
            details.push(d);
        }
        self.granted.clear();
        for id in &wanted {
            self.granted.insert(id.clone(), s.allowed(&self.subject)[id].clone());
        }
        if self.scope.is_some() {
            let named: Vec<&Cfg> = s.cfgs.iter().filter(|c| self.by_scope(c)).collect();
            for c in named {
                self.granted.insert(c.id.clone(), s.allowed(&self.subject)[&c.id].clone());
            }
        }
        let mut v = json!({
            "credential_issuer": s.issuer,
            "response_type": "code",
            "client_id": self.client,
            "redirect_uri": self.redirect,
            "state": format!("st-{}", r.below(1_000_000)),
            "code_challenge": challenge(&self.verifier),
            "code_challenge_method": "S256",
            "subject_id": self.subject,
            "wallet_issuer": s.issuer,
        });
        match r.below(12) {
            0 => v["state"] = json!(""),
            1 => v["state"] = json!(" é&=%20 \"st\""),
            2 => {
                v.as_object_mut().unwrap().remove("state");
            }
            _ => {}
        }
        if !details.is_empty() {
            v["authorization_details"] = json!(details);
        }
        if let Some(sc) = &self.scope {
            v["scope"] = json!(sc);
        }
        if let Some(st) = &self.issuer_state {
            v["issuer_state"] = json!(st);
        }
        self.details = json!(details);
        self.by_detail = wanted.into_iter().collect();
        v
    }

    /// Whether an authorization detail asked for names this configuration.
    pub fn in_details(&self, id: &str) -> bool {
        self.by_detail.contains(id)
    }

    /// Whether the scope asked for names this configuration.
    pub fn by_scope(&self, c: &Cfg) -> bool {
        let Some(asked) = &self.scope else { return false };
        c.scope.as_deref().is_some_and(|x| asked.split_whitespace().any(|i| i == x))
    }

    /// Authorize (directly or pushed), keeping the code.
    pub fn authorize(&mut self, s: &Setup, r: &mut Rng) -> Result<(), String> {
        let req = self.authorize_request(s, r);
        let req = if r.chance(1, 3) {
            let out = s.par(req.clone());
            let why = out.why();
            let p = out.ok().ok_or(format!("par {why}"))?;
            json!({"client_id": self.client, "request_uri": p.request_uri})
        } else {
            req
        };
        let out = s.authorize(req);
        let why = out.why();
        self.code = out.ok().ok_or(why)?.code;
        self.got_code_at = crate::clock::now();
        Ok(())
    }

    pub fn token_request(&self, s: &Setup) -> Value {
        let mut v = json!({"credential_issuer": s.issuer, "client_id": self.client});
        if self.pre {
            v["grant_type"] = json!(PRE);
            v["pre-authorized_code"] = json!(self.code);
            if let Some(t) = &self.tx_code {
                v["tx_code"] = json!(t);
            }
        } else {
            v["grant_type"] = json!("authorization_code");
            v["code"] = json!(self.code);
            v["redirect_uri"] = json!(self.redirect);
            v["code_verifier"] = json!(self.verifier);
        }
        v
    }

    pub fn take_token(&mut self, t: &oi::TokenResponse) {
        self.access_token = t.access_token.clone();
        self.c_nonce = t.c_nonce.clone().unwrap_or_default();
        self.token_at = crate::clock::now();
        self.nonce_at = self.token_at;
    }

    pub fn token(&mut self, s: &Setup) -> Result<oi::TokenResponse, String> {
        let out = s.token(self.token_request(s));
        let why = out.why();
        let t = out.ok().ok_or(why)?;
        self.take_token(&t);
        Ok(t)
    }

    /// Up to the access token.
    pub fn up_to_token(&mut self, s: &Setup, r: &mut Rng) -> Result<oi::TokenResponse, String> {
        self.up_to_code(s, r)?;
        self.token(s).map_err(|e| format!("token {e}"))
    }

    pub fn up_to_code(&mut self, s: &Setup, r: &mut Rng) -> Result<(), String> {
        if self.pre || r.chance(1, 2) {
            self.offer(s, r).map_err(|e| format!("offer {e}"))?;
        }
        if !self.pre {
            self.authorize(s, r).map_err(|e| format!("authorize {e}"))?;
        }
        Ok(())
    }

    pub fn proof_parts(&self, s: &Setup) -> (Value, Value, Key) {
        let key = s.wallets[self.wallet].clone();
        let header = json!({"alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": key.kid()});
        let claims = json!({
            "iss": self.client, "aud": s.issuer, "iat": crate::clock::now(), "nonce": self.c_nonce,
        });
        (header, claims, key)
    }

    pub fn proof(&self, s: &Setup) -> String {
        let (h, c, k) = self.proof_parts(s);
        jws(&h, &c, &k)
    }

    /// Request for one granted identifier.
    pub fn credential_request(&self, s: &Setup, ident: &str) -> Value {
        json!({
            "credential_issuer": s.issuer,
            "access_token": self.access_token,
            "credential_identifier": ident,
            "proof": {"proof_type": "jwt", "jwt": self.proof(s)},
        })
    }

    pub fn take_nonce(&mut self, resp: &oi::CredentialResponse) {
        if let Some(n) = &resp.c_nonce {
            self.c_nonce = n.clone();
            self.nonce_at = crate::clock::now();
        }
    }

    /// Every (configuration id, identifier) granted.
    pub fn items(&self) -> Vec<(String, String)> {
        self.granted.iter().flat_map(|(c, ids)| ids.iter().map(move |i| (c.clone(), i.clone()))).collect()
    }
}

//! Monitors over the wallet: issuance flows against the real issuer, and
//! presentation flows against the real verifier.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use anyhow::anyhow;
use base64ct::{Base64UrlUnpadded, Encoding};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use sys::docs::any_text;
use sys::exec::{block_on, reset};
use sys::issue::{Setup, PRE};
use sys::report::{args, Report};
use sys::rng::Rng;
use sys::world::{jws, jws_open, Key, Op, World};
use sys::{clock, guarded};
use vercre_holder::issuance as iss;
use vercre_holder::presentation as pres;
use vercre_holder::provider::{
    Algorithm, CredentialStorer, DidResolver, Document, HolderProvider, Issuer, Signer, StateStore, Verifier,
};
use vercre_holder::{
    AuthorizationRequest, AuthorizationResponse, Constraints, Credential, CredentialRequest, CredentialResponse,
    DeferredCredentialRequest, DeferredCredentialResponse, Logo, MetadataRequest, MetadataResponse,
    NotificationRequest, NotificationResponse, OAuthServerRequest, OAuthServerResponse, RequestObjectRequest,
    RequestObjectResponse, ResponseRequest, ResponseResponse, TokenRequest, TokenResponse,
};

const ASSUME: &[&str] = &[
    "JOSE signatures are a stand-in scheme: a signature verifies exactly for the key and bytes it was made with",
    "the wallet's provider passes its calls to the real issuer and verifier libraries; its store finds credentials by the filter as documented",
    "time is the harness's virtual clock",
];

fn main() {
    let (prop, rep) = args();
    match prop.as_str() {
        "P27" => issuance(rep, false),
        "P28" => issuance(rep, true),
        "P29" => presentation(rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

// ---------------------------------------------------------------- wallet

/// What the network does to the next message.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mitm {
    /// change a claim, keep the signature
    Claim,
    /// sign with another key under the same key identifier
    Resign,
    /// drop the signature
    Unsigned,
    /// cut the token short
    Cut,
}

const MITMS: [Mitm; 4] = [Mitm::Claim, Mitm::Resign, Mitm::Unsigned, Mitm::Cut];

fn b64(v: &Value) -> String {
    Base64UrlUnpadded::encode_string(v.to_string().as_bytes())
}

/// Header and claims of a compact token, unverified.
fn peek(token: &str) -> Option<(Value, Value)> {
    let mut p = token.split('.');
    let h = Base64UrlUnpadded::decode_vec(p.next()?).ok()?;
    let c = Base64UrlUnpadded::decode_vec(p.next()?).ok()?;
    Some((serde_json::from_slice(&h).ok()?, serde_json::from_slice(&c).ok()?))
}

fn tamper(token: &str, how: Mitm) -> String {
    let parts: Vec<&str> = token.split('.').collect();
    let Some((h, mut c)) = peek(token) else { return String::new() };
    match how {
        Mitm::Claim => {
            c["iat"] = json!(c["iat"].as_i64().unwrap_or(0) + 1);
            c["injected"] = json!(true);
            format!("{}.{}.{}", parts[0], b64(&c), parts[2])
        }
        Mitm::Resign => jws(&h, &c, &Key::new("did:web:mallory", "key-0", "mallory's own")),
        Mitm::Unsigned => format!("{}.{}.", parts[0], parts[1]),
        Mitm::Cut => format!("{}.{}", parts[0], parts[1]),
    }
}

struct Inner {
    me: World,
    issuer: World,
    verifier: World,
    key: Key,
    creds: Mutex<BTreeMap<String, Credential>>,
    saves: Mutex<Vec<Credential>>,
    /// (what, request, response)
    calls: Mutex<Vec<(&'static str, Value, Result<Value, String>)>>,
    mitm: Mutex<Option<Mitm>>,
    /// the issuer answers a credential request with a list of this many
    batch: Mutex<Option<(usize, Key)>>,
    /// the issuer wants to hear no more of the next answer
    bare: Mutex<bool>,
    /// the issuer answers a deferred request with (this) transaction again
    wait: Mutex<Option<String>>,
    /// transaction the wallet knows -> transaction the issuer knows
    alias: Mutex<BTreeMap<String, String>>,
    /// states of requests another verifier made, which takes any answer
    foreign: Mutex<BTreeSet<String>>,
}

#[derive(Clone)]
struct Wallet(Arc<Inner>);

impl Wallet {
    fn new(issuer: World, verifier: World, key: Key) -> Self {
        Self(Arc::new(Inner {
            me: World::new(),
            issuer,
            verifier,
            key,
            creds: Mutex::default(),
            saves: Mutex::default(),
            calls: Mutex::default(),
            mitm: Mutex::default(),
            batch: Mutex::default(),
            bare: Mutex::default(),
            wait: Mutex::default(),
            alias: Mutex::default(),
            foreign: Mutex::default(),
        }))
    }

    /// One call out of the wallet: may be made to fail, is recorded.
    async fn call<T: Serialize, E: std::fmt::Display>(
        &self, what: &'static str, req: Value, f: impl std::future::Future<Output = Result<T, E>> + Send,
    ) -> anyhow::Result<T> {
        self.0.me.op(Op::Http { what, body: req.clone() })?;
        let out = f.await.map_err(|e| anyhow!("{e}"));
        let log = match &out {
            Ok(t) => Ok(serde_json::to_value(t).unwrap_or(Value::Null)),
            Err(e) => Err(e.to_string()),
        };
        self.0.calls.lock().unwrap().push((what, req, log));
        out
    }

    fn take_calls(&self) -> Vec<(&'static str, Value, Result<Value, String>)> {
        std::mem::take(&mut self.0.calls.lock().unwrap())
    }

    fn take_saves(&self) -> Vec<Credential> {
        std::mem::take(&mut self.0.saves.lock().unwrap())
    }

    fn state(&self) -> BTreeMap<String, (Value, i64)> {
        self.0.me.snapshot()
    }

    fn fault(&self, at: Option<usize>) {
        self.0.me.with(|i| {
            i.fail_at = at;
            i.fail_text = "injected fault \"x\"".into();
        });
    }
}

fn val<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or(Value::Null)
}

impl HolderProvider for Wallet {}

impl Issuer for Wallet {
    async fn metadata(&self, req: MetadataRequest) -> anyhow::Result<MetadataResponse> {
        let w = self.0.issuer.clone();
        self.call("metadata", val(&req), vercre_issuer::metadata(w, req)).await
    }

    async fn oauth_server(&self, req: OAuthServerRequest) -> anyhow::Result<OAuthServerResponse> {
        let w = self.0.issuer.clone();
        self.call("oauth_server", val(&req), vercre_issuer::oauth_server(w, req)).await
    }

    async fn authorization(&self, req: AuthorizationRequest) -> anyhow::Result<AuthorizationResponse> {
        let w = self.0.issuer.clone();
        self.call("authorization", val(&req), vercre_issuer::authorize(w, req)).await
    }

    async fn token(&self, req: TokenRequest) -> anyhow::Result<TokenResponse> {
        let w = self.0.issuer.clone();
        self.call("token", val(&req), vercre_issuer::token(w, req)).await
    }

    async fn credential(&self, req: CredentialRequest) -> anyhow::Result<CredentialResponse> {
        let w = self.0.issuer.clone();
        let batch = self.0.batch.lock().unwrap().clone();
        let mut resp = self
            .call("credential", val(&req), async move {
                let got = vercre_issuer::credential(w, req).await.map_err(|e| anyhow!("{e}"))?;
                match batch {
                    Some((n, key)) => Ok(listed(got, n, &key)?),
                    None => Ok::<_, anyhow::Error>(got),
                }
            })
            .await?;
        if std::mem::take(&mut *self.0.bare.lock().unwrap()) {
            let mut v = serde_json::to_value(&resp)?;
            v.as_object_mut().unwrap().remove("notification_id");
            resp = serde_json::from_value(v)?;
        }
        let how = self.0.mitm.lock().unwrap().take();
        if let Some(how) = how {
            let mut v = serde_json::to_value(&resp)?;
            let last = v["credentials"].as_array().map_or(0, |l| l.len().saturating_sub(1));
            if let Some(t) = v["credential"].as_str().map(ToString::to_string) {
                v["credential"] = json!(tamper(&t, how));
                resp = serde_json::from_value(v)?;
            } else if let Some(t) = v["credentials"][last].as_str().map(ToString::to_string) {
                v["credentials"][last] = json!(tamper(&t, how));
                resp = serde_json::from_value(v)?;
            } else {
                *self.0.mitm.lock().unwrap() = Some(how);
            }
        }
        Ok(resp)
    }

    async fn deferred(&self, req: DeferredCredentialRequest) -> anyhow::Result<DeferredCredentialResponse> {
        let w = self.0.issuer.clone();
        let log = val(&req);
        let wait = self.0.wait.lock().unwrap().take();
        if let Some(tx) = wait {
            let old = self.0.alias.lock().unwrap().get(&req.transaction_id).cloned();
            self.0.alias.lock().unwrap().insert(tx.clone(), old.unwrap_or_else(|| req.transaction_id.clone()));
            return self
                .call("deferred", log, async move {
                    serde_json::from_value::<DeferredCredentialResponse>(json!({"transaction_id": tx}))
                })
                .await;
        }
        let mut req = req;
        let old = self.0.alias.lock().unwrap().get(&req.transaction_id).cloned();
        if let Some(tx) = old {
            req.transaction_id = tx;
        }
        self.call("deferred", log, vercre_issuer::deferred(w, req)).await
    }

    async fn logo(&self, url: &str) -> anyhow::Result<Logo> {
        let url = url.to_string();
        self.call("logo", json!(url.clone()), async move {
            if url.contains("missing") {
                return Err(anyhow!("no logo"));
            }
            Ok(logo(&url))
        })
        .await
    }

    async fn notification(&self, req: NotificationRequest) -> anyhow::Result<NotificationResponse> {
        let w = self.0.issuer.clone();
        self.call("notification", val(&req), vercre_issuer::notification(w, req)).await
    }
}

/// The same answer as a list of credentials, the further ones being copies
/// under other identifiers.
fn listed(resp: CredentialResponse, n: usize, key: &Key) -> anyhow::Result<CredentialResponse> {
    let mut v = serde_json::to_value(&resp)?;
    let Some(t) = v["credential"].as_str().map(ToString::to_string) else { return Ok(resp) };
    let mut all = vec![t.clone()];
    let Some((h, claims)) = jws_open(&t, key) else { return Ok(resp) };
    for i in 1..n {
        let mut c = claims.clone();
        let id = json!(format!("{}/{i}", c["vc"]["id"].as_str().unwrap_or_default()));
        c["vc"]["validFrom"] = json!("2001-09-09T01:46:40Z");
        c["vc"]["id"] = id.clone();
        c["jti"] = id;
        all.push(jws(&h, &c, key));
    }
    v.as_object_mut().unwrap().remove("credential");
    v["credentials"] = json!(all);
    Ok(serde_json::from_value(v)?)
}

fn logo(url: &str) -> Logo {
    Logo { image: format!("image of {url}"), media_type: "image/png".into() }
}

impl Verifier for Wallet {
    async fn request_object(&self, req: &str) -> anyhow::Result<RequestObjectResponse> {
        let parts = req.rsplitn(3, '/').collect::<Vec<&str>>();
        if parts.len() < 3 {
            return Err(anyhow!("invalid request string"));
        }
        let q = RequestObjectRequest { client_id: parts[2].into(), id: parts[0].into() };
        let w = self.0.verifier.clone();
        let how = *self.0.mitm.lock().unwrap();
        self.call("request_object", json!(req), async move {
            let mut got = vercre_verifier::request_object(w, &q).await?;
            if let Some(how) = how {
                if let vercre_openid::verifier::RequestObjectType::Jwt(t) = &got.request_object {
                    got.request_object = vercre_openid::verifier::RequestObjectType::Jwt(tamper(t, how));
                }
            }
            Ok::<_, anyhow::Error>(got)
        })
        .await
    }

    async fn present(&self, uri: Option<&str>, req: &ResponseRequest) -> anyhow::Result<ResponseResponse> {
        let w = self.0.verifier.clone();
        let body = json!({"uri": uri, "request": req});
        // over the wire and back, as a client would send it
        let req: ResponseRequest = serde_json::from_value(serde_json::to_value(req)?)?;
        let foreign = req.state.as_ref().is_some_and(|s| self.0.foreign.lock().unwrap().contains(s));
        self.call("present", body, async move {
            if foreign {
                return Ok(serde_json::from_value(json!({})).unwrap());
            }
            vercre_verifier::response(w, &req).await
        })
        .await
    }
}

impl CredentialStorer for Wallet {
    async fn save(&self, credential: &Credential) -> anyhow::Result<()> {
        self.0.me.op(Op::Http { what: "save", body: json!(credential.id) })?;
        self.0.creds.lock().unwrap().insert(credential.id.clone(), credential.clone());
        self.0.saves.lock().unwrap().push(credential.clone());
        Ok(())
    }

    async fn load(&self, id: &str) -> anyhow::Result<Option<Credential>> {
        self.0.me.op(Op::Http { what: "load", body: json!(id) })?;
        Ok(self.0.creds.lock().unwrap().get(id).cloned())
    }

    async fn find(&self, filter: Option<Constraints>) -> anyhow::Result<Vec<Credential>> {
        self.0.me.op(Op::Http { what: "find", body: json!(filter) })?;
        let all: Vec<Credential> = self.0.creds.lock().unwrap().values().cloned().collect();
        let Some(f) = filter else { return Ok(all) };
        let f = serde_json::to_value(f)?;
        Ok(all.into_iter().filter(|c| satisfies(&f, &val(&c.vc))).collect())
    }

    async fn remove(&self, id: &str) -> anyhow::Result<()> {
        self.0.me.op(Op::Http { what: "remove", body: json!(id) })?;
        self.0.creds.lock().unwrap().remove(id).map(|_| ()).ok_or_else(|| anyhow!("no such credential"))
    }
}

impl StateStore for Wallet {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> anyhow::Result<()> {
        self.0.me.put(key, state, expiry).await
    }

    async fn get<T: DeserializeOwned>(&self, key: &str) -> anyhow::Result<T> {
        self.0.me.get(key).await
    }

    async fn purge(&self, key: &str) -> anyhow::Result<()> {
        self.0.me.purge(key).await
    }
}

impl Signer for Wallet {
    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> {
        self.0.me.op(Op::Sign(self.0.key.kid()))?;
        Ok(vercre_infosec::sim::sign(&self.0.key.secret, msg))
    }

    async fn public_key(&self) -> anyhow::Result<Vec<u8>> {
        Ok(self.0.key.public())
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        self.0.key.kid()
    }
}

impl DidResolver for Wallet {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        self.0.me.op(Op::Resolve(url.into()))?;
        match self.0.issuer.resolve(url).await {
            Ok(d) => Ok(d),
            Err(_) => self.0.verifier.resolve(url).await,
        }
    }
}

fn run<T>(f: impl std::future::Future<Output = anyhow::Result<T>>) -> Result<T, String> {
    let out = guarded(|| block_on(f));
    reset();
    match out {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

// -------------------------------------------------------------- issuance

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Stage {
    Ready,
    PendingPin,
    Accepted,
    Token,
    /// saved, cancelled
    Over,
    /// the issuer spent something the wallet lost: only cancelling is judged
    Broken,
}

/// The model of one issuance flow.
#[derive(Clone, Debug)]
struct Flow {
    id: String,
    subject: String,
    client: String,
    redirect: String,
    stage: Stage,
    /// configurations on offer (issuer-initiated)
    offered: Vec<String>,
    pre: bool,
    code: bool,
    pin: Option<String>,
    pin_entered: Option<String>,
    /// configuration -> claims wanted (None: all); what the holder agreed to
    accepted: Option<BTreeMap<String, Option<BTreeSet<String>>>>,
    accepted_details: Option<Value>,
    scope: Option<String>,
    /// what the token is good for: configuration -> identifiers
    granted: BTreeMap<String, Vec<String>>,
    /// tokens buffered in the flow, ready to be saved
    buffer: Vec<Expect>,
    /// transaction -> (configuration, identifier)
    deferred: BTreeMap<String, (String, String)>,
    asked: bool,
    /// the token came from the pre-authorized code
    via_pre: bool,
    /// a fault hit this flow's credential requests
    faulted: bool,
}

/// A credential the wallet received and must store as it is.
#[derive(Clone, Debug)]
struct Expect {
    token: String,
    cfg: String,
    ident: Option<String>,
}

struct Case<'a> {
    rep: &'a mut Report,
    s: Setup,
    w: Wallet,
    log: Vec<String>,
}

impl Case<'_> {
    fn bad(&mut self, sig: &str, detail: String) {
        let hist = self.log.join(" | ");
        self.rep.violation(sig, format!("{detail}\n history: {hist}"));
    }

    fn ok(&mut self, cond: bool, sig: &str, detail: impl FnOnce() -> String) {
        self.rep.count("oracle_comparisons");
        if !cond {
            let d = detail();
            self.bad(sig, d);
        }
    }

    /// Run one wallet step that the model says must be refused: it is refused,
    /// sends nothing to the issuer, stores nothing and leaves every flow alone.
    fn refuse<T: std::fmt::Debug>(
        &mut self, what: &str, f: impl std::future::Future<Output = anyhow::Result<T>>,
    ) {
        let before = self.w.state();
        self.w.take_calls();
        self.w.take_saves();
        let out = run(f);
        let sent: Vec<&str> = self
            .w
            .take_calls()
            .iter()
            .map(|c| c.0)
            .filter(|c| !matches!(*c, "metadata" | "oauth_server"))
            .collect();
        let saves = self.w.take_saves();
        self.rep.count("steps_refused_expected");
        self.log.push(format!("refuse {what}"));
        let txt = match &out {
            Ok(t) => format!("accepted: {t:?}"),
            Err(e) => e.clone(),
        };
        self.ok(out.is_err(), &format!("step-accepted-{what}"), || txt.clone());
        self.ok(!txt.starts_with("panic"), &format!("panic-{what}"), || txt.clone());
        self.ok(sent.is_empty(), &format!("refused-step-sends-{what}"), || format!("sent {sent:?}; {txt}"));
        self.ok(saves.is_empty(), &format!("refused-step-stores-{what}"), || txt.clone());
        let after = self.w.state();
        self.ok(before == after, &format!("refused-step-changes-state-{what}"), || {
            format!("{txt}\n before {before:?}\n after {after:?}")
        });
    }

    /// Run a step with a provider operation failing: the wallet may fail, but
    /// cleanly, and what it has stored for its flows stays as it was.
    fn faulty<T: std::fmt::Debug, F: std::future::Future<Output = anyhow::Result<T>>>(
        &mut self, r: &mut Rng, what: &str, f: F,
    ) -> Option<T> {
        let before = self.w.state();
        let at = r.below(6);
        self.w.fault(Some(at));
        self.w.0.me.take_ops();
        let out = run(f);
        let unused = self.w.0.me.with(|i| i.fail_at.is_some());
        let hit = faults(&self.w);
        self.w.fault(None);
        self.log.push(format!("fault {what}@{at}"));
        self.rep.count(if unused { "faults_not_reached" } else { "faults_injected" });
        match out {
            Ok(t) => {
                // only a logo is optional
                let ignored: Vec<&String> = hit.iter().filter(|h| !h.contains("\"logo\"")).collect();
                self.ok(ignored.is_empty(), &format!("failure-ignored-{what}"), || format!("{ignored:?}"));
                Some(t)
            }
            Err(e) => {
                self.ok(!e.starts_with("panic"), &format!("panic-{what}"), || e.clone());
                self.ok(!unused, &format!("fails-without-cause-{what}"), || e.clone());
                let after = self.w.state();
                self.ok(before == after, &format!("failed-step-changes-state-{what}"), || {
                    format!("{e}\n before {before:?}\n after {after:?}")
                });
                None
            }
        }
    }

    /// The credential as the wallet must hold it.
    fn judge_credential(&mut self, f: &Flow, c: &Credential, e: &Expect) {
        self.rep.count("credentials_judged");
        let v = val(c);
        self.ok(c.issued == e.token, "stored-not-as-issued", || {
            format!("issued {}\n stored {}", e.token, c.issued)
        });
        let Some((_, claims)) = jws_open(&e.token, &self.s.key) else {
            self.bad("stored-unsigned", format!("token is not the issuer's: {}", e.token));
            return;
        };
        let vc = &claims["vc"];
        self.ok(v["vc"] == *vc, "stored-vc-differs", || format!("token {vc}\n stored {}", v["vc"]));
        self.ok(json!(c.id) == vc["id"], "stored-id", || format!("{} for {vc}", c.id));
        let issuer = if vc["issuer"].is_object() { &vc["issuer"]["id"] } else { &vc["issuer"] };
        self.ok(json!(c.issuer) == *issuer, "stored-issuer", || format!("{} for {vc}", c.issuer));
        self.ok(json!(c.issuance_date.timestamp()) == claims["iat"], "stored-date", || {
            format!("{} for iat {}", c.issuance_date, claims["iat"])
        });
        let cfg = self.s.cfg(&e.cfg).clone();
        let want = cfg.display.clone();
        self.ok(v["display"] == want, "stored-display", || format!("{} wanted {want}", v["display"]));
        let url = want[0]["logo"]["uri"].as_str().filter(|u| !u.contains("missing"));
        let lg = url.map(logo);
        self.ok(c.logo == lg || (f.faulted && c.logo.is_none()), "stored-logo", || format!("{:?} wanted {lg:?}", c.logo));
        let bound = &vc["credentialSubject"]["id"];
        if cfg.proof == sys::issue::ProofReq::Jwt {
            let did = self.w.0.key.did.clone();
            self.ok(*bound == json!(did), "bound-to-other-key", || format!("{bound}"));
        }
        // contents: this subject's data for what was agreed
        let mut claims = vc["credentialSubject"].clone();
        if let Some(m) = claims.as_object_mut() {
            m.remove("id");
        }
        let Some(m) = claims.as_object() else { return };
        let idents: Vec<String> = match &e.ident {
            Some(i) => vec![i.clone()],
            None => f.granted.get(&e.cfg).cloned().unwrap_or_default(),
        };
        let matches = idents.iter().any(|i| {
            let data = self.s.dataset(&f.subject, i);
            m.iter().all(|(k, v)| data.get(k) == Some(v))
        });
        self.ok(matches, "other-data", || format!("{claims} is not data of {} / {idents:?}", f.subject));
        if let Some(Some(Some(names))) = f.accepted.as_ref().map(|a| a.get(&e.cfg)) {
            let extra: Vec<&String> = m.keys().filter(|k| !names.contains(*k)).collect();
            let sig = if f.via_pre { "pre-authorized-claims-ignored" } else { "claims-not-agreed-to" };
            self.ok(extra.is_empty(), sig, || format!("{extra:?} beyond {names:?}"));
            self.rep.count("narrowed_credentials");
        }
        let types = vc["type"].clone();
        self.ok(types == json!(cfg.types()), "other-type", || format!("{types} for {:?}", cfg.types()));
    }
}

/// The operations made to fail since the last look.
fn faults(w: &Wallet) -> Vec<String> {
    w.0.me.take_ops().into_iter().filter_map(|o| if let Op::Fault(t) = o { Some(t) } else { None }).collect()
}

fn w3c(s: &Setup, subject: &str) -> Vec<String> {
    s.allowed(subject).keys().filter(|c| !s.cfg(c).mdl).cloned().collect()
}

/// An issuer with something a wallet can hold.
fn setup(r: &mut Rng) -> Setup {
    loop {
        let mut s = Setup::new(r);
        if !s.subjects.iter().any(|u| !w3c(&s, u).is_empty()) {
            continue;
        }
        for c in &mut s.cfgs {
            if r.chance(1, 3) && c.display.is_array() {
                let n = if r.chance(1, 3) { "missing" } else { "logo" };
                c.display[0]["logo"] = json!({"uri": format!("https://l.example/{n}.png")});
                if r.chance(1, 2) {
                    c.display[0]["logo"]["alt_text"] = json!("alt");
                }
            } else if r.chance(1, 6) {
                c.display = json!([]);
            }
            // a further rendering has a picture of its own
            if c.display.as_array().is_some_and(|d| d.len() > 1) && r.chance(1, 3) {
                c.display[1]["logo"] = json!({"uri": "https://l.example/second.png"});
            }
        }
        s.publish(r);
        return s;
    }
}

/// `accept` as the endpoint takes it, and what it means.
fn choose(c: &Case, r: &mut Rng, from: &[String]) -> (Value, BTreeMap<String, Option<BTreeSet<String>>>) {
    let mut ids = from.to_vec();
    r.shuffle(&mut ids);
    ids.truncate(r.range(1, ids.len()));
    let mut specs = vec![];
    let mut means = BTreeMap::new();
    for id in ids {
        let cfg = c.s.cfg(&id);
        let mut spec = json!({"credential_configuration_id": id});
        let mut names = None;
        if r.chance(1, 2) {
            let must = cfg.mandatory();
            let mut m = Map::new();
            for (k, v) in cfg.claims.as_object().unwrap() {
                if must.contains(k) || r.chance(1, 2) {
                    m.insert(k.clone(), v.clone());
                }
            }
            if !m.is_empty() {
                names = Some(m.keys().cloned().collect());
                spec["claims"] = Value::Object(m);
            }
        }
        specs.push(spec);
        means.insert(id, names);
    }
    (json!(specs), means)
}

fn details(c: &Case, r: &mut Rng, from: &[String]) -> (Value, BTreeMap<String, Option<BTreeSet<String>>>) {
    let (specs, means) = choose(c, r, from);
    let mut out = vec![];
    for sp in specs.as_array().unwrap() {
        let id = sp["credential_configuration_id"].as_str().unwrap();
        let claims = sp.get("claims");
        let mut d = json!({"type": "openid_credential"});
        if r.chance(1, 2) {
            d["credential_configuration_id"] = json!(id);
            if let Some(cl) = claims {
                d["credential_definition"] = json!({"credentialSubject": cl});
            }
        } else {
            sys::issue::merge(&mut d, &c.s.cfg(id).format(claims));
        }
        out.push(d);
    }
    (json!(out), means)
}

fn de<T: DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("harness request {v}: {e}"))
}

fn issuance(mut rep: Report, hostile: bool) {
    let n = if hostile { rep.n(700, 12_000) } else { rep.n(700, 12_000) };
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        let mut r = Rng::case(rep.seed ^ if hostile { 0x2828 } else { 0x2727 }, i);
        let s = setup(&mut r);
        let key = s.wallets[r.below(s.wallets.len())].clone();
        let w = Wallet::new(s.w.clone(), World::new(), key);
        let mut c = Case { rep: &mut rep, s, w, log: vec![] };
        history(&mut c, &mut r, hostile);
        let h = c.log.join(";");
        rep.saw("histories", &h);
        rep.eval(&h, true);
    }
    for (what, n) in [
        ("credentials_judged", 100),
        ("flows_saved", 100),
        ("narrowed_credentials", 10),
        ("deferred_obtained", 10),
        ("scope_flows", 10),
        ("proofs_judged", 100),
        ("lists_of_credentials", 20),
        ("deferred_again", 10),
    ] {
        rep.require(what, n);
    }
    if hostile {
        rep.require("steps_refused_expected", 500);
        rep.require("faults_injected", 100);
    }
    rep.finish(
        "one evaluation is one history of a wallet's issuance flows (offers, acceptances, pins, tokens, credential requests, deferrals, saves, cancellations, faults, tampered credentials) against the real issuer",
        ASSUME,
    );
}

fn history(c: &mut Case, r: &mut Rng, hostile: bool) {
    let mut flows: Vec<Flow> = vec![];
    let want = r.range(1, 3);
    let mut steps = 0;
    while steps < 60 {
        steps += 1;
        if r.chance(1, 6) {
            clock::advance(r.below(20) as i64);
        }
        let live: Vec<usize> = (0..flows.len()).filter(|k| flows[*k].stage != Stage::Over).collect();
        if flows.len() < want && (live.is_empty() || r.chance(1, 3)) {
            if let Some(f) = start(c, r, hostile) {
                flows.push(f);
            }
            continue;
        }
        if live.is_empty() {
            break;
        }
        let bad = hostile && r.chance(1, 2);
        if bad {
            let k = r.below(flows.len());
            let mut f = flows[k].clone();
            wrong_step(c, r, &mut f);
            continue;
        }
        let k = live[r.below(live.len())];
        let mut f = flows[k].clone();
        right_step(c, r, &mut f, hostile);
        flows[k] = f;
    }
}

fn start(c: &mut Case, r: &mut Rng, hostile: bool) -> Option<Flow> {
    let subject = loop {
        let u = r.pick(&c.s.subjects).clone();
        if !w3c(&c.s, &u).is_empty() {
            break u;
        }
    };
    let client = r.pick(&c.s.clients).clone();
    let redirect = r.pick(&c.s.redirect_uris(&client)).clone();
    let mut f = Flow {
        id: String::new(),
        subject: subject.clone(),
        client: client.clone(),
        redirect,
        stage: Stage::Ready,
        offered: vec![],
        pre: false,
        code: false,
        pin: None,
        pin_entered: None,
        accepted: None,
        accepted_details: None,
        scope: None,
        granted: BTreeMap::new(),
        buffer: vec![],
        deferred: BTreeMap::new(),
        asked: false,
        via_pre: false,
        faulted: false,
    };
    if r.chance(2, 5) {
        return wallet_start(c, r, f, hostile);
    }
    let mut ids = w3c(&c.s, &subject);
    r.shuffle(&mut ids);
    ids.truncate(r.range(1, ids.len()));
    let grants = match r.below(4) {
        0 => json!(["authorization_code"]),
        1 => json!([PRE, "authorization_code"]),
        _ => json!([PRE]),
    };
    let out = c.s.create_offer(json!({
        "credential_issuer": c.s.issuer, "subject_id": subject, "credential_configuration_ids": ids,
        "grant_types": grants, "tx_code_required": r.chance(1, 2), "send_type": "ByVal",
    }));
    let why = out.why();
    let Some(resp) = out.ok() else {
        c.bad("offer-not-created", why);
        return None;
    };
    let vercre_openid::issuer::OfferType::Object(offer) = resp.offer_type else { return None };
    let mut offer = val(&offer);
    f.pre = grants.as_array().unwrap().contains(&json!(PRE));
    f.code = grants.as_array().unwrap().contains(&json!("authorization_code"));
    if offer["grants"][PRE]["tx_code"].is_object() {
        f.pin = resp.tx_code.clone();
        // what the code looks like need not be said
        let hint = offer["grants"][PRE]["tx_code"].as_object_mut().unwrap();
        for k in ["length", "input_mode", "description"] {
            if r.chance(1, 4) {
                hint.remove(k);
            }
        }
    }
    if f.code && !f.pre && r.chance(1, 3) {
        // the offer is silent: the server's metadata decides
        offer.as_object_mut().unwrap().remove("grants");
    }
    f.offered = ids.clone();
    if hostile && r.chance(1, 4) {
        let mut o = offer.clone();
        match r.below(3) {
            0 => o["credential_configuration_ids"] = json!([]),
            1 => o["credential_configuration_ids"].as_array_mut().unwrap().push(json!("nobody offers this")),
            _ => o["credential_issuer"] = json!("https://elsewhere.example"),
        }
        let req: iss::OfferRequest = de(json!({"client_id": client, "subject_id": subject, "offer": o}));
        let w = c.w.clone();
        c.refuse("offer", iss::offer(w, &req));
    }
    let req: iss::OfferRequest = de(json!({"client_id": client, "subject_id": subject, "offer": offer}));
    let before = c.w.state();
    c.log.push(format!("offer {} pre={} code={} pin={}", ids.len(), f.pre, f.code, f.pin.is_some()));
    let out = if hostile && r.chance(1, 4) {
        let w = c.w.clone();
        match c.faulty(r, "offer", iss::offer(w, &req)) {
            Some(o) => Ok(o),
            None => run(iss::offer(c.w.clone(), &req)),
        }
    } else {
        run(iss::offer(c.w.clone(), &req))
    };
    let got = match out {
        Ok(g) => g,
        Err(e) => {
            c.bad("offer-refused", e);
            return None;
        }
    };
    f.id = got.issuance_id.clone();
    c.ok(!f.id.is_empty() && !before.contains_key(&f.id), "flow-id-not-fresh", || f.id.clone());
    c.ok(c.w.state().contains_key(&f.id), "flow-not-kept", || f.id.clone());
    let issuer = c.s.issuer.clone();
    c.ok(got.issuer == issuer, "offer-issuer", || got.issuer.clone());
    let names: BTreeSet<String> = got.offered.keys().cloned().collect();
    let want: BTreeSet<String> = ids.iter().cloned().collect();
    c.ok(names == want, "offer-lists-other", || format!("{names:?} for offer of {want:?}"));
    for (id, cfg) in &got.offered {
        let meta = c.s.w.with(|i| i.issuers[&issuer]["credential_configurations_supported"][id].clone());
        let shown = val(cfg);
        for k in ["scope", "display", "format"] {
            c.ok(shown[k] == meta[k], "offer-shows-other", || format!("{id} {k}: {} is {}", shown[k], meta[k]));
        }
        let (a, b) = (&shown["credential_definition"]["type"], &meta["credential_definition"]["type"]);
        c.ok(a == b, "offer-shows-other", || format!("{id} type {a} is {b}"));
    }
    c.ok(val(&got.grants) == offer["grants"], "offer-grants", || format!("{:?}", got.grants));
    c.rep.count("offers");
    Some(f)
}

fn wallet_start(c: &mut Case, r: &mut Rng, mut f: Flow, hostile: bool) -> Option<Flow> {
    let allowed = c.s.allowed(&f.subject);
    let scopes: Vec<String> = c
        .s
        .cfgs
        .iter()
        .filter(|g| !g.mdl)
        .filter_map(|g| g.scope.clone())
        .filter(|sc| c.s.cfgs.iter().filter(|g| g.scope.as_ref() == Some(sc)).all(|g| allowed.contains_key(&g.id)))
        .collect();
    let mut req = json!({
        "initiator": {"Wallet": {"client_id": f.client, "issuer": c.s.issuer, "subject_id": f.subject}},
        "redirect_uri": f.redirect,
    });
    if hostile && r.chance(1, 4) {
        let mut q = req.clone();
        if r.chance(1, 2) {
            let (d, _) = details(c, r, &w3c(&c.s, &f.subject));
            q["authorization_details"] = d;
            q["initiator"]["Wallet"]["scope"] = json!("any");
        }
        let q: iss::AuthorizeRequest = de(q);
        let w = c.w.clone();
        c.refuse("authorize", iss::authorize(w, &q));
    }
    if !scopes.is_empty() && r.chance(1, 2) {
        let sc = r.pick(&scopes).clone();
        req["initiator"]["Wallet"]["scope"] = json!(sc);
        for g in c.s.cfgs.iter().filter(|g| g.scope.as_ref() == Some(&sc)) {
            f.granted.insert(g.id.clone(), allowed[&g.id].clone());
        }
        f.scope = Some(sc);
        c.rep.count("scope_flows");
    } else {
        let (d, means) = details(c, r, &w3c(&c.s, &f.subject));
        req["authorization_details"] = d;
        for id in means.keys() {
            f.granted.insert(id.clone(), allowed[id].clone());
        }
        f.accepted = Some(means);
        c.rep.count("details_flows");
    }
    c.log.push(format!("authorize wallet scope={} {:?}", f.scope.is_some(), f.accepted));
    let q: iss::AuthorizeRequest = de(req);
    c.w.take_calls();
    let got = match run(iss::authorize(c.w.clone(), &q)) {
        Ok(g) => g,
        Err(e) => {
            c.bad("authorize-refused", e);
            return None;
        }
    };
    f.id = got.issuance_id.clone();
    f.stage = Stage::Token;
    c.ok(c.w.state().contains_key(&f.id), "flow-not-kept", || f.id.clone());
    authorized(c, &f, &got);
    Some(f)
}

fn authorized(c: &mut Case, f: &Flow, got: &iss::AuthorizedCredentials) {
    c.rep.count("tokens");
    // asked in this holder's name, for this flow, of this issuer
    for (_, q, _) in c.w.take_calls().iter().filter(|x| x.0 == "authorization") {
        c.rep.count("authorizations_judged");
        for (k, want) in [
            ("client_id", json!(f.client)),
            ("redirect_uri", json!(f.redirect)),
            ("subject_id", json!(f.subject)),
            ("state", json!(got.issuance_id)),
            ("resource", json!(c.s.issuer)),
        ] {
            let is = q.get(k).cloned().unwrap_or_default();
            c.ok(is == want, &format!("authorization-{k}"), || format!("{is} wanted {want}"));
        }
    }
    c.ok(got.issuance_id == f.id || f.id.is_empty(), "other-flow", || got.issuance_id.clone());
    if f.scope.is_some() {
        return;
    }
    let got: BTreeMap<String, BTreeSet<String>> = got
        .authorized
        .iter()
        .flatten()
        .map(|(k, v)| (k.clone(), v.iter().cloned().collect()))
        .collect();
    let want: BTreeMap<String, BTreeSet<String>> =
        f.granted.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect();
    c.ok(got == want, "authorized-other", || format!("wallet reports {got:?}, granted {want:?}"));
}

/// Perform the next step of the flow as documented.
fn right_step(c: &mut Case, r: &mut Rng, f: &mut Flow, hostile: bool) {
    let fault = hostile && r.chance(1, 5);
    c.w.take_calls();
    c.w.take_saves();
    if f.stage == Stage::Broken || (r.chance(1, 25) && f.stage != Stage::Over) {
        let req: iss::CancelRequest = de(json!({"issuance_id": f.id}));
        c.log.push("cancel".into());
        let out = if fault {
            let w = c.w.clone();
            let Some(t) = c.faulty(r, "cancel", iss::cancel(w, &req)) else { return };
            Ok(t)
        } else {
            run(iss::cancel(c.w.clone(), &req))
        };
        c.ok(out.as_deref() == Ok(&f.id), "cancel-refused", || format!("{out:?}"));
        let left = c.w.state().contains_key(&f.id);
        c.ok(!left, "cancelled-flow-kept", || f.id.clone());
        let saves = c.w.take_saves();
        c.ok(saves.is_empty(), "cancel-stores", || format!("{saves:?}"));
        f.stage = Stage::Over;
        c.rep.count("flows_cancelled");
        return;
    }
    match f.stage {
        Stage::Ready => {
            let mut req = json!({"issuance_id": f.id});
            let mut means: BTreeMap<String, Option<BTreeSet<String>>> =
                f.offered.iter().map(|o| (o.clone(), None)).collect();
            let mut narrowed = false;
            if r.chance(1, 2) {
                let (specs, m) = choose(c, r, &f.offered);
                req["accept"] = specs;
                means = m;
                narrowed = true;
            }
            c.log.push(format!("accept {means:?}"));
            let q: iss::AcceptRequest = de(req);
            let out = if fault {
                let w = c.w.clone();
                let Some(t) = c.faulty(r, "accept", iss::accept(w, &q)) else { return };
                Ok(t)
            } else {
                run(iss::accept(c.w.clone(), &q))
            };
            c.ok(out.as_deref() == Ok(&f.id), "accept-refused", || format!("{out:?}"));
            if out.is_err() {
                f.stage = Stage::Broken;
                return;
            }
            let allowed = c.s.allowed(&f.subject);
            for id in means.keys() {
                f.granted.insert(id.clone(), allowed[id].clone());
            }
            if narrowed {
                f.accepted = Some(means);
            }
            f.stage = if f.pin.is_some() { Stage::PendingPin } else { Stage::Accepted };
        }
        Stage::PendingPin => {
            let right = !r.chance(1, 8);
            let pin = if right { f.pin.clone().unwrap() } else {
                let p = f.pin.clone().unwrap();
                match r.below(5) {
                    0 => format!("{p} "),
                    1 => format!(" {p}"),
                    2 => format!("0{p}"),
                    3 => p[..p.len() - 1].to_string(),
                    _ => format!("{p}0"),
                }
            };
            c.log.push(format!("pin {right}"));
            let q = iss::PinRequest { issuance_id: f.id.clone(), pin: pin.clone() };
            let out = if fault {
                let w = c.w.clone();
                let Some(t) = c.faulty(r, "pin", iss::pin(w, &q)) else { return };
                Ok(t)
            } else {
                run(iss::pin(c.w.clone(), &q))
            };
            c.ok(out.as_deref() == Ok(&f.id), "pin-refused", || format!("{out:?}"));
            f.pin_entered = Some(pin);
            f.stage = Stage::Accepted;
        }
        Stage::Accepted => {
            let use_pre = f.pre && (!f.code || r.chance(1, 2));
            if use_pre {
                let right = f.pin == f.pin_entered;
                c.log.push("token".into());
                f.via_pre = true;
                if fault && right {
                    let id = f.id.clone();
                    let w = c.w.clone();
                    match c.faulty(r, "token", iss::token(w, &id)) {
                        Some(got) => {
                            authorized(c, f, &got);
                            f.stage = Stage::Token;
                        }
                        // whether the code was spent is the issuer's affair
                        None => f.stage = Stage::Broken,
                    }
                    return;
                }
                let before = c.w.state();
                let out = run(iss::token(c.w.clone(), &f.id));
                match out {
                    Ok(got) => {
                        c.ok(right, "wrong-pin-accepted", || format!("{:?} for {:?}", f.pin_entered, f.pin));
                        authorized(c, f, &got);
                        f.stage = Stage::Token;
                    }
                    Err(e) => {
                        c.ok(!right, "token-refused", || e.clone());
                        c.ok(!e.starts_with("panic"), "panic-token", || e.clone());
                        let after = c.w.state();
                        c.ok(before == after, "failed-step-changes-state-token", || e.clone());
                        f.stage = Stage::Broken;
                    }
                }
            } else {
                let mut req = json!({"initiator": {"Issuer": {"issuance_id": f.id}}, "redirect_uri": f.redirect});
                if r.chance(1, 3) {
                    // narrowing what was accepted
                    let from: Vec<String> = f.granted.keys().cloned().collect();
                    let (d, means) = details(c, r, &from);
                    req["authorization_details"] = d;
                    f.granted.retain(|k, _| means.contains_key(k));
                    f.accepted = Some(means);
                }
                c.log.push(format!("authorize issuer details={}", req["authorization_details"].is_array()));
                let q: iss::AuthorizeRequest = de(req);
                let out = if fault {
                    let w = c.w.clone();
                    match c.faulty(r, "authorize", iss::authorize(w, &q)) {
                        Some(g) => Ok(g),
                        None => {
                            f.stage = Stage::Broken;
                            return;
                        }
                    }
                } else {
                    run(iss::authorize(c.w.clone(), &q))
                };
                match out {
                    Ok(got) => {
                        authorized(c, f, &got);
                        f.stage = Stage::Token;
                        c.rep.count("issuer_authorized_flows");
                    }
                    Err(e) => {
                        c.bad("authorize-refused", e);
                        f.stage = Stage::Broken;
                    }
                }
            }
        }
        Stage::Token => {
            if !f.asked || (f.buffer.len() + f.deferred.len() < 4 && r.chance(1, 5)) {
                ask(c, r, f, fault);
            } else if !f.deferred.is_empty() && r.chance(2, 3) {
                collect(c, r, f, fault);
            } else {
                store(c, r, f, fault);
            }
        }
        Stage::Over | Stage::Broken => {}
    }
}

/// Request credentials with the token.
fn ask(c: &mut Case, r: &mut Rng, f: &mut Flow, fault: bool) {
    let mut req = json!({"issuance_id": f.id});
    let all: Vec<(String, String)> =
        f.granted.iter().flat_map(|(k, v)| v.iter().map(move |i| (k.clone(), i.clone()))).collect();
    let mut want: Vec<(String, Option<String>)> = vec![];
    if f.scope.is_some() {
        let cands: Vec<String> = f.granted.keys().filter(|k| !c.s.cfg(k).mdl).cloned().collect();
        let id = r.pick(&cands).clone();
        let cfg = c.s.cfg(&id).clone();
        req["format"] = cfg.format(if r.chance(1, 2) { Some(&cfg.claims) } else { None });
        want.push((id, None));
    } else if r.chance(1, 2) {
        want.extend(all.iter().map(|(k, i)| (k.clone(), Some(i.clone()))));
    } else {
        let sub: Vec<(String, String)> = all.iter().filter(|_| r.chance(1, 2)).cloned().collect();
        let mut ids: Vec<String> = sub.iter().map(|x| x.1.clone()).collect();
        if r.chance(1, 6) {
            ids.push("nobody granted this".into());
        }
        if r.chance(1, 4) {
            // nor is part of an identifier one, nor another spelling of it
            let g = &r.pick(&all).1;
            let near = match r.below(4) {
                0 => g.chars().take(g.chars().count() - 1).collect(),
                1 => g.to_uppercase(),
                2 => String::new(),
                _ => format!("{g} "),
            };
            if all.iter().all(|x| x.1 != near) {
                ids.push(near);
            }
        }
        r.shuffle(&mut ids);
        req["credential_identifiers"] = json!(ids);
        want.extend(sub.into_iter().map(|(k, i)| (k, Some(i))));
    }
    // some of it is not ready yet
    for (_, i) in &all {
        if r.chance(1, 4) {
            c.s.w.with(|x| x.subjects.get_mut(&f.subject).unwrap().pending.insert(i.clone()));
        }
    }
    let mitm = (!fault && r.chance(1, 12)).then(|| *r.pick(&MITMS));
    f.faulted |= fault;
    *c.w.0.mitm.lock().unwrap() = mitm;
    let batch = r.chance(1, if mitm.is_none() { 6 } else { 3 }).then(|| (r.range(1, 3), c.s.key.clone()));
    c.log.push(format!("credentials {want:?} mitm={mitm:?} list={:?}", batch.as_ref().map(|b| b.0)));
    *c.w.0.batch.lock().unwrap() = batch;
    *c.w.0.bare.lock().unwrap() = r.chance(1, 5);
    let q: iss::CredentialsRequest = de(req);
    let before = c.w.state();
    let out = if fault {
        let w = c.w.clone();
        match c.faulty(r, "credentials", iss::credentials(w, &q)) {
            Some(g) => Ok(g),
            None => {
                *c.w.0.mitm.lock().unwrap() = None;
                *c.w.0.batch.lock().unwrap() = None;
                f.stage = Stage::Broken;
                return;
            }
        }
    } else {
        run(iss::credentials(c.w.clone(), &q))
    };
    let tampered = mitm.is_some() && c.w.0.mitm.lock().unwrap().is_none();
    *c.w.0.mitm.lock().unwrap() = None;
    *c.w.0.batch.lock().unwrap() = None;
    let calls = c.w.take_calls();
    let saves = c.w.take_saves();
    c.ok(saves.is_empty(), "stored-without-saving", || format!("{saves:?}"));
    if tampered {
        c.rep.count("tampered_credentials");
        c.ok(out.is_err(), "forged-credential-taken", || format!("{mitm:?}"));
        if let Err(e) = &out {
            c.ok(!e.starts_with("panic"), "panic-credentials", || e.clone());
        }
        let after = c.w.state();
        c.ok(before == after, "failed-step-changes-state-credentials", || format!("{mitm:?}"));
        f.stage = Stage::Broken;
        return;
    }
    // what was asked of the issuer
    let asked: Vec<&(&str, Value, Result<Value, String>)> = calls.iter().filter(|x| x.0 == "credential").collect();
    let key = c.w.0.key.clone();
    let issuer = c.s.issuer.clone();
    for (_, q, _) in &asked {
        let opened = q["proof"]["jwt"].as_str().and_then(|t| jws_open(t, &key));
        c.rep.count("proofs_judged");
        let Some((_, p)) = opened else {
            c.bad("proof-not-by-holder", format!("{q}"));
            continue;
        };
        c.ok(p["aud"] == json!(issuer), "proof-audience", || format!("{p} for {issuer}"));
        c.ok(p["iss"] == json!(f.client), "proof-client", || format!("{p} for {}", f.client));
        let now = clock::now();
        c.ok(p["iat"].as_i64().is_some_and(|t| (t - now).abs() <= 1), "proof-time", || format!("{p} at {now}"));
    }
    if f.scope.is_none() {
        let got: BTreeSet<String> =
            asked.iter().filter_map(|x| x.1["credential_identifier"].as_str().map(Into::into)).collect();
        let sel: BTreeSet<String> = want.iter().filter_map(|x| x.1.clone()).collect();
        c.ok(got.is_subset(&sel), "asked-for-unselected", || format!("{got:?} selected {sel:?}"));
        if out.is_ok() {
            c.ok(got == sel && asked.len() == sel.len(), "asked-other", || {
                format!("{got:?} ({} requests) selected {sel:?}", asked.len())
            });
        }
    }
    let got = match out {
        Ok(g) => g,
        Err(e) => {
            c.bad("credentials-refused", e);
            f.stage = Stage::Broken;
            return;
        }
    };
    f.asked = true;
    for (_, q, a) in asked {
        let Ok(a) = a else { continue };
        let ident = q["credential_identifier"].as_str().map(ToString::to_string);
        let cfg = match &ident {
            Some(i) => all.iter().find(|x| &x.1 == i).map(|x| x.0.clone()),
            None => Some(want[0].0.clone()),
        };
        let Some(cfg) = cfg else { continue };
        if let Some(t) = a["transaction_id"].as_str() {
            f.deferred.insert(t.into(), (cfg, ident.unwrap_or_default()));
        } else if let Some(t) = a["credential"].as_str() {
            f.buffer.push(Expect { token: t.into(), cfg, ident });
        } else if let Some(l) = a["credentials"].as_array() {
            c.rep.count("lists_of_credentials");
            for t in l.iter().filter_map(Value::as_str) {
                f.buffer.push(Expect { token: t.into(), cfg: cfg.clone(), ident: ident.clone() });
            }
        }
    }
    same_deferred(c, f, &got);
    buffered(c, f);
}

fn same_deferred(c: &mut Case, f: &Flow, got: &iss::CredentialsResponse) {
    c.ok(got.issuance_id == f.id, "other-flow", || format!("{} for {}", got.issuance_id, f.id));
    let m: BTreeMap<String, String> = got.deferred.clone().unwrap_or_default().into_iter().collect();
    let want: BTreeMap<String, String> = f.deferred.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    c.ok(m == want, "deferred-other", || format!("wallet reports {m:?}, issuer deferred {want:?}"));
}

/// The flow holds what the issuer returned, waiting to be saved.
fn buffered(c: &mut Case, f: &Flow) {
    let st = c.w.state();
    let Some((v, _)) = st.get(&f.id) else {
        let gone = f.buffer.is_empty() && f.deferred.is_empty();
        c.ok(gone, "flow-lost", || f.id.clone());
        return;
    };
    let got: BTreeSet<String> = v["credentials"]
        .as_array()
        .map(|a| a.iter().filter_map(|x| x["issued"].as_str().map(Into::into)).collect())
        .unwrap_or_default();
    let want: BTreeSet<String> = f.buffer.iter().map(|e| e.token.clone()).collect();
    c.ok(got == want, "buffer-other", || format!("{got:?} wanted {want:?}"));
}

/// Fetch a deferred credential.
fn collect(c: &mut Case, r: &mut Rng, f: &mut Flow, fault: bool) {
    let keys: Vec<String> = f.deferred.keys().cloned().collect();
    let tx = r.pick(&keys).clone();
    let (cfg, ident) = f.deferred[&tx].clone();
    let ready = r.chance(2, 3);
    let idents = if ident.is_empty() { f.granted[&cfg].clone() } else { vec![ident.clone()] };
    c.s.w.with(|x| {
        let p = &mut x.subjects.get_mut(&f.subject).unwrap().pending;
        for i in idents {
            if ready {
                p.remove(&i);
            } else {
                p.insert(i);
            }
        }
    });
    // an issuer that is not ready may say so with a transaction, old or new
    let again = (!fault && r.chance(1, 5)).then(|| if r.chance(1, 2) { tx.clone() } else { format!("{tx}-{}", r.ident()) });
    *c.w.0.wait.lock().unwrap() = again.clone();
    c.log.push(format!("deferred {cfg} ready={ready} again={again:?}"));
    let q: iss::DeferredRequest =
        de(json!({"issuance_id": f.id, "transaction_id": tx, "credential_configuration_id": cfg}));
    let before = c.w.state();
    let fault = fault && ready;
    f.faulted |= fault;
    let out = if fault {
        let w = c.w.clone();
        match c.faulty(r, "deferred", iss::deferred(w, &q)) {
            Some(g) => Ok(g),
            None => {
                f.stage = Stage::Broken;
                return;
            }
        }
    } else {
        run(iss::deferred(c.w.clone(), &q))
    };
    let calls = c.w.take_calls();
    *c.w.0.wait.lock().unwrap() = None;
    for (_, q, _) in calls.iter().filter(|x| x.0 == "deferred") {
        c.ok(q["transaction_id"] == json!(tx), "deferred-asks-other", || format!("{q} for {tx}"));
    }
    if let Some(next) = again {
        match out {
            Ok(got) => {
                f.deferred.remove(&tx);
                f.deferred.insert(next, (cfg, ident));
                same_deferred(c, f, &got);
                buffered(c, f);
                c.rep.count("deferred_again");
            }
            Err(e) => {
                c.bad("deferred-again-refused", e);
                f.stage = Stage::Broken;
            }
        }
        return;
    }
    match out {
        Ok(got) => {
            c.ok(ready, "deferred-too-early", || format!("{got:?}"));
            let tok = calls
                .iter()
                .filter(|x| x.0 == "deferred")
                .find_map(|x| x.2.as_ref().ok().and_then(|a| a["credential"].as_str().map(ToString::to_string)));
            f.deferred.remove(&tx);
            if let Some(token) = tok {
                f.buffer.push(Expect { token, cfg, ident: (!ident.is_empty()).then_some(ident) });
                c.rep.count("deferred_obtained");
            } else {
                c.bad("deferred-nothing", format!("{calls:?}"));
            }
            same_deferred(c, f, &got);
            buffered(c, f);
        }
        Err(e) => {
            c.ok(!ready, "deferred-refused", || e.clone());
            c.ok(!e.starts_with("panic"), "panic-deferred", || e.clone());
            let after = c.w.state();
            c.ok(before == after, "failed-step-changes-state-deferred", || e.clone());
            if ready {
                f.stage = Stage::Broken;
            }
        }
    }
}

/// Save what the flow holds.
fn store(c: &mut Case, r: &mut Rng, f: &mut Flow, fault: bool) {
    c.log.push(format!("save {} ({} deferred)", f.buffer.len(), f.deferred.len()));
    let q: iss::SaveRequest = de(json!({"issuance_id": f.id}));
    let mut early = vec![];
    let out = if fault {
        let w = c.w.clone();
        let got = c.faulty(r, "save", iss::save(w, &q));
        match got {
            Some(g) => Ok(g),
            None => {
                // try again: nothing may be lost
                early = c.w.take_saves();
                run(iss::save(c.w.clone(), &q))
            }
        }
    } else {
        run(iss::save(c.w.clone(), &q))
    };
    c.ok(out.as_deref() == Ok(&f.id), "save-refused", || format!("{out:?}"));
    let saves = c.w.take_saves();
    let want: Vec<String> = f.buffer.iter().map(|e| e.token.clone()).collect();
    let mut got: Vec<String> = saves.iter().map(|s| s.issued.clone()).collect();
    // what a failed attempt already stored may be stored again, or not
    for e in &early {
        c.ok(want.contains(&e.issued), "saved-other", || e.issued.clone());
        if !got.contains(&e.issued) {
            got.push(e.issued.clone());
        }
    }
    let (mut a, mut b) = (want.clone(), got.clone());
    a.sort();
    b.sort();
    c.ok(a == b, "saved-other", || format!("saved {got:?}\n received {want:?}"));
    for s in early.iter().chain(&saves) {
        if let Some(e) = f.buffer.iter().find(|e| e.token == s.issued).cloned() {
            c.judge_credential(f, s, &e);
        }
    }
    f.buffer.clear();
    let kept = c.w.state().contains_key(&f.id);
    if f.deferred.is_empty() {
        c.ok(!kept, "finished-flow-kept", || f.id.clone());
        f.stage = Stage::Over;
        c.rep.count("flows_saved");
    } else {
        c.ok(kept, "flow-lost", || f.id.clone());
        buffered(c, f);
        c.rep.count("partial_saves");
    }
}

/// A step the flow is not ready for, or that asks for what it must not get.
fn wrong_step(c: &mut Case, r: &mut Rng, f: &mut Flow) {
    let w = c.w.clone();
    let id = if r.chance(1, 8) { "no such flow".to_string() } else { f.id.clone() };
    let real = id == f.id;
    let stage = if real { f.stage } else { Stage::Over };
    if f.stage == Stage::Broken {
        return;
    }
    match r.below(9) {
        0 => {
            let mut req = json!({"issuance_id": id});
            if stage == Stage::Ready {
                // not on offer
                let other: Vec<String> =
                    c.s.cfgs.iter().map(|g| g.id.clone()).filter(|g| !f.offered.contains(g)).collect();
                let mut bad = json!({"credential_configuration_id": "nobody issues this"});
                let o = r.pick(&f.offered).clone();
                let near = match r.below(5) {
                    0 => o.to_uppercase(),
                    1 => o.to_lowercase(),
                    2 => o.chars().skip(1).collect(),
                    3 => format!("{o} "),
                    _ => String::new(),
                };
                if !f.offered.contains(&near) && r.chance(1, 2) {
                    bad = json!({"credential_configuration_id": near});
                }
                if !other.is_empty() && r.chance(2, 3) {
                    let o = r.pick(&other).clone();
                    bad = json!({"credential_configuration_id": o});
                    if r.chance(1, 2) {
                        bad["claims"] = c.s.cfg(&o).claims.clone();
                    }
                }
                let (mut list, _) = choose(c, r, &f.offered);
                if r.chance(1, 3) {
                    list = json!([]);
                } else if r.chance(1, 2) {
                    list = json!([bad]);
                } else {
                    list.as_array_mut().unwrap().push(bad);
                }
                req["accept"] = list;
            }
            let q: iss::AcceptRequest = de(req);
            c.refuse("accept", iss::accept(w, &q));
        }
        1 if stage != Stage::PendingPin => {
            let q = iss::PinRequest { issuance_id: id.clone(), pin: "1234".into() };
            c.refuse("pin", iss::pin(w, &q));
        }
        2 if stage != Stage::Accepted || !f.pre => c.refuse("token", iss::token(w, &id)),
        3 if stage != Stage::Accepted || !f.code => {
            let q: iss::AuthorizeRequest =
                de(json!({"initiator": {"Issuer": {"issuance_id": id}}, "redirect_uri": f.redirect}));
            c.refuse("authorize", iss::authorize(w, &q));
        }
        4 if stage != Stage::Token => {
            let q: iss::CredentialsRequest = de(json!({"issuance_id": id}));
            c.refuse("credentials", iss::credentials(w, &q));
        }
        4 if f.scope.is_some() => {
            let mut req = json!({"issuance_id": id});
            let cands: Vec<String> = f.granted.keys().filter(|k| !c.s.cfg(k).mdl).cloned().collect();
            let others: Vec<String> = c.s.cfgs.iter().filter(|g| g.scope != f.scope).map(|g| g.id.clone()).collect();
            match r.below(3) {
                0 => {}
                1 => {
                    req["format"] = c.s.cfg(r.pick::<String>(&cands)).format(None);
                    req["credential_identifiers"] = json!(f.granted[&cands[0]]);
                }
                _ if !others.is_empty() => req["format"] = c.s.cfg(r.pick::<String>(&others)).format(None),
                _ => {}
            }
            let q: iss::CredentialsRequest = de(req);
            c.refuse("credentials", iss::credentials(w, &q));
        }
        5 if stage != Stage::Token => {
            let q: iss::DeferredRequest =
                de(json!({"issuance_id": id, "transaction_id": "t", "credential_configuration_id": c.s.cfgs[0].id}));
            c.refuse("deferred", iss::deferred(w, &q));
        }
        6 if stage == Stage::Over => {
            let q: iss::SaveRequest = de(json!({"issuance_id": id}));
            c.refuse("save", iss::save(w, &q));
        }
        7 if stage == Stage::Over => {
            let q: iss::CancelRequest = de(json!({"issuance_id": id}));
            c.refuse("cancel", iss::cancel(w, &q));
        }
        _ => {}
    }
}

/// Whether a credential meets the constraints (the harness's own reading).
fn satisfies(f: &Value, vc: &Value) -> bool {
    let Some(fields) = f["fields"].as_array() else { return true };
    fields.iter().all(|fl| {
        let found = fl["path"].as_array().into_iter().flatten().find_map(|p| {
            let mut at = vc;
            for seg in p.as_str().unwrap_or_default().trim_start_matches("$.").split('.') {
                at = &at[seg];
            }
            (!at.is_null()).then_some(at)
        });
        let Some(at) = found else { return fl["optional"] == json!(true) };
        // the only patterns used here spell out one whole word
        let word = fl["filter"]["pattern"].as_str().map(|p| json!(p.trim_start_matches('^').trim_end_matches('$')));
        match fl["filter"].get("const").or(word.as_ref()) {
            None => true,
            Some(k) => at == k || at.as_array().is_some_and(|a| a.contains(k)),
        }
    })
}

// ---------------------------------------------------------- presentation

const LEVELS: [&str; 3] = ["low", "mid", "high"];
const EXTRAS: [&str; 3] = ["extra", "badge", "zone"];

/// One input descriptor: which credentials the verifier wants.
#[derive(Clone, Debug)]
struct Want {
    id: String,
    kind: Option<String>,
    level: Option<String>,
    present: Option<String>,
    optional: Option<(String, String)>,
    format: Option<Vec<String>>,
    detour: bool,
    /// the type is asked for by a pattern
    pattern: bool,
}

impl Want {
    fn new(r: &mut Rng, i: usize) -> Self {
        let mut w = Self {
            id: format!("{i}{}", any_text(r)),
            kind: r.chance(4, 5).then(|| format!("Kind{}", r.below(3))),
            level: r.chance(1, 3).then(|| (*r.pick(&LEVELS)).to_string()),
            present: r.chance(1, 4).then(|| (*r.pick(&EXTRAS)).to_string()),
            optional: r.chance(1, 6).then(|| ((*r.pick(&EXTRAS)).to_string(), "maybe".to_string())),
            format: match r.below(3) {
                0 => Some(vec!["jwt_vc_json".into()]),
                1 => Some(vec!["ldp_vc".into(), "jwt_vc_json".into()]),
                _ => None,
            },
            detour: r.chance(1, 4),
            pattern: r.chance(1, 5),
        };
        if w.kind.is_none() && w.level.is_none() && w.present.is_none() {
            w.present = Some("extra".into());
        }
        w
    }

    /// Ask for something this credential has.
    fn suit(&mut self, vc: &Value) {
        let s = &vc["credentialSubject"];
        if self.kind.is_some() {
            self.kind = vc["type"][1].as_str().map(Into::into);
        }
        if self.level.is_some() {
            self.level = s["level"].as_str().map(Into::into);
        }
        if self.present.is_some() {
            self.present = EXTRAS.iter().find(|e| !s[**e].is_null()).map(ToString::to_string);
        }
        if let Some((p, v)) = &mut self.optional {
            if let Some(t) = s[p.as_str()].as_str() {
                *v = t.into();
            }
        }
        if self.kind.is_none() && self.level.is_none() && self.present.is_none() {
            self.level = s["level"].as_str().map(Into::into);
        }
    }

    fn json(&self) -> Value {
        let path = |p: &str| if self.detour { json!(["$.nowhere.at.all", p]) } else { json!([p]) };
        let mut fields = vec![];
        if let Some(k) = &self.kind {
            let how = if self.pattern { json!({"type": "string", "pattern": format!("^{k}$")}) } else { json!({"type": "string", "const": k}) };
            fields.push(json!({"path": path("$.type"), "filter": how}));
        }
        if let Some(l) = &self.level {
            fields.push(json!({"path": path("$.credentialSubject.level"), "filter": {"type": "string", "const": l}}));
        }
        if let Some(p) = &self.present {
            fields.push(json!({"path": path(&format!("$.credentialSubject.{p}"))}));
        }
        if let Some((p, v)) = &self.optional {
            fields.push(json!({
                "path": path(&format!("$.credentialSubject.{p}")), "optional": true,
                "filter": {"type": "string", "const": v},
            }));
        }
        let mut d = json!({"id": self.id, "constraints": {"fields": fields}});
        if let Some(f) = &self.format {
            let m: Map<String, Value> = f.iter().map(|f| (f.clone(), json!({"alg": ["EdDSA"]}))).collect();
            d["format"] = Value::Object(m);
        }
        d
    }
}

struct Stage2 {
    w: Wallet,
    issuers: Vec<Key>,
    /// (client identifier, key)
    verifiers: Vec<(String, Key)>,
}

fn stage(r: &mut Rng) -> Stage2 {
    let vw = World::new();
    let mk = |who: &str, i: usize| Key::new(&format!("did:web:{who}{i}.example"), "key-0", &format!("{who} secret {i}"));
    let mut verifiers = vec![];
    for i in 0..2 {
        let id = if r.chance(1, 2) { format!("https://v{i}.example") } else { format!("http://v{i}.example:8{i}/a/{}", r.ident()) };
        let key = mk("verifier", i);
        let mut meta = json!({"client_id": id});
        if r.chance(1, 2) {
            meta["client_name"] = json!(any_text(r));
        }
        vw.add_key(&key);
        vw.with(|x| {
            x.verifiers.insert(id.clone(), meta);
            x.signers.insert(id.clone(), key.clone());
        });
        verifiers.push((id, key));
    }
    let issuers: Vec<Key> = (0..2).map(|i| mk("issuer", i)).collect();
    let me = mk("holder", 0);
    for k in issuers.iter().chain([&me]) {
        vw.add_key(k);
    }
    let w = Wallet::new(World::new(), vw, me);
    let most = if r.chance(1, 6) { 20 } else { 8 };
    for i in 0..r.below(most) {
        let c = held(r, &w, &issuers, i);
        w.0.creds.lock().unwrap().insert(c.id.clone(), c);
    }
    Stage2 { w, issuers, verifiers }
}

/// A credential in the wallet.
fn held(r: &mut Rng, w: &Wallet, issuers: &[Key], i: usize) -> Credential {
    let issuer = r.pick(issuers);
    let mut subj = json!({"id": w.0.key.did, "level": r.pick(&LEVELS), "name": any_text(r)});
    for e in EXTRAS {
        if r.chance(1, 3) {
            subj[e] = if r.chance(1, 2) { json!("maybe") } else { json!({"n": i}) };
        }
    }
    let now = clock::now();
    let at = |t: i64| json!(DateTime::from_timestamp(t, 0).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Secs, true));
    let mut types = vec!["VerifiableCredential".to_string()];
    for k in 0..3 {
        if r.chance(2, 5) {
            types.push(format!("Kind{k}"));
        }
    }
    if types.len() == 1 {
        types.push("Other".into());
    }
    let mut d = json!({
        "@context": ["https://www.w3.org/2018/credentials/v1"],
        "id": format!("https://issuer.example/{}/{i}", r.ident()),
        "type": types, "issuer": issuer.did, "credentialSubject": subj,
    });
    if r.chance(1, 2) {
        d["validFrom"] = at(now - 10);
    }
    if r.chance(1, 2) {
        d["validUntil"] = at(now + 100_000);
    }
    let claims = json!({
        "sub": w.0.key.did, "nbf": null, "iss": issuer.did, "iat": now - 5, "jti": d["id"], "vc": d,
    });
    let token = jws(&json!({"alg": "EdDSA", "typ": "jwt", "kid": issuer.kid()}), &claims, issuer);
    de(json!({
        "id": d["id"], "issuer": issuer.did, "vc": d, "issued": token, "issuance_date": at(now - 5),
    }))
}

/// One presentation flow of the wallet, and what the model knows of it.
struct Show {
    id: String,
    wants: Vec<Want>,
    obj: Value,
    listed: Vec<Credential>,
    authorized: bool,
    answered: bool,
}

struct Run<'a> {
    rep: &'a mut Report,
    s: Stage2,
    log: Vec<String>,
    submissions: BTreeSet<String>,
}

impl Run<'_> {
    fn bad(&mut self, sig: &str, detail: String) {
        let hist = self.log.join(" | ");
        self.rep.violation(sig, format!("{detail}\n history: {hist}"));
    }

    fn ok(&mut self, cond: bool, sig: &str, detail: impl FnOnce() -> String) {
        self.rep.count("oracle_comparisons");
        if !cond {
            let d = detail();
            self.bad(sig, d);
        }
    }

    /// A step that must be refused: nothing leaves the wallet, nothing changes.
    fn refuse<T: std::fmt::Debug>(&mut self, what: &str, f: impl std::future::Future<Output = anyhow::Result<T>>) {
        let before = self.s.w.state();
        let theirs = self.s.w.0.verifier.snapshot();
        self.s.w.take_calls();
        self.log.push(format!("refuse {what}"));
        let out = run(f);
        let sent: Vec<&str> = self.s.w.take_calls().iter().map(|c| c.0).filter(|c| *c == "present").collect();
        self.rep.count("steps_refused_expected");
        let txt = match &out {
            Ok(t) => format!("accepted: {t:?}"),
            Err(e) => e.clone(),
        };
        self.ok(out.is_err(), &format!("step-accepted-{what}"), || txt.clone());
        self.ok(!txt.starts_with("panic"), &format!("panic-{what}"), || txt.clone());
        self.ok(sent.is_empty(), &format!("refused-step-sends-{what}"), || txt.clone());
        let after = self.s.w.state();
        self.ok(before == after, &format!("refused-step-changes-state-{what}"), || {
            format!("{txt}\n before {before:?}\n after {after:?}")
        });
        let now = self.s.w.0.verifier.snapshot();
        self.ok(theirs == now, &format!("refused-step-reaches-verifier-{what}"), || txt.clone());
    }

    /// Run a step, sometimes with a failing provider operation first.
    fn step<T: std::fmt::Debug, F: std::future::Future<Output = anyhow::Result<T>>>(
        &mut self, r: &mut Rng, what: &str, f: impl Fn(Wallet) -> F,
    ) -> Result<T, String> {
        if r.chance(1, 4) {
            let before = self.s.w.state();
            self.s.w.take_calls();
            let at = r.below(5);
            self.s.w.fault(Some(at));
            self.s.w.0.me.take_ops();
            let out = run(f(self.s.w.clone()));
            let unused = self.s.w.0.me.with(|i| i.fail_at.is_some());
            let hit = faults(&self.s.w);
            self.s.w.fault(None);
            self.log.push(format!("fault {what}@{at}"));
            self.rep.count(if unused { "faults_not_reached" } else { "faults_injected" });
            match out {
                Ok(t) => {
                    self.ok(hit.is_empty(), &format!("failure-ignored-{what}"), || format!("{hit:?}"));
                    return Ok(t);
                }
                Err(e) if unused => return Err(e),
                Err(e) => {
                    self.ok(!e.starts_with("panic"), &format!("panic-{what}"), || e.clone());
                    let after = self.s.w.state();
                    self.ok(before == after, &format!("failed-step-changes-state-{what}"), || e.clone());
                    let sent = self.s.w.take_calls().iter().any(|c| c.0 == "present");
                    self.ok(!sent, &format!("failed-step-sends-{what}"), || e.clone());
                }
            }
        }
        run(f(self.s.w.clone()))
    }
}

/// Ask the verifier for a request; what it hands the wallet, and the object.
fn make_request(c: &mut Run, r: &mut Rng, wants: &[Want]) -> Option<(String, Value, bool)> {
    let (client, key) = c.s.verifiers[r.below(2)].clone();
    let same = r.chance(1, 2);
    let body = json!({
        "client_id": client, "purpose": any_text(r),
        "input_descriptors": wants.iter().map(Want::json).collect::<Vec<_>>(),
        "device_flow": if same { "SameDevice" } else { "CrossDevice" },
    });
    let q: vercre_openid::verifier::CreateRequestRequest = de(body);
    let vw = c.s.w.0.verifier.clone();
    let made = guarded(|| block_on(vercre_verifier::create_request(vw.clone(), &q)));
    reset();
    let resp = match made {
        Ok(Ok(x)) => x,
        other => {
            c.bad("request-not-made", format!("{other:?}"));
            return None;
        }
    };
    if same {
        let mut obj = resp.request_object?;
        if r.chance(1, 4) {
            // a verifier with a mind of its own about names and numbers used once
            let odd = ["", " padded ", "a b", "a=b&c;d", "ünïcode", "UPPER lower", "+plus+", "%41", "\"quoted\"", "-", "a/b?c#d"];
            let state = if r.chance(1, 6) { String::new() } else { format!("{}{}", r.pick(&odd), obj.state.unwrap_or_default()) };
            c.s.w.0.foreign.lock().unwrap().insert(state.clone());
            obj.state = Some(state);
            obj.nonce = format!("{}{}{}", r.pick(&odd), r.ident(), r.pick(&odd));
            obj.client_id = format!("https://{}.example{}", r.ident(), r.pick(&odd));
            c.rep.count("foreign_requests");
        }
        let text = match obj.to_querystring() {
            Ok(t) => t,
            Err(e) => {
                c.bad("request-not-encodable", e.to_string());
                return None;
            }
        };
        return Some((text, val(&obj), true));
    }
    let uri = resp.request_uri?;
    let q = RequestObjectRequest { client_id: client, id: uri.rsplit('/').next()?.into() };
    let got = guarded(|| block_on(vercre_verifier::request_object(vw.clone(), &q)));
    reset();
    let Ok(Ok(got)) = got else {
        c.bad("request-object-not-served", format!("{got:?}"));
        return None;
    };
    let vercre_openid::verifier::RequestObjectType::Jwt(t) = got.request_object else { return None };
    let (_, obj) = jws_open(&t, &key)?;
    let uri = if r.chance(1, 3) { uri.replace(':', "%3A").replace('/', "%2F") } else { uri };
    Some((uri, obj, false))
}

fn open(c: &mut Run, r: &mut Rng) -> Option<Show> {
    let mut wants: Vec<Want> = (0..if r.chance(1, 5) { r.range(4, 7) } else { r.range(1, 3) }).map(|i| Want::new(r, i)).collect();
    let have: Vec<Value> = c.s.w.0.creds.lock().unwrap().values().map(|x| val(&x.vc)).collect();
    for w in &mut wants {
        if !have.is_empty() && r.chance(4, 5) {
            w.suit(r.pick(&have));
        }
    }
    let (text, obj, by_value) = make_request(c, r, &wants)?;
    c.rep.count(if by_value { "requests_by_value" } else { "requests_by_reference" });
    if !by_value && r.chance(1, 4) {
        // somebody meddles with the request on its way
        let how = *r.pick(&MITMS);
        *c.s.w.0.mitm.lock().unwrap() = Some(how);
        let w = c.s.w.clone();
        c.refuse("tampered-request", pres::request(w, &text));
        *c.s.w.0.mitm.lock().unwrap() = None;
        c.rep.count("tampered_requests");
    }
    if r.chance(1, 8) {
        let w = c.s.w.clone();
        let junk = match r.below(4) {
            0 => String::new(),
            1 => any_text(r),
            2 => format!("{text}x"),
            _ => "response_type=vp_token&presentation_definition=%7B%7D".into(),
        };
        if by_value || junk != format!("{text}x") {
            // unreadable, or for a reference the verifier does not know
            if !(by_value && junk.starts_with(&text)) {
                c.refuse("unreadable-request", pres::request(w, &junk));
            }
        } else {
            c.refuse("unknown-reference", pres::request(w, &junk));
        }
    }
    c.log.push(format!("request {:?} by_value={by_value}", wants));
    let before = c.s.w.state();
    let mine: Vec<Credential> = c.s.w.0.creds.lock().unwrap().values().cloned().collect();
    let got = match c.step(r, "request", |w| {
        let text = text.clone();
        async move { pres::request(w, &text).await }
    }) {
        Ok(g) => g,
        Err(e) => {
            c.bad("request-refused", format!("{e}\n request {obj}"));
            return None;
        }
    };
    let id = got.presentation_id.clone();
    c.ok(!id.is_empty() && !before.contains_key(&id), "flow-id-not-fresh", || id.clone());
    c.ok(c.s.w.state().contains_key(&id), "flow-not-kept", || id.clone());
    c.ok(got.status == pres::Status::Requested, "status-after-request", || format!("{:?}", got.status));
    // exactly the credentials that meet a descriptor are put to the holder
    let ids: BTreeSet<String> = got.credentials.iter().map(|x| x.id.clone()).collect();
    let want: BTreeSet<String> = mine
        .iter()
        .filter(|m| wants.iter().any(|w| satisfies(&w.json()["constraints"], &val(&m.vc))))
        .map(|m| m.id.clone())
        .collect();
    c.ok(ids == want, "lists-other-credentials", || format!("listed {ids:?}\n match {want:?}"));
    c.ok(ids.len() == got.credentials.len(), "lists-twice", || format!("{ids:?}"));
    for g in &got.credentials {
        c.ok(mine.contains(g), "listed-not-as-stored", || format!("{g:?}"));
    }
    c.rep.count("flows");
    Some(Show { id, wants, obj, listed: got.credentials, authorized: false, answered: false })
}

fn answer(c: &mut Run, r: &mut Rng, f: &mut Show) {
    let able = f.wants.iter().all(|w| f.listed.iter().any(|m| satisfies(&w.json()["constraints"], &val(&m.vc))));
    let id = f.id.clone();
    if !able {
        let w = c.s.w.clone();
        c.refuse("present-unable", pres::present(w, id));
        c.rep.count("unable");
        return;
    }
    c.log.push("present".into());
    c.s.w.take_calls();
    let out = c.step(r, "present", |w| {
        let id = id.clone();
        async move { pres::present(w, id).await }
    });
    let calls = c.s.w.take_calls();
    if f.answered {
        // the verifier has had its answer: whatever it says, no panic
        if let Err(e) = &out {
            c.ok(!e.starts_with("panic"), "panic-present", || e.clone());
        }
    } else {
        let obj = f.obj.clone();
        c.ok(out.is_ok(), "present-refused", || format!("{out:?}\n request {obj}"));
        f.answered = true;
        c.rep.count("presented");
    }
    let sent: Vec<Value> = calls.into_iter().filter(|x| x.0 == "present").map(|x| x.1).collect();
    c.ok(sent.len() == 1, "responses-sent", || format!("{}", sent.len()));
    for s in sent {
        judge_response(c, f, &s);
    }
}

fn judge_response(c: &mut Run, f: &Show, s: &Value) {
    let q = &s["request"];
    let uri = f.obj["response_uri"].as_str().map(|u| u.trim_end_matches('/'));
    c.ok(s["uri"].as_str() == uri, "sent-elsewhere", || format!("{} for {uri:?}", s["uri"]));
    c.ok(q["state"] == f.obj["state"], "response-state", || format!("{} for {}", q["state"], f.obj["state"]));
    let sub = &q["presentation_submission"];
    let def = &f.obj["presentation_definition"]["id"];
    c.ok(sub["definition_id"] == *def, "response-definition", || format!("{sub}"));
    let sid = sub["id"].as_str().unwrap_or_default().to_string();
    let fresh = !sid.is_empty() && c.submissions.insert(sid);
    c.ok(fresh, "submission-id", || format!("{sub}"));
    let n = sub["descriptor_map"].as_array().map_or(0, Vec::len);
    c.ok(n == f.wants.len(), "descriptors-mapped", || format!("{sub}"));
    let toks = match &q["vp_token"] {
        Value::Array(a) => a.clone(),
        v => vec![v.clone()],
    };
    c.ok(toks.len() == 1, "presentations-sent", || format!("{}", toks.len()));
    let key = c.s.w.0.key.clone();
    let Some((h, claims)) = toks.first().and_then(Value::as_str).and_then(|t| jws_open(t, &key)) else {
        c.bad("presentation-not-signed-by-holder", format!("{q}"));
        return;
    };
    c.ok(h["kid"] == json!(key.kid()), "presentation-kid", || format!("{h}"));
    let (a, b) = (&claims["aud"], &f.obj["client_id"]);
    c.ok(a == b, "presentation-audience", || format!("{a} for {b}"));
    let (a, b) = (&claims["nonce"], &f.obj["nonce"]);
    c.ok(a == b, "presentation-nonce", || format!("{a} for {b}"));
    let vp = &claims["vp"];
    c.ok(vp["holder"] == json!(key.did), "presentation-holder", || format!("{}", vp["holder"]));
    let held: Vec<Value> = vp["verifiableCredential"].as_array().cloned().unwrap_or_default();
    // nothing but what was put to the holder, each as issued
    let got: BTreeSet<String> = held.iter().map(|v| v.as_str().unwrap_or_default().to_string()).collect();
    let listed: BTreeSet<String> = f.listed.iter().map(|m| m.issued.clone()).collect();
    c.ok(got.is_subset(&listed), "discloses-unlisted", || format!("{got:?}\n listed {listed:?}"));
    // every descriptor answered with a credential that meets it
    for w in &f.wants {
        let maps: Vec<&Value> =
            sub["descriptor_map"].as_array().into_iter().flatten().filter(|m| m["id"] == json!(w.id)).collect();
        c.ok(maps.len() == 1, "descriptor-unmapped", || format!("{} in {sub}", w.id));
        let Some(m) = maps.first() else { continue };
        // where the verifier is to look, and as what
        c.ok(m["path"] == json!("$"), "descriptor-path", || format!("{m}"));
        for k in [&m["format"], &m["path_nested"]["format"]] {
            c.ok(k.as_str().is_some_and(|k| k.starts_with("jwt_v")), "descriptor-format", || format!("{m}"));
        }
        let idx = m["path_nested"]["path"]
            .as_str()
            .and_then(|p| p.strip_prefix("$.verifiableCredential["))
            .and_then(|p| p.strip_suffix(']'))
            .and_then(|p| p.parse::<usize>().ok());
        let vc = idx
            .and_then(|i| held.get(i))
            .and_then(Value::as_str)
            .and_then(peek)
            .map(|(_, cl)| cl["vc"].clone());
        let fits = vc.as_ref().is_some_and(|v| satisfies(&w.json()["constraints"], v));
        c.ok(fits, "descriptor-answered-with-other", || format!("{:?} mapped to {m}: {vc:?}", w));
        c.rep.count("descriptors_judged");
    }
}

fn presentation(mut rep: Report) {
    let n = rep.n(700, 12_000);
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        let mut r = Rng::case(rep.seed ^ 0x2929, i);
        let s = stage(&mut r);
        let mut c = Run { rep: &mut rep, s, log: vec![], submissions: BTreeSet::new() };
        presenting(&mut c, &mut r);
        let h = c.log.join(";");
        rep.saw("histories", &h);
        rep.eval(&h, true);
        statuses(&mut rep, &mut r);
    }
    for (what, n) in [
        ("presented", 300),
        ("unable", 50),
        ("descriptors_judged", 500),
        ("tampered_requests", 40),
        ("requests_by_value", 100),
        ("requests_by_reference", 100),
        ("foreign_requests", 30),
        ("steps_refused_expected", 300),
        ("faults_injected", 100),
    ] {
        rep.require(what, n);
    }
    rep.finish(
        "one evaluation is one history of a wallet's presentation flows (requests by value and by reference, tampered requests, authorizations, presentations, steps out of order, faults) against the real verifier",
        ASSUME,
    );
}

fn presenting(c: &mut Run, r: &mut Rng) {
    let mut flows: Vec<Show> = vec![];
    for _ in 0..r.range(3, 12) {
        if flows.is_empty() || (flows.len() < 3 && r.chance(1, 3)) {
            if let Some(f) = open(c, r) {
                flows.push(f);
            }
            continue;
        }
        if r.chance(1, 10) {
            // the wallet gains or loses a credential meanwhile: flows keep
            // what was put to the holder
            let n = 10 + r.below(90);
            let x = held(r, &c.s.w, &c.s.issuers, n);
            c.s.w.0.creds.lock().unwrap().insert(x.id.clone(), x);
        }
        let k = r.below(flows.len());
        let mut f = flows.swap_remove(k);
        let id = f.id.clone();
        let w = c.s.w.clone();
        match r.below(8) {
            0 => {
                let other = if r.chance(1, 2) { "nobody".to_string() } else { format!("{id}x") };
                if r.chance(1, 2) {
                    c.refuse("authorize", pres::authorize(w, other));
                } else {
                    c.refuse("present", pres::present(w, other));
                }
            }
            1 if !f.authorized => c.refuse("present", pres::present(w, id)),
            1 => c.refuse("authorize", pres::authorize(w, id)),
            _ if !f.authorized => {
                c.log.push("authorize".into());
                let out = c.step(r, "authorize", |w| {
                    let id = id.clone();
                    async move { pres::authorize(w, id).await }
                });
                c.ok(out == Ok(pres::Status::Authorized), "authorize-refused", || format!("{out:?}"));
                let sent = c.s.w.take_calls().iter().any(|x| x.0 == "present");
                c.ok(!sent, "authorize-sends", || id.clone());
                f.authorized = true;
            }
            _ => answer(c, r, &mut f),
        }
        flows.push(f);
    }
}

/// A status survives being written and read.
fn statuses(rep: &mut Report, r: &mut Rng) {
    use pres::Status;
    let st = match r.below(5) {
        0 => Status::Inactive,
        1 => Status::Requested,
        2 => Status::Authorized,
        _ => Status::Failed(any_text(r)),
    };
    let text = st.to_string();
    let back = guarded(|| text.parse::<Status>());
    rep.count("status_round_trips");
    if !matches!(&back, Ok(Ok(b)) if *b == st) {
        rep.violation("status-text", format!("{st:?} written {text:?} read {back:?}"));
    }
    let junk = match r.below(3) {
        0 => "Failed"[..r.below(7)].to_string(),
        1 => format!("Failed{}", any_text(r)),
        _ => any_text(r),
    };
    if let Err(p) = guarded(|| junk.parse::<Status>().is_ok()) {
        rep.violation("status-panics", format!("{junk:?}: {p}"));
    }
}

//! Monitors over the verifier: requests it makes and presentations it accepts.

use std::collections::BTreeSet;

use base64ct::{Base64UrlUnpadded, Encoding};
use serde_json::{json, Map, Value};
use sys::docs::{any_json, any_text};
use sys::exec::{block_on, interleave, reset, Task};
use sys::report::{args, Report};
use sys::rng::Rng;
use sys::world::{jws, jws_open, Key, World};
use sys::{clock, guarded};
use vercre_verifier::{
    CreateRequestRequest, CreateRequestResponse, MetadataRequest, RequestObjectRequest, ResponseRequest,
    ResponseResponse,
};

const ASSUME: &[&str] = &[
    "JOSE signatures are a stand-in scheme: a signature verifies exactly for the key and bytes it was made with",
    "keys are resolved by the harness's DID resolver; the state store is the harness's recording store",
    "time is the harness's virtual clock",
];

fn main() {
    let (prop, rep) = args();
    match prop.as_str() {
        "P25" => acceptance(rep),
        "P26" => requests(rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

fn flat<T>(r: Result<vercre_openid::Result<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

struct Scene {
    w: World,
    verifiers: Vec<(String, Key, Value)>,
    issuers: Vec<Key>,
    holders: Vec<Key>,
}

fn scene(r: &mut Rng) -> Scene {
    let w = World::new();
    let mut verifiers: Vec<(String, Key, Value)> = vec![];
    for i in 0..2 {
        let id = match (r.below(4), verifiers.first()) {
            // a name that goes on from the other's
            (0, Some((first, ..))) => format!("{first}{}", r.pick(&["0", "/", "/b", " ", "/post"])),
            (0 | 1, _) => format!("http://v{i}.example:8{i}/a/{}{}", r.ident(), r.pick(&["", "", "/"])),
            _ => format!("https://v{i}.example{}", r.pick(&["", "", "/"])),
        };
        let key = Key::new(&format!("did:web:v{i}.example"), "key-0", &format!("verifier {i}"));
        let mut meta = json!({"client_id": id});
        if r.chance(1, 2) {
            meta["redirect_uris"] = json!([format!("{id}/cb"), any_text(r)]);
        }
        if r.chance(1, 2) {
            meta["client_name"] = json!(any_text(r));
        }
        if r.chance(1, 2) {
            meta["vp_formats"] = json!({"jwt_vp_json": {"alg": ["EdDSA"], "proof_type": [any_text(r)]}});
        }
        w.add_key(&key);
        w.with(|x| {
            x.verifiers.insert(id.clone(), meta.clone());
            x.signers.insert(id.clone(), key.clone());
        });
        verifiers.push((id, key, meta));
    }
    let mk = |who: &str, i: usize| Key::new(&format!("did:web:{who}{i}.example"), "key-0", &format!("{who} secret {i}"));
    let issuers: Vec<Key> = (0..2).map(|i| mk("issuer", i)).collect();
    let holders: Vec<Key> = (0..2).map(|i| mk("holder", i)).collect();
    for k in issuers.iter().chain(&holders) {
        w.add_key(k);
    }
    let eager = r.chance(1, 3);
    w.with(|x| x.eager = eager);
    Scene { w, verifiers, issuers, holders }
}

/// A descriptor asking for credential type `t`, and sometimes for a claim.
#[derive(Clone, Debug)]
struct Want {
    id: String,
    kind: String,
    level: Option<String>,
    present: Option<String>,
    format: Option<Vec<String>>,
    /// carries a constraint nothing can satisfy, because it makes no sense
    senseless: bool,
}

impl Want {
    fn new(r: &mut Rng, i: usize) -> Self {
        Self {
            id: format!("{i}{}", any_text(r)),
            kind: format!("Kind{i}{}", r.ident()),
            level: r.chance(1, 2).then(|| format!("lvl{}", r.ident())),
            present: r.chance(1, 4).then(|| "extra".to_string()),
            format: match r.below(3) {
                0 => Some(vec!["jwt_vc_json".into()]),
                1 => Some(vec!["ldp_vc".into(), "jwt_vc_json".into(), "jwt_vc".into()]),
                _ => None,
            },
            senseless: false,
        }
    }

    fn same_constraints(&self, o: &Self) -> bool {
        self.kind == o.kind && self.level == o.level && self.present == o.present
    }

    fn json(&self) -> Value {
        let mut fields = vec![json!({"path": ["$.type"], "filter": {"type": "string", "const": self.kind}})];
        if let Some(l) = &self.level {
            fields.push(json!({
                "path": ["$.credentialSubject.level"], "filter": {"type": "string", "const": l}
            }));
        }
        if let Some(p) = &self.present {
            fields.push(json!({"path": [format!("$.credentialSubject.{p}")]}));
        }
        if self.senseless {
            fields.push(json!({"path": ["$.credentialSubject.name"], "filter": {"type": "string", "pattern": "(["}}));
        }
        let mut d = json!({"id": self.id, "constraints": {"fields": fields}});
        if let Some(f) = &self.format {
            let m: Map<String, Value> = f.iter().map(|f| (f.clone(), json!({"alg": ["EdDSA"]}))).collect();
            d["format"] = Value::Object(m);
        }
        d
    }
}

fn vc_doc(r: &mut Rng, want: &Want, holder: &Key, issuer: &Key) -> Value {
    let mut subj = json!({"id": holder.did, "name": any_text(r)});
    subj["level"] = json!(want.level.clone().unwrap_or_else(|| r.ident()));
    if let Some(p) = &want.present {
        subj[p] = any_json(r, 1);
        if subj[p].is_null() {
            subj[p] = json!("here");
        }
    }
    let now = clock::now();
    let at = |t: i64| json!(chrono::DateTime::from_timestamp(t, 0).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Secs, true));
    let mut d = json!({
        "@context": ["https://www.w3.org/2018/credentials/v1"],
        "id": format!("https://issuer.example/{}", r.ident()),
        "type": ["VerifiableCredential", want.kind],
        "issuer": issuer.did,
        "credentialSubject": subj,
    });
    if r.chance(1, 2) {
        d["validFrom"] = at(now - 10 - r.below(100_000) as i64);
    }
    if r.chance(1, 2) {
        d["validUntil"] = at(now + 10_000 + r.below(1_000_000) as i64);
    }
    d
}

fn vc_claims(doc: &Value) -> Value {
    json!({
        "sub": doc["credentialSubject"]["id"], "nbf": null, "iss": doc["issuer"], "iat": clock::now() - 5,
        "jti": doc["id"], "vc": doc,
    })
}

fn header(typ: &str, key: &Key) -> Value {
    json!({"alg": "EdDSA", "typ": typ, "kid": key.kid()})
}

fn sign_vc(doc: &Value, key: &Key) -> String {
    jws(&header("jwt", key), &vc_claims(doc), key)
}

/// Everything that makes up one response, before it is put together.
#[derive(Clone, Debug)]
struct Plan {
    wants: Vec<Want>,
    docs: Vec<Value>,
    /// token (or object) of each credential
    creds: Vec<Value>,
    /// which presentation, and which place in it, each credential has
    place: Vec<(usize, usize)>,
    vps: usize,
    holder: Key,
    nonce: String,
    aud: String,
    def_id: String,
    state: Option<String>,
    /// one presentation with a nonce and audience of its own
    odd: Option<(usize, String, String)>,
}

impl Plan {
    fn vp_docs(&self) -> Vec<Value> {
        (0..self.vps)
            .map(|v| {
                let n = self.place.iter().filter(|(p, _)| *p == v).count();
                let mut list = vec![Value::Null; n];
                for (k, (p, i)) in self.place.iter().enumerate() {
                    if *p == v {
                        list[*i] = self.creds[k].clone();
                    }
                }
                json!({
                    "@context": ["https://www.w3.org/2018/credentials/v1"],
                    "type": ["VerifiablePresentation"],
                    "holder": self.holder.did,
                    "verifiableCredential": list,
                })
            })
            .collect()
    }

    fn vp_claims(&self, doc: &Value) -> Value {
        let now = clock::now();
        json!({
            "iss": self.holder.did, "jti": "", "aud": self.aud, "nonce": self.nonce, "nbf": now, "iat": now,
            "exp": now + 3600, "vp": doc,
        })
    }

    fn path(&self, k: usize) -> String {
        let (v, i) = self.place[k];
        if self.vps == 1 {
            format!("$.verifiableCredential[{i}]")
        } else {
            format!("$[{v}].verifiableCredential[{i}]")
        }
    }

    fn request(&self) -> Value {
        let tokens: Vec<Value> = self
            .vp_docs()
            .iter()
            .enumerate()
            .map(|(i, d)| {
                let mut c = self.vp_claims(d);
                if let Some((_, nonce, aud)) = self.odd.as_ref().filter(|o| o.0 == i) {
                    c["nonce"] = json!(nonce);
                    c["aud"] = json!(aud);
                }
                json!(jws(&header("jwt", &self.holder), &c, &self.holder))
            })
            .collect();
        let map: Vec<Value> = self
            .wants
            .iter()
            .enumerate()
            .map(|(k, w)| {
                json!({
                    "id": w.id, "format": "jwt_vp_json", "path": if self.vps == 1 { "$".into() } else { format!("$[{}]", self.place[k].0) },
                    "path_nested": {"format": "jwt_vc_json", "path": self.path(k)},
                })
            })
            .collect();
        let mut req = json!({
            "vp_token": tokens,
            "presentation_submission": {"id": "sub", "definition_id": self.def_id, "descriptor_map": map},
        });
        if let Some(s) = &self.state {
            req["state"] = json!(s);
        }
        req
    }
}

fn respond(w: &World, req: &Value) -> Result<ResponseResponse, String> {
    let r: ResponseRequest = match serde_json::from_value(req.clone()) {
        Ok(r) => r,
        Err(e) => return Err(format!("unreadable: {e}")),
    };
    flat(guarded(|| block_on(vercre_verifier::response(w.clone(), &r))))
}

/// Ask for `wants` through the verifier's endpoints; the request object the
/// wallet ends up with.
fn ask(s: &Scene, v: usize, wants: &[Want], same: bool, purpose: &str) -> Result<(CreateRequestResponse, Value), String> {
    let (id, key, _) = &s.verifiers[v];
    let body = json!({
        "client_id": id, "purpose": purpose,
        "input_descriptors": wants.iter().map(Want::json).collect::<Vec<_>>(),
        "device_flow": if same { "SameDevice" } else { "CrossDevice" },
    });
    let req: CreateRequestRequest = serde_json::from_value(body).map_err(|e| format!("unreadable: {e}"))?;
    let resp = flat(guarded(|| block_on(vercre_verifier::create_request(s.w.clone(), &req))))?;
    if same {
        let obj = resp.request_object.clone().ok_or("no request object")?;
        return Ok((resp, serde_json::to_value(obj).map_err(|e| e.to_string())?));
    }
    let uri = resp.request_uri.clone().ok_or("no request uri")?;
    let obj = fetch(&s.w, id, uri.rsplit('/').next().unwrap(), key)?;
    Ok((resp, obj))
}

/// Fetch a request object by reference and open it with the verifier's key.
fn fetch(w: &World, client: &str, id: &str, key: &Key) -> Result<Value, String> {
    let req = RequestObjectRequest { client_id: client.into(), id: id.into() };
    let got = flat(guarded(|| block_on(vercre_verifier::request_object(w.clone(), &req))))?;
    let v = serde_json::to_value(&got).map_err(|e| e.to_string())?;
    let tok = v.as_str().ok_or("response is not a token")?;
    let (h, c) = jws_open(tok, key).ok_or("not signed by the verifier")?;
    if h["kid"] != json!(key.kid()) {
        return Err(format!("kid {}", h["kid"]));
    }
    Ok(c)
}

fn plan(r: &mut Rng, s: &Scene, wants: &[Want], obj: &Value) -> Plan {
    let holder = s.holders[r.below(2)].clone();
    let mut p = Plan {
        wants: wants.to_vec(),
        docs: vec![],
        creds: vec![],
        place: vec![],
        vps: r.range(1, 3),
        holder: holder.clone(),
        nonce: obj["nonce"].as_str().unwrap_or_default().into(),
        aud: obj["client_id"].as_str().unwrap_or_default().into(),
        def_id: obj["presentation_definition"]["id"].as_str().unwrap_or_default().into(),
        state: obj["state"].as_str().map(Into::into),
        odd: None,
    };
    let mut next = vec![0; p.vps];
    let mut order: Vec<usize> = (0..wants.len()).collect();
    r.shuffle(&mut order);
    p.place = vec![(0, 0); wants.len()];
    for w in wants {
        let iss = &s.issuers[r.below(2)];
        let d = vc_doc(r, w, &holder, iss);
        p.creds.push(json!(sign_vc(&d, iss)));
        p.docs.push(d);
    }
    for k in order {
        let v = r.below(p.vps);
        p.place[k] = (v, next[v]);
        next[v] += 1;
    }
    // a credential nobody asked for
    if r.chance(1, 3) {
        let v = r.below(p.vps);
        p.place.push((v, next[v]));
        let iss = &s.issuers[0];
        let d = vc_doc(r, &Want { id: "x".into(), kind: "Decoy".into(), level: None, present: None, format: None, senseless: false }, &holder, iss);
        p.creds.push(json!(sign_vc(&d, iss)));
        p.docs.push(d);
    }
    p
}

fn tamper(r: &mut Rng, tok: &str, other: &Key) -> String {
    let parts: Vec<&str> = tok.split('.').collect();
    let dec = |s: &str| -> Value { serde_json::from_slice(&Base64UrlUnpadded::decode_vec(s).unwrap()).unwrap() };
    match r.below(5) {
        0 => {
            let mut sig = Base64UrlUnpadded::decode_vec(parts[2]).unwrap();
            let k = r.below(sig.len());
            sig[k] ^= 1 << r.below(8);
            format!("{}.{}.{}", parts[0], parts[1], Base64UrlUnpadded::encode_string(&sig))
        }
        1 => jws(&dec(parts[0]), &dec(parts[1]), other),
        2 => format!("{}.{}.", parts[0], parts[1]),
        3 => {
            let mut h = dec(parts[0]);
            h["alg"] = json!("none");
            format!("{}.{}.", Base64UrlUnpadded::encode_string(h.to_string().as_bytes()), parts[1])
        }
        _ => {
            let mut c = dec(parts[1]);
            c["iat"] = json!(c["iat"].as_i64().unwrap_or(0) + 1);
            format!("{}.{}.{}", parts[0], Base64UrlUnpadded::encode_string(c.to_string().as_bytes()), parts[2])
        }
    }
}

/// One flaw in an otherwise sound response; None when it does not apply.
fn flaw(r: &mut Rng, s: &Scene, p: &Plan, other: &Value) -> Option<(Value, String)> {
    let mut q = p.clone();
    let k = r.below(p.wants.len());
    let at = |t: i64| json!(chrono::DateTime::from_timestamp(t, 0).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Secs, true));
    let issuer = s.issuers[r.below(2)].clone();
    let resign = |q: &mut Plan, d: &Value| q.creds[k] = json!(sign_vc(d, &issuer));
    let what = match r.below(28) {
        0 => {
            q.state = None;
            "no state"
        }
        1 => {
            q.state = Some(any_text(r) + "?");
            "unknown state"
        }
        2 => {
            q.state = other["state"].as_str().map(Into::into);
            "state of another request"
        }
        3 => {
            q.nonce = other["nonce"].as_str()?.into();
            "nonce of another request"
        }
        4 => {
            q.nonce = match r.below(7) {
                0 => String::new(),
                1 => q.nonce.chars().skip(1).collect(),
                2 => q.nonce + "A",
                3 => q.nonce + " ",
                4 => q.nonce.to_lowercase(),
                5 => q.nonce.to_uppercase(),
                _ => q.nonce.to_lowercase() + "_",
            };
            if q.nonce == p.nonce {
                return None;
            }
            "wrong nonce"
        }
        5 => {
            q.aud = match r.below(6) {
                4 => q.aud.to_uppercase(),
                5 => q.aud.rsplit_once('/')?.0.into(),
                0 => String::new(),
                1 => "https://elsewhere.example".into(),
                2 => q.aud + "/",
                _ => {
                    let o = other["client_id"].as_str()?.to_string();
                    if o == q.aud {
                        return None;
                    }
                    o
                }
            };
            "made for another verifier"
        }
        6 => {
            q.def_id = match r.below(5) {
                0 => other["presentation_definition"]["id"].as_str()?.into(),
                1 => q.def_id.to_uppercase(),
                2 => format!("{} ", q.def_id),
                3 => q.def_id.chars().take(8).collect(),
                _ => any_text(r),
            };
            if q.def_id == p.def_id {
                return None;
            }
            "submission for another definition"
        }
        7 => {
            let mut req = q.request();
            let t = r.below(q.vps);
            let tok = req["vp_token"][t].as_str()?.to_string();
            let o = s.holders.iter().find(|h| h.did != q.holder.did)?;
            let bad = tamper(r, &tok, o);
            req["vp_token"][t] = json!(bad);
            return Some((req, "forged presentation".into()));
        }
        8 => {
            let mut req = q.request();
            req.as_object_mut()?.remove("vp_token");
            return Some((req, "no presentation".into()));
        }
        9 => {
            let mut req = q.request();
            req["vp_token"] = json!([]);
            return Some((req, "empty presentation list".into()));
        }
        10 => {
            let mut req = q.request();
            req.as_object_mut()?.remove("presentation_submission");
            return Some((req, "no submission".into()));
        }
        11 => {
            let mut req = q.request();
            req["presentation_submission"]["descriptor_map"].as_array_mut()?.remove(k);
            return Some((req, "descriptor not mapped".into()));
        }
        12 => {
            let mut req = q.request();
            let near = {
                let id = &q.wants[k].id;
                match r.below(4) {
                    0 if id.to_uppercase() != *id => id.to_uppercase(),
                    1 if id.to_lowercase() != *id => id.to_lowercase(),
                    2 => format!("{id} "),
                    _ => format!("{id}x"),
                }
            };
            req["presentation_submission"]["descriptor_map"][k]["id"] = json!(near);
            return Some((req, "mapped under another id".into()));
        }
        13 => {
            let mut req = q.request();
            let paths = [
                "$.verifiableCredential[99]", "$.holder", "$.nothing", "$", "$.type", "$[9].verifiableCredential[0]", "$..nope",
                "not a path", "", "$.verifiableCredential[", "$['@context']",
            ];
            req["presentation_submission"]["descriptor_map"][k]["path_nested"]["path"] = json!(*r.pick(&paths));
            return Some((req, "path to no credential".into()));
        }
        14 => {
            if q.place.len() < 2 {
                return None;
            }
            let mut req = q.request();
            req["presentation_submission"]["descriptor_map"][k]["path_nested"]["path"] =
                json!(if q.vps == 1 { "$.verifiableCredential[*]" } else { "$[*].verifiableCredential[*]" });
            return Some((req, "path to several credentials".into()));
        }
        15 => {
            if q.place.len() < 2 {
                return None;
            }
            let j = (k + 1 + r.below(q.place.len() - 1)) % q.place.len();
            if q.wants.get(j).is_some_and(|w| w.same_constraints(&q.wants[k])) {
                return None;
            }
            let mut req = q.request();
            req["presentation_submission"]["descriptor_map"][k]["path_nested"]["path"] = json!(q.path(j));
            return Some((req, "path to another credential".into()));
        }
        16 => {
            let asked = q.wants[k].format.clone()?;
            let mut req = q.request();
            let map = &mut req["presentation_submission"]["descriptor_map"][k];
            map["path_nested"]["format"] = json!(*r.pick(&["mso_mdoc", "jwt", "", "JWT_VC_JSON", "jwt_vc_json-ld", "jwt_vp_json"]));
            // the presentation's own format says nothing about the credential
            if r.chance(1, 2) {
                map["format"] = json!(r.pick(&asked));
            }
            return Some((req, "format that was not asked for".into()));
        }
        17 | 18 => {
            let o = s.issuers.iter().find(|i| json!(i.did) != q.docs[k]["issuer"])?;
            let tok = q.creds[k].as_str()?.to_string();
            q.creds[k] = json!(tamper(r, &tok, o));
            "forged credential"
        }
        19 => {
            q.creds[k] = q.docs[k].clone();
            "credential without a proof"
        }
        20 | 21 => {
            let mut d = q.docs[k].clone();
            d["validUntil"] = at(clock::now() - 2 - if r.chance(1, 2) { 0 } else { r.below(1_000_000) as i64 });
            d.as_object_mut()?.remove("validFrom");
            resign(&mut q, &d);
            "expired credential"
        }
        22 => {
            let mut d = q.docs[k].clone();
            d["validFrom"] = at(clock::now() + 2 + *r.pick(&[0, 8, 50, 100, 86_400]) + if r.chance(1, 2) { 0 } else { r.below(1_000_000) as i64 });
            d.as_object_mut()?.remove("validUntil");
            resign(&mut q, &d);
            "credential not yet valid"
        }
        23 | 24 => {
            let mut d = q.docs[k].clone();
            let v = match r.below(5) {
                3 => json!(["VerifiableCredential", format!("{} ", q.wants[k].kind)]),
                4 => json!(["VerifiableCredential", q.wants[k].kind.to_uppercase()]),
                0 => json!(["VerifiableCredential"]),
                1 => json!(["VerifiableCredential", format!("{}x", q.wants[k].kind)]),
                _ => json!(["VerifiableCredential", q.wants[k].kind.to_lowercase() + "_"]),
            };
            d["type"] = v;
            resign(&mut q, &d);
            "credential of another type"
        }
        25 => {
            q.wants[k].level.as_ref()?;
            let mut d = q.docs[k].clone();
            match r.below(5) {
                3 => d["credentialSubject"]["level"] = json!(q.wants[k].level.as_ref()?.to_uppercase()),
                4 => d["credentialSubject"]["level"] = json!({"value": q.wants[k].level.as_ref()?}),
                0 => {
                    d["credentialSubject"].as_object_mut()?.remove("level");
                }
                1 => d["credentialSubject"]["level"] = json!(7),
                _ => d["credentialSubject"]["level"] = json!(format!("{}+", q.wants[k].level.as_ref()?)),
            }
            resign(&mut q, &d);
            "claim of another value"
        }
        26 => {
            let f = q.wants[k].present.clone()?;
            let mut d = q.docs[k].clone();
            d["credentialSubject"].as_object_mut()?.remove(&f);
            resign(&mut q, &d);
            "claim missing"
        }
        _ => {
            // a presentation where a credential belongs
            let d = json!({
                "@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiablePresentation", q.wants[k].kind],
                "verifiableCredential": [q.creds[k]],
            });
            q.creds[k] = json!(jws(&header("jwt", &q.holder), &q.vp_claims(&d), &q.holder));
            "presentation in place of a credential"
        }
    };
    // with several presentations, the flaw may be in one of them only
    if q.vps > 1 && (q.nonce != p.nonce || q.aud != p.aud) && r.chance(1, 2) {
        q.odd = Some((r.below(q.vps), q.nonce.clone(), q.aud.clone()));
        q.nonce.clone_from(&p.nonce);
        q.aud.clone_from(&p.aud);
    }
    Some((q.request(), what.into()))
}

fn wants(r: &mut Rng) -> Vec<Want> {
    let n = if r.chance(1, 12) { r.range(4, 9) } else { r.range(1, 3) };
    let mut all: Vec<Want> = (0..n).map(|i| Want::new(r, i)).collect();
    // two that ask for the same
    if n > 1 && r.chance(1, 6) {
        let (a, b) = if r.chance(1, 2) { (0, 1) } else { (r.below(n), r.below(n)) };
        let w = all[a].clone();
        all[b].kind = w.kind;
        all[b].level = w.level;
        all[b].present = w.present;
    }
    all
}

/// P25: a presentation is accepted exactly when it answers the request.
fn acceptance(mut rep: Report) {
    let n = rep.n(4000, 60_000);
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        let mut r = Rng::case(rep.seed ^ 0x25, i);
        let s = scene(&mut r);
        let (mut w1, w2) = (wants(&mut r), wants(&mut r));
        let (v1, v2) = (r.below(2), r.below(2));
        let senseless = r.chance(1, 30);
        if senseless {
            let k = r.below(w1.len());
            w1[k].senseless = true;
        }
        let made = (|| {
            let a = ask(&s, v1, &w1, r.chance(1, 2), "why")?;
            let b = ask(&s, v2, &w2, r.chance(1, 2), "why")?;
            Ok::<_, String>((a.1, b.1))
        })();
        let (o1, o2) = match made {
            Ok(x) => x,
            Err(e) => {
                rep.violation("request-not-made", format!("{e} {w1:?}"));
                continue;
            }
        };
        rep.count("requests");
        let wait = r.below(280) as i64;
        clock::advance(wait);
        let p1 = plan(&mut r, &s, &w1, &o1);
        let p2 = plan(&mut r, &s, &w2, &o2);
        rep.eval(&format!("{p1:?}"), true);
        if senseless {
            // what cannot be judged is not satisfied
            rep.count("senseless_requests");
            let got = respond(&s.w, &p1.request());
            rep.check(got.is_err(), "accepted-for-a-constraint-that-makes-no-sense", || o1.to_string());
            continue;
        }

        // flawed responses are refused and use nothing up
        for _ in 0..5 {
            let Some((bad, what)) = flaw(&mut r, &s, &p1, &o2) else { continue };
            rep.count("flawed_responses");
            rep.saw("flaws", &what);
            match respond(&s.w, &bad) {
                Ok(_) => rep.violation(
                    &format!("accepted-{}", what.replace(' ', "-")),
                    format!("{what}: {bad}\nrequest {o1}"),
                ),
                Err(e) => rep.check(!e.starts_with("panic"), "response-panicked", || format!("{what}: {e} {bad}")),
            }
        }

        // a provider failure is an error, not an acceptance
        let sound = p1.request();
        if r.chance(1, 2) {
            let before = s.w.with(|x| x.op_count);
            let k = r.below(6);
            s.w.with(|x| {
                x.fail_at = Some(k);
                x.fail_text = "store \"broken\"".into();
            });
            let got = respond(&s.w, &sound);
            let fired = s.w.with(|x| {
                let f = x.fail_at.is_none();
                x.fail_at = None;
                f
            });
            if fired {
                rep.count("faults");
                rep.check(got.is_err(), "accepted-despite-failure", || format!("call {k} after {before}"));
                rep.check(!matches!(&got, Err(e) if e.starts_with("panic")), "response-panicked", || format!("{got:?}"));
            } else if got.is_ok() {
                rep.count("accepted");
                continue;
            }
        }

        // time: refused once the request has expired
        if r.chance(1, 4) {
            clock::advance(302 - wait + r.below(100) as i64);
            rep.count("late_responses");
            let mut late = p1.clone();
            late.docs.clear();
            let got = respond(&s.w, &late.request());
            rep.check(got.is_err(), "accepted-after-request-expired", || o1.to_string());
            continue;
        }

        // sound responses are accepted, once
        match respond(&s.w, &sound) {
            Ok(_) => rep.count("accepted"),
            Err(e) => rep.violation("sound-response-refused", format!("{e}: {sound}\nrequest {o1}")),
        }
        rep.count("replays");
        let again = if r.chance(1, 2) { sound.clone() } else { plan(&mut r, &s, &w1, &o1).request() };
        rep.check(respond(&s.w, &again).is_err(), "accepted-twice", || sound.to_string());
        let state = o1["state"].as_str().unwrap_or_default();
        rep.check(!s.w.snapshot().contains_key(state), "request-kept-after-response", || state.into());
        // the other request is not disturbed
        match respond(&s.w, &p2.request()) {
            Ok(_) => rep.count("accepted"),
            Err(e) => rep.violation("other-request-disturbed", format!("{e}: {o2}")),
        }
        rep.check(s.w.snapshot().is_empty(), "state-left-behind", || format!("{:?}", s.w.snapshot()));

        // hostile responses
        let body = json!({
            "vp_token": [any_json(&mut r, 2)], "state": any_text(&mut r),
            "presentation_submission": {"id": any_text(&mut r), "definition_id": any_text(&mut r), "descriptor_map": []},
        });
        let got = respond(&s.w, &body);
        rep.check(got.is_err(), "nonsense-accepted", || body.to_string());
        rep.check(!matches!(&got, Err(e) if e.starts_with("panic")), "response-panicked", || format!("{got:?} {body}"));
    }
    // one response racing itself, and two requests answered together
    let m = rep.n(300, 5000);
    if rep.replay_case.is_none() {
        for i in 0..m {
            clock::reset();
            let mut r = Rng::case(rep.seed ^ 0x2525, i);
            let s = scene(&mut r);
            let (w1, w2) = (wants(&mut r), wants(&mut r));
            let (Ok((_, o1)), Ok((_, o2))) = (ask(&s, 0, &w1, true, "a"), ask(&s, 1, &w2, true, "b")) else { continue };
            let a = plan(&mut r, &s, &w1, &o1).request();
            let b = plan(&mut r, &s, &w2, &o2).request();
            let tasks: Vec<Task<bool>> = [a.clone(), b.clone(), a.clone()]
                .into_iter()
                .map(|req| {
                    let w = s.w.clone();
                    let req: ResponseRequest = serde_json::from_value(req).unwrap();
                    Box::pin(async move { vercre_verifier::response(w, &req).await.is_ok() }) as Task<bool>
                })
                .collect();
            let got = guarded(|| interleave(tasks, |l| r.below(l.len())));
            reset();
            match got {
                Ok((out, sched)) => {
                    rep.count("interleavings");
                    rep.saw("schedules", &format!("{sched:?}"));
                    rep.check(out[1], "concurrent-response-lost", || format!("{sched:?}"));
                    rep.check(out[0] || out[2], "concurrent-response-lost", || format!("{sched:?}"));
                    rep.check(!(out[0] && out[2]), "concurrent-double-acceptance", || format!("{sched:?}"));
                }
                Err(p) => rep.violation("response-panicked", p),
            }
            // a presentation nobody signed
            let Ok((_, o3)) = ask(&s, 0, &w1, true, "c") else { continue };
            let p = plan(&mut r, &s, &w1, &o3);
            let mut bad = p.request();
            let docs: Vec<Value> = p
                .vp_docs()
                .into_iter()
                .map(|mut d| {
                    d["proof"] = json!({"challenge": p.nonce});
                    d
                })
                .collect();
            bad["vp_token"] = json!(docs);
            rep.count("unsigned_presentations");
            rep.check(respond(&s.w, &bad).is_err(), "unsigned-presentation-accepted", || bad.to_string());
        }
        rep.require("interleavings", m / 2);
    }
    rep.require("accepted", n / 2);
    rep.require("flawed_responses", n);
    rep.require("late_responses", n / 10);
    rep.require("faults", n / 10);
    rep.finish(
        "one case = two requests made through the verifier, flawed, failing, late, sound and repeated responses to them",
        ASSUME,
    )
}

/// P26: requests say what was asked, are signed, fresh and given to nobody else.
fn requests(mut rep: Report) {
    let n = rep.n(5000, 80_000);
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for i in rep.cases(n) {
        rep.begin(i);
        clock::reset();
        let mut r = Rng::case(rep.seed ^ 0x26, i);
        let s = scene(&mut r);
        let mut w = wants(&mut r);
        // the same identifier twice is passed on as it is
        if w.len() > 1 && r.chance(1, 8) {
            w[1].id = w[0].id.clone();
        }
        let v = r.below(2);
        let same = r.chance(1, 2);
        let purpose = any_text(&mut r);
        let (id, key, meta) = s.verifiers[v].clone();
        rep.eval(&format!("{w:?}{same}{purpose}{id}"), true);
        let before = clock::now();
        let (resp, obj) = match ask(&s, v, &w, same, &purpose) {
            Ok(x) => x,
            Err(e) => {
                rep.violation("request-not-made", format!("{e} {w:?}"));
                continue;
            }
        };
        rep.count(if same { "same_device" } else { "cross_device" });
        rep.check(resp.request_object.is_some() == same && resp.request_uri.is_some() != same, "wrong-delivery", || {
            format!("{resp:?}")
        });
        // what is asked
        let def = &obj["presentation_definition"];
        let asked: Vec<Value> = w.iter().map(Want::json).collect();
        rep.check(def["input_descriptors"] == json!(asked), "asks-for-something-else", || format!("{asked:?}\n{def}"));
        rep.check(
            def["format"] == json!({"jwt_vc": {"alg": ["EdDSA"]}}),
            "accepted-formats-differ",
            || def.to_string(),
        );
        rep.check(def["purpose"] == json!(purpose), "purpose-differs", || def.to_string());
        rep.check(obj["response_type"] == json!("vp_token"), "response-type", || obj.to_string());
        rep.check(obj["client_id_scheme"] == json!("redirect_uri"), "client-id-scheme", || obj.to_string());
        let meta_ok = meta.as_object().unwrap().iter().all(|(k, v)| &obj["client_metadata"][k] == v);
        rep.check(meta_ok, "client-metadata-differs", || format!("{meta}\n{}", obj["client_metadata"]));
        // where the answer goes
        if same {
            rep.check(obj["client_id"] == json!(format!("{id}/callback")), "client-id", || obj.to_string());
            rep.check(obj.get("response_uri").is_none(), "response-uri", || obj.to_string());
        } else {
            rep.check(obj["response_mode"] == json!("direct_post"), "response-mode", || obj.to_string());
            rep.check(obj["client_id"] == json!(format!("{id}/post")), "client-id", || obj.to_string());
            rep.check(obj["response_uri"] == obj["client_id"], "response-uri-not-client-id", || obj.to_string());
        }
        rep.check(obj.get("redirect_uri").is_none(), "redirect-uri-with-response-uri", || obj.to_string());
        // fresh identifiers
        let state = obj["state"].as_str().unwrap_or_default().to_string();
        for (what, val) in [("state", state.as_str()), ("nonce", obj["nonce"].as_str().unwrap_or_default()), ("id", def["id"].as_str().unwrap_or_default())] {
            rep.count("identifiers");
            rep.check(val.len() >= 32, "identifier-too-short", || format!("{what} {val}"));
            rep.check(seen.insert(val.to_string()), "identifier-reused", || format!("{what} {val}"));
        }
        if let Some(uri) = &resp.request_uri {
            rep.check(*uri == format!("{id}/request/{state}"), "request-uri", || uri.clone());
        }
        // kept for the answer, for a bounded time
        let kept = s.w.snapshot();
        match kept.get(&state) {
            Some((stored, exp)) => {
                let stored = stored["request_object"].clone();
                rep.check(stored == obj, "stored-request-differs", || format!("{stored}\n{obj}"));
                rep.check(*exp > before && *exp <= clock::now() + 3600, "unbounded-lifetime", || format!("{exp} {before}"));
            }
            None => rep.violation("request-not-kept", state.clone()),
        }
        rep.check(kept.len() == 1, "more-than-one-state", || format!("{kept:?}"));

        // by reference: same object, to the right verifier, while it lasts
        let (other, okey, _) = s.verifiers[1 - v].clone();
        if same {
            rep.check(fetch(&s.w, &id, &state, &key).is_err(), "same-device-request-fetched", || state.clone());
        } else {
            rep.count("fetched_again");
            match fetch(&s.w, &id, &state, &key) {
                Ok(o) => rep.check(o == obj, "fetched-request-differs", || format!("{o}\n{obj}")),
                Err(e) => rep.violation("request-not-fetched", e),
            }
        }
        for (c, sid) in [
            (other.clone(), state.clone()),
            (format!("{id}/post"), state.clone()),
            (format!("{id}/"), state.clone()),
            (id.to_uppercase(), state.clone()),
            (id[..id.len() - 1].to_string(), state.clone()),
            (String::new(), state.clone()),
            (id.clone(), String::new()),
            (id.clone(), any_text(&mut r) + "?"),
            (id.clone(), state[..state.len().saturating_sub(1)].to_string()),
        ] {
            rep.count("fetches_to_refuse");
            let got = fetch(&s.w, &c, &sid, if c == other { &okey } else { &key });
            rep.check(got.is_err(), "request-given-to-another", || format!("{c} {sid}"));
            rep.check(!matches!(&got, Err(e) if e.starts_with("panic")), "fetch-panicked", || format!("{got:?}"));
        }
        if !same {
            clock::advance(299);
            rep.check(fetch(&s.w, &id, &state, &key).is_ok(), "request-expired-early", || state.clone());
            clock::advance(3);
            rep.count("late_fetches");
            rep.check(fetch(&s.w, &id, &state, &key).is_err(), "expired-request-fetched", || state.clone());
        }
        clock::reset();

        // refusals
        let none: Vec<Want> = vec![];
        rep.check(ask(&s, v, &none, same, &purpose).is_err(), "request-for-nothing", String::new);
        let unknown: CreateRequestRequest = serde_json::from_value(json!({
            "client_id": format!("{id}{}", any_text(&mut r) + "x"), "purpose": purpose, "input_descriptors": asked,
            "device_flow": if same { "SameDevice" } else { "CrossDevice" },
        }))
        .unwrap();
        let kept = s.w.snapshot();
        let got = flat(guarded(|| block_on(vercre_verifier::create_request(s.w.clone(), &unknown))));
        rep.check(got.is_err(), "request-for-unknown-verifier", || format!("{got:?}"));
        rep.check(s.w.snapshot() == kept, "refused-request-kept", || "state changed".into());
        // failing provider: an error and no request
        for k in 0..2 {
            s.w.with(|x| {
                x.fail_at = Some(k);
                x.fail_text = "store \"broken\"".into();
            });
            let got = ask(&s, v, &w, true, &purpose);
            if s.w.with(|x| x.fail_at.take().is_none()) {
                rep.count("faults");
                rep.check(got.is_err(), "request-despite-failure", || format!("call {k}"));
                rep.check(!matches!(&got, Err(e) if e.starts_with("panic")), "create-panicked", || format!("{got:?}"));
            }
        }
        // metadata
        for (c, m) in [(id.clone(), Some(meta.clone())), (any_text(&mut r) + "?", None)] {
            rep.count("metadata");
            let got = flat(guarded(|| block_on(vercre_verifier::metadata(s.w.clone(), &MetadataRequest { client_id: c.clone() }))));
            match (got, m) {
                (Ok(g), Some(m)) => {
                    let g = serde_json::to_value(&g).unwrap_or_default();
                    let ok = m.as_object().unwrap().iter().all(|(k, v)| &g[k] == v);
                    rep.check(ok, "metadata-differs", || format!("{m}\n{g}"));
                }
                (Ok(g), None) => rep.violation("metadata-of-unknown", format!("{g:?}")),
                (Err(e), Some(_)) => rep.violation("metadata-refused", e),
                (Err(e), None) => rep.check(!e.starts_with("panic"), "metadata-panicked", || e),
            }
        }
    }
    rep.require("same_device", n / 4);
    rep.require("cross_device", n / 4);
    rep.require("late_fetches", n / 4);
    rep.require("faults", n);
    rep.finish("one case = one request made, fetched by its owner and by others, late, under faults", ASSUME)
}

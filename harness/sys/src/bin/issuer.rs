//! Monitors over the issuer's endpoints.

use std::collections::{BTreeMap, BTreeSet, HashSet};

use base64ct::{Base64UrlUnpadded, Encoding};
use serde_json::{json, Map, Value};
use sys::issue::{challenge, merge, Cfg, Flow, Out, ProofReq, Setup, PRE};
use sys::report::{args, Report};
use sys::rng::Rng;
use sys::world::{jws, jws_open, text, Key, Op};
use sys::{clock, exec};
use vercre_openid::issuer as oi;

fn main() {
    let (prop, rep) = args();
    match prop.as_str() {
        "P15" => offers(rep),
        "P16" => authorization(rep),
        "P17" => tokens(rep),
        "P18" => single_use(rep),
        "P19" => access(rep),
        "P20" => possession(rep),
        "P21" => content(rep),
        "P22" => deferral(rep),
        "P23" => follow_up(rep),
        "P24" => faults(rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}

const ASSUME: &[&str] = &[
    "JOSE signatures are a stand-in scheme: a signature verifies exactly for the key and bytes it was made with",
    "the provider (state store, metadata, subjects) is the harness's own recording implementation",
    "wall clock is virtual; judgements within two seconds of an expiry are not made",
];

fn start(rep: &mut Report, i: u64, salt: u64) -> (Rng, Setup) {
    rep.begin(i);
    clock::reset();
    exec::reset();
    let mut r = Rng::case(rep.seed ^ salt, i);
    let s = Setup::new(&mut r);
    s.w.with(|w| w.eager = r.chance(1, 2));
    (r, s)
}

/// Something close to `id` that names no configuration of this issuer.
fn unsupported(r: &mut Rng, s: &Setup, id: &str) -> String {
    let m = mangle(r, id);
    if s.cfgs.iter().any(|c| c.id == m) { format!("{m}x") } else { m }
}

/// Random, empty and mangled forms of a secret.
fn mangle(r: &mut Rng, v: &str) -> String {
    let mut c: Vec<char> = v.chars().collect();
    match r.below(10) {
        0 => String::new(),
        1 => {
            c.pop();
            c.into_iter().collect()
        }
        2 => format!("{v}x"),
        3 => format!(" {v}"),
        4 => format!("{v} "),
        5 if v.to_lowercase() != v => v.to_lowercase(),
        6 if v.to_uppercase() != v => v.to_uppercase(),
        7 => format!("{v}\0"),
        8 => format!("{v}/"),
        _ => {
            if c.is_empty() {
                return "x".into();
            }
            let k = r.below(c.len());
            c[k] = if c[k] == 'A' { 'B' } else { 'A' };
            c.into_iter().collect()
        }
    }
}

// ---------------------------------------------------------------- P15 offers

fn offers(mut rep: Report) -> ! {
    let n = rep.n(7500, 30_000);
    let mut seen: HashSet<String> = HashSet::new();
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x15);
        let f = Flow::new(&s, &mut r);
        let mut req = f.offer_request(&s, &mut r);
        // vary
        let subject = f.subject.clone();
        let grants: Value = match r.below(6) {
            0 => json!(null),
            1 => json!([]),
            2 => json!([PRE]),
            3 => json!(["authorization_code"]),
            4 => json!([PRE, "authorization_code"]),
            _ => json!(["authorization_code", PRE]),
        };
        let with_pre = grants.as_array().is_some_and(|g| g.contains(&json!(PRE)));
        let with_auth = grants.as_array().is_some_and(|g| g.contains(&json!("authorization_code")));
        if grants.is_null() {
            req.as_object_mut().unwrap().remove("grant_types");
        } else {
            req["grant_types"] = grants.clone();
        }
        let mut bad: Option<&str> = None;
        match r.below(9) {
            0 => {
                req["credential_configuration_ids"] = json!([]);
                bad = Some("no configuration");
            }
            1 => {
                let mut ids = f.wanted.clone();
                ids.insert(r.below(ids.len() + 1), unsupported(&mut r, &s, &f.wanted[0]));
                req["credential_configuration_ids"] = json!(ids);
                bad = Some("unsupported configuration");
            }
            2 if with_pre => {
                req.as_object_mut().unwrap().remove("subject_id");
                bad = Some("pre-authorized without subject");
            }
            3 if with_pre => {
                let denied: Vec<&Cfg> = s.cfgs.iter().filter(|c| !s.allowed(&subject).contains_key(&c.id)).collect();
                if let Some(c) = denied.first() {
                    let mut ids = f.wanted.clone();
                    ids.push(c.id.clone());
                    req["credential_configuration_ids"] = json!(ids);
                    bad = Some("subject not authorized");
                }
            }
            4 if with_pre => {
                req["subject_id"] = json!(mangle(&mut r, &subject));
                bad = Some("unknown subject");
            }
            5 => {
                req["credential_issuer"] = json!(mangle(&mut r, &s.issuer));
                bad = Some("unknown issuer");
            }
            6 if with_pre || with_auth => {
                let drop = if with_pre { PRE } else { "authorization_code" };
                s.w.with(|w| {
                    let sv = w.servers.values_mut().next().unwrap();
                    let keep: Vec<&str> =
                        ["authorization_code", PRE].into_iter().filter(|g| *g != drop).collect();
                    sv["grant_types_supported"] = json!(keep);
                });
                bad = Some("grant not supported by server");
            }
            _ => {}
        }
        let before = s.w.snapshot();
        let out = s.create_offer(req.clone());
        rep.eval(&format!("{bad:?} {grants} {} {}", f.tx_required, req["send_type"]), true);
        let detail = || format!("{req} -> {}", out.why());
        if let Some(b) = bad {
            rep.count("invalid_offer_requests");
            rep.saw("kinds_refused", b);
            rep.check(!out.is_ok(), &format!("offer-accepted-{}", b.replace(' ', "-")), detail);
            rep.check(s.w.snapshot() == before, "refused-offer-left-state", detail);
            continue;
        }
        rep.count("valid_offer_requests");
        if !out.is_ok() {
            rep.violation("valid-offer-refused", detail());
            continue;
        }
        let why = out.why();
        let Out::Ok(resp) = out else { continue };
        let by_ref = req["send_type"] == "ByRef";
        let tx = resp.tx_code.clone();
        let want_tx = f.tx_required && with_pre;
        rep.check(tx.is_some() == want_tx, "tx-code-presence", || format!("{req}: tx_code {tx:?}"));
        let offer = match resp.offer_type {
            oi::OfferType::Object(o) => {
                rep.check(!by_ref, "send-type-ignored", || format!("{req}"));
                o
            }
            oi::OfferType::Uri(uri) => {
                rep.check(by_ref, "send-type-ignored", || format!("{req}"));
                let Some(id) = uri.strip_prefix(&format!("{}/credential_offer/", s.issuer)) else {
                    rep.violation("offer-uri-form", uri);
                    continue;
                };
                rep.check(seen.insert(id.to_string()), "offer-token-repeated", || uri.clone());
                let get = json!({"credential_issuer": s.issuer, "id": id});
                match r.below(6) {
                    0 => {
                        // a stranger cannot fetch it through another issuer's name
                        let other = json!({"credential_issuer": mangle(&mut r, &s.issuer), "id": id});
                        let o = s.credential_offer(other);
                        rep.count("offer_fetch_refused");
                        rep.check(!o.is_ok(), "offer-fetched-for-other-issuer", || uri.clone());
                        continue;
                    }
                    1 => {
                        clock::advance(303 + r.below(5000) as i64);
                        let o = s.credential_offer(get);
                        rep.count("offer_fetch_refused");
                        rep.check(!o.is_ok(), "expired-offer-fetched", || uri.clone());
                        continue;
                    }
                    2 => {
                        let o = s.credential_offer(json!({"credential_issuer": s.issuer, "id": mangle(&mut r, id)}));
                        rep.count("offer_fetch_refused");
                        rep.check(!o.is_ok(), "unknown-offer-fetched", || uri.clone());
                    }
                    3 => clock::advance(r.below(296) as i64),
                    _ => {}
                }
                let o = s.credential_offer(get.clone());
                let w2 = o.why();
                let Some(o) = o.ok() else {
                    rep.violation("stored-offer-not-fetched", format!("{uri} {w2}"));
                    continue;
                };
                rep.count("offers_fetched");
                let again = s.credential_offer(get);
                rep.check(!again.is_ok(), "offer-fetched-twice", || uri.clone());
                o.credential_offer
            }
        };
        // what the wallet sees
        let o = serde_json::to_value(&offer).unwrap();
        rep.check(o["credential_issuer"] == json!(s.issuer), "offer-issuer", || format!("{o}"));
        rep.check(o["credential_configuration_ids"] == json!(f.wanted), "offer-configurations", || {
            format!("{o} for {req}")
        });
        let g = &o["grants"];
        rep.check(g[PRE].is_object() == with_pre, "offer-pre-authorized-grant", || format!("{o} for {req}"));
        rep.check(g["authorization_code"].is_object() == with_auth, "offer-authorization-grant", || {
            format!("{o} for {req}")
        });
        if with_pre {
            let code = g[PRE]["pre-authorized_code"].as_str().unwrap_or_default().to_string();
            rep.check(code.len() >= 20, "pre-authorized-code-short", || code.clone());
            rep.check(seen.insert(code.clone()), "pre-authorized-code-repeated", || code.clone());
            let def = &g[PRE]["tx_code"];
            rep.check(def.is_object() == f.tx_required, "tx-code-announced", || format!("{o} {why}"));
            if let (Some(tx), true) = (&tx, def.is_object()) {
                rep.count("tx_codes");
                rep.check(!o.to_string().contains(&format!("\"{tx}\"")), "tx-code-leaked-in-offer", || format!("{o}"));
                let len_ok = def["length"].is_null() || def["length"] == json!(tx.chars().count());
                let num_ok = def["input_mode"] == "text" || tx.chars().all(|c| c.is_ascii_digit());
                let mode_ok = def["input_mode"].is_null() || def["input_mode"] == "numeric" || def["input_mode"] == "text";
                rep.check(len_ok && num_ok && mode_ok && !tx.is_empty(), "tx-code-not-as-announced", || format!("{tx} {def}"));
            }
        }
        if with_auth {
            let st = g["authorization_code"]["issuer_state"].as_str().unwrap_or_default();
            rep.check(st.len() >= 20, "issuer-state-short", || st.to_string());
        }
        let servers = s.w.with(|w| w.issuers[&s.issuer]["authorization_servers"].clone());
        for gname in [PRE, "authorization_code"] {
            if g[gname].is_object() {
                let a = &g[gname]["authorization_server"];
                let ok = match servers.as_array() {
                    Some(list) if !list.is_empty() => list.contains(a),
                    _ => a.is_null(),
                };
                rep.check(ok, "offer-authorization-server", || format!("{o} {servers}"));
            }
        }
    }
    rep.require("invalid_offer_requests", n / 6);
    rep.require("offers_fetched", n / 20);
    rep.require("tx_codes", n / 40);
    rep.finish(
        "distinct = validity class, grants, tx code and send type of the offer request; every valid request is followed to the offer the wallet sees",
        ASSUME,
    )
}

// ------------------------------------------------------- P16 authorization

fn authorization(mut rep: Report) -> ! {
    let n = rep.n(7500, 40_000);
    let mut codes: HashSet<String> = HashSet::new();
    for i in rep.cases(n) {
        let (mut r, mut s) = start(&mut rep, i, 0x16);
        let mut f = Flow::new(&s, &mut r);
        f.pre = false;
        let via_offer = r.chance(1, 2);
        if via_offer {
            if let Err(e) = f.offer(&s, &mut r) {
                rep.violation("valid-offer-refused", e);
                continue;
            }
        }
        let par_required = r.chance(1, 4);
        if par_required {
            s.w.with(|w| w.servers.get_mut(&s.issuer).unwrap()["require_pushed_authorization_requests"] = json!(true));
        }
        let mut req = f.authorize_request(&s, &mut r);
        let valid = req.clone();
        let push = par_required || r.chance(1, 3);
        let mut bad: Option<&str> = None;
        let mut par_bad: Option<&str> = None;
        match r.below(42) {
            0 => {
                req["client_id"] = json!(mangle(&mut r, &f.client));
                bad = Some("unknown client");
            }
            1 => {
                s.w.with(|w| w.clients.get_mut(&f.client).unwrap()["grant_types"] = json!([PRE]));
                bad = Some("client lacks grant");
            }
            2 => {
                s.w.with(|w| w.servers.get_mut(&s.issuer).unwrap()["grant_types_supported"] = json!([PRE]));
                bad = Some("server lacks grant");
            }
            3 => {
                req["redirect_uri"] = json!(mangle(&mut r, &f.redirect));
                bad = Some("unregistered redirect");
            }
            4 => {
                // another client's address
                let other = s.clients.iter().find(|c| **c != f.client).unwrap();
                req["redirect_uri"] = json!(s.redirect_uris(other)[0]);
                bad = Some("redirect of another client");
            }
            5 => {
                req.as_object_mut().unwrap().remove("redirect_uri");
                bad = Some("no redirect");
            }
            6 => {
                req["response_type"] = json!(*r.pick(&["vp_token", "id_token vp_token"]));
                bad = Some("response type unsupported by both");
            }
            7 => {
                req["response_type"] = json!("vp_token");
                s.w.with(|w| {
                    w.servers.get_mut(&s.issuer).unwrap()["response_types_supported"] = json!(["code", "vp_token"])
                });
                bad = Some("response type unsupported by client");
            }
            8 => {
                req["response_type"] = json!("vp_token");
                s.w.with(|w| {
                    w.servers.get_mut(&s.issuer).unwrap()["response_types_supported"] = json!(["code"]);
                    w.clients.get_mut(&f.client).unwrap()["response_types"] = json!(["code", "vp_token"]);
                });
                bad = Some("response type unsupported by server");
            }
            9 => {
                let len = *r.pick(&[0, 1, 42, 129, 200]);
                req["code_challenge"] = json!("A".repeat(len));
                bad = Some("challenge length");
            }
            10 => {
                s.w.with(|w| {
                    w.servers.get_mut(&s.issuer).unwrap().as_object_mut().unwrap().remove("code_challenge_methods_supported")
                });
                bad = Some("challenge method unsupported");
            }
            11 => {
                req["subject_id"] = json!("");
                bad = Some("no subject");
            }
            12 if via_offer => {
                let others: Vec<&String> = s.subjects.iter().filter(|x| **x != f.subject).collect();
                req["subject_id"] = json!(others[r.below(others.len())]);
                bad = Some("subject differs from offer");
            }
            28 => {
                // an offer that names no subject is nobody's
                let mut q = f.offer_request(&s, &mut r);
                q["grant_types"] = json!(["authorization_code"]);
                q["send_type"] = json!("ByVal");
                q.as_object_mut().unwrap().remove("subject_id");
                let o = s.create_offer(q.clone());
                let why = o.why();
                let Some(o) = o.ok() else {
                    rep.violation("valid-offer-refused", format!("{q} {why}"));
                    continue;
                };
                let o = serde_json::to_value(&o).unwrap();
                let st = &o["credential_offer"]["grants"]["authorization_code"]["issuer_state"];
                if !st.is_string() {
                    rep.violation("offer-without-issuer-state", format!("{o}"));
                    continue;
                }
                req["issuer_state"] = st.clone();
                bad = Some("offer without subject");
            }
            13 => {
                req["issuer_state"] = json!(mangle(&mut r, f.issuer_state.as_deref().unwrap_or("unknown")));
                bad = Some("unknown issuer_state");
            }
            14 if via_offer => {
                clock::advance(303 + r.below(4000) as i64);
                bad = Some("offer expired");
            }
            15 if via_offer => {
                // the offer was used before
                let first = if par_required {
                    s.par(req.clone()).ok().map(|p| json!({"client_id": f.client, "request_uri": p.request_uri}))
                } else {
                    Some(req.clone())
                };
                let used = first.map(|q| s.authorize(q));
                if used.as_ref().is_some_and(Out::is_ok) {
                    bad = Some("offer already used");
                } else {
                    rep.violation("valid-authorization-refused", format!("{req} {:?}", used.map(|u| u.why())));
                    continue;
                }
            }
            16 => {
                let m = req.as_object_mut().unwrap();
                m.remove("scope");
                m.remove("authorization_details");
                // or a list, or a scope, that names nothing
                match r.below(4) {
                    0 => drop(m.insert("authorization_details".into(), json!([]))),
                    1 => drop(m.insert("scope".into(), json!(*r.pick(&["", " ", "\t", "   "])))),
                    2 if r.chance(1, 2) => {
                        m.insert("authorization_details".into(), json!([]));
                        m.insert("scope".into(), json!(*r.pick(&["", " "])));
                    }
                    _ => {}
                }
                bad = Some("nothing requested");
            }
            17 => {
                req["scope"] = json!(*r.pick(&["no-such", "openid", "no-such openid", "~"]));
                bad = Some("unsupported scope");
            }
            18 | 19 => {
                let allowed = s.allowed(&f.subject);
                if let Some(c) = s.cfgs.iter().find(|c| !allowed.contains_key(&c.id)) {
                    let mut d = req["authorization_details"].as_array().cloned().unwrap_or_default();
                    let mut x = json!({"type": "openid_credential"});
                    if r.chance(1, 2) {
                        x["credential_configuration_id"] = json!(c.id);
                    } else {
                        merge(&mut x, &c.format(None));
                    }
                    d.insert(r.below(d.len() + 1), x);
                    req["authorization_details"] = json!(d);
                    bad = Some("subject not authorized for a detail");
                }
            }
            20 => {
                let mut d = req["authorization_details"].as_array().cloned().unwrap_or_default();
                let id = unsupported(&mut r, &s, &s.cfgs[0].id);
                d.push(json!({"type": "openid_credential", "credential_configuration_id": id}));
                req["authorization_details"] = json!(d);
                bad = Some("unknown configuration");
            }
            21 => {
                let mut d = req["authorization_details"].as_array().cloned().unwrap_or_default();
                d.push(json!({"type": "openid_credential", "format": "jwt_vc_json",
                    "credential_definition": {"type": ["VerifiableCredential", "NoSuch"]}}));
                req["authorization_details"] = json!(d);
                bad = Some("unknown format profile");
            }
            22 | 23 => {
                // leave out a mandatory claim
                let allowed = s.allowed(&f.subject);
                let c = s.cfgs.iter().find(|c| allowed.contains_key(&c.id) && !c.mdl && !c.mandatory().is_empty());
                if let Some(c) = c {
                    let must = c.mandatory();
                    let drop = must.iter().nth(r.below(must.len())).unwrap().clone();
                    let mut m = Map::new();
                    for (k, v) in c.claims.as_object().unwrap() {
                        if *k != drop {
                            m.insert(k.clone(), v.clone());
                        }
                    }
                    let mut x = json!({"type": "openid_credential"});
                    if r.chance(1, 2) {
                        x["credential_configuration_id"] = json!(c.id);
                        x["credential_definition"] = json!({"credentialSubject": m});
                    } else {
                        merge(&mut x, &c.format(Some(&Value::Object(m))));
                    }
                    req["authorization_details"] = json!([x]);
                    bad = Some("mandatory claim left out");
                }
            }
            24 | 25 => {
                let allowed = s.allowed(&f.subject);
                if let Some(c) = s.cfgs.iter().find(|c| allowed.contains_key(&c.id) && !c.mdl) {
                    let mut m = c.claims.clone();
                    m["not_a_claim"] = json!({});
                    let mut x = json!({"type": "openid_credential"});
                    if r.chance(1, 2) {
                        x["credential_configuration_id"] = json!(c.id);
                        x["credential_definition"] = json!({"credentialSubject": m});
                    } else {
                        merge(&mut x, &c.format(Some(&m)));
                    }
                    req["authorization_details"] = json!([x]);
                    bad = Some("unsupported claim");
                }
            }
            26 => {
                req["credential_issuer"] = json!(mangle(&mut r, &s.issuer));
                bad = Some("unknown issuer");
            }
            27 => {
                match r.below(4) {
                    0 => {
                        s.w.with(|w| w.clients.get_mut(&f.client).unwrap().as_object_mut().unwrap().remove("scope"));
                        bad = Some("client without scope");
                    }
                    1 => {
                        s.w.with(|w| {
                            w.servers.get_mut(&s.issuer).unwrap().as_object_mut().unwrap().remove("scopes_supported")
                        });
                        bad = Some("server without scopes");
                    }
                    _ => {
                        let sc = *r.pick(&["openid credential admin", "admin openid", "openid admin credential", "admin"]);
                        s.w.with(|w| w.clients.get_mut(&f.client).unwrap()["scope"] = json!(sc));
                        bad = Some("client scope exceeds server's");
                    }
                }
            }
            _ => {
                if push {
                    par_bad = match r.below(8) {
                        0 => Some("unknown request_uri"),
                        1 => Some("expired request_uri"),
                        2 if via_offer => Some("request_uri of another kind"),
                        3 => Some("request_uri used before"),
                        _ => None,
                    };
                } else if r.chance(1, 4) {
                    s.w.with(|w| {
                        w.servers.get_mut(&s.issuer).unwrap()["require_pushed_authorization_requests"] = json!(true)
                    });
                    bad = Some("not pushed although required");
                }
            }
        }
        let cls = format!("{:?} {:?} push={push} offer={via_offer} scope={}", bad, par_bad, f.scope.is_some());
        rep.eval(&format!("{cls} {}", text(&f.granted)), true);
        let before = s.w.snapshot();
        if push && bad != Some("not pushed although required") {
            let p = s.par(req.clone());
            if let (Some(_), false) = (bad, p.is_ok()) {
                rep.count("invalid_pushed_requests");
                rep.saw("kinds_refused", bad.unwrap());
                rep.check(s.w.snapshot() == before, "refused-request-left-state", || format!("{req} {}", p.why()));
                continue;
            }
            if let Some(b) = bad {
                rep.saw("kinds_refused_after_the_push", b);
                // what is wrong for any subject and offer is wrong when pushed
                let plain = ["client", "redirect", "response type", "challenge", "grant", "unsupported scope", "server without scopes"];
                rep.check(!plain.iter().any(|k| b.contains(k)), "unsound-request-pushed", || format!("{b}: {req}"));
            }
            // what the endpoint cannot see yet may be refused when the request is used
            let why = p.why();
            let Some(p) = p.ok() else {
                let sig = if par_required { "valid-push-refused-when-required" } else { "valid-push-refused" };
                rep.violation(sig, format!("{req} {why}"));
                continue;
            };
            rep.count("requests_pushed");
            rep.check(
                p.request_uri.starts_with("urn:ietf:params:oauth:request_uri:") && (5..=600).contains(&p.expires_in),
                "push-response-form",
                || text(&p),
            );
            rep.check(codes.insert(p.request_uri.clone()), "request-uri-repeated", || p.request_uri.clone());
            let uri = match par_bad {
                Some("unknown request_uri") => mangle(&mut r, &p.request_uri),
                Some("request_uri of another kind") => f.issuer_state.clone().unwrap(),
                Some("expired request_uri") => {
                    clock::advance(p.expires_in + 3);
                    p.request_uri.clone()
                }
                _ => p.request_uri.clone(),
            };
            if par_bad.is_none() && !via_offer {
                clock::advance(r.below(p.expires_in as usize - 3) as i64);
            }
            req = json!({"client_id": f.client, "request_uri": uri});
            if par_bad == Some("request_uri used before") {
                let first = s.authorize(req.clone());
                rep.check(first.is_ok(), "valid-authorization-refused", || format!("{valid} {}", first.why()));
            }
            if uri.is_empty() {
                continue;
            }
        }
        let before = s.w.snapshot();
        let out = s.authorize(req.clone());
        if let Some(b) = bad.or(par_bad) {
            rep.count("invalid_requests");
            rep.saw("kinds_refused", b);
            rep.check(!out.is_ok(), &format!("authorized-{}", b.replace(' ', "-")), || format!("{req} / {valid}"));
            if !out.is_ok() {
                rep.check(s.w.snapshot() == before, "refused-request-left-state", || format!("{req} {}", out.why()));
            }
            continue;
        }
        rep.count("valid_requests");
        let why = out.why();
        let Some(resp) = out.ok() else {
            rep.violation("valid-authorization-refused", format!("{valid} {why}"));
            continue;
        };
        rep.check(codes.insert(resp.code.clone()) && resp.code.len() >= 20, "code-repeated-or-short", || {
            resp.code.clone()
        });
        rep.check(json!(resp.state) == valid["state"], "state-not-echoed", || text(&resp));
        rep.check(resp.redirect_uri == f.redirect, "redirect-not-the-requested", || text(&resp));
        // what the code stands for: exactly the authorized credentials
        f.code = resp.code;
        s.w.with(|w| w.servers.get_mut(&s.issuer).unwrap()["require_pushed_authorization_requests"] = json!(false));
        match f.token(&s) {
            Ok(t) => {
                granted_is_exact(&mut rep, &s, &f, &t, &valid);
                opens_exactly(&mut rep, &s, &mut f, &valid);
            }
            Err(e) => rep.violation("authorized-code-refused", format!("{valid} {e}")),
        }
        s.cfgs.clear();
    }
    rep.require("invalid_requests", n / 6);
    rep.require("valid_requests", n / 10);
    rep.require("requests_pushed", n / 40);
    rep.require("granted_requests", n / 10);
    rep.require("ungranted_requests", n / 40);
    rep.finish(
        "distinct = kind of defect planted in the request (or none), route (pushed, from an offer) and credentials requested",
        ASSUME,
    )
}

/// The token response names the identifiers the subject is allowed, for the
/// details requested, and nothing else.
fn granted_is_exact(rep: &mut Report, s: &Setup, f: &Flow, t: &oi::TokenResponse, req: &Value) {
    rep.count("grants_compared");
    let v = serde_json::to_value(t).unwrap();
    let allowed = s.allowed(&f.subject);
    let by_scope: BTreeSet<String> = s
        .cfgs
        .iter()
        .filter(|c| f.by_scope(c) && !f.in_details(&c.id))
        .map(|c| c.id.clone())
        .collect();
    let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for d in v["authorization_details"].as_array().unwrap_or(&vec![]) {
        let id = if let Some(id) = d["credential_configuration_id"].as_str() {
            id.to_string()
        } else {
            let hit = s.cfgs.iter().find(|c| {
                let fm = c.format(None);
                fm["format"] == d["format"]
                    && if c.mdl {
                        d["doctype"] == fm["doctype"]
                    } else {
                        d["credential_definition"]["type"] == fm["credential_definition"]["type"]
                    }
            });
            match hit {
                Some(c) => c.id.clone(),
                None => {
                    rep.violation("granted-unknown-detail", format!("{d} for {req}"));
                    continue;
                }
            }
        };
        // as it was asked for
        if !f.pre {
            let mut asked = d.clone();
            asked.as_object_mut().unwrap().remove("credential_identifiers");
            rep.check(
                f.details.as_array().is_some_and(|l| l.iter().any(|x| *x == asked)),
                "granted-detail-altered",
                || format!("{asked} for {req}"),
            );
        }
        let ids = d["credential_identifiers"].as_array().cloned().unwrap_or_default();
        got.entry(id).or_default().extend(ids.iter().filter_map(|x| x.as_str().map(String::from)));
    }
    for (c, ids) in &f.granted {
        if by_scope.contains(c) && !got.contains_key(c) {
            continue; // scope grants are not listed in the response
        }
        let want: BTreeSet<String> = ids.iter().cloned().collect();
        rep.check(got.get(c) == Some(&want), "granted-differs", || {
            format!("{c}: want {want:?}, got {:?} in {v} for {req}", got.get(c))
        });
    }
    rep.check(
        v["authorization_details"].as_array().map_or(0, Vec::len) == got.len(),
        "detail-granted-twice",
        || format!("{v} for {req}"),
    );
    for (c, ids) in &got {
        let ok = f.granted.contains_key(c)
            && ids.iter().all(|i| allowed.get(c).is_some_and(|a| a.contains(i)));
        rep.check(ok, "granted-more-than-asked", || format!("{c} {ids:?} for {req}"));
    }
}

/// The token opens what was granted and nothing else of the subject's.
fn opens_exactly(rep: &mut Report, s: &Setup, f: &mut Flow, req: &Value) {
    let all: Vec<(String, String)> = s
        .allowed(&f.subject)
        .iter()
        .flat_map(|(c, ids)| ids.iter().map(|i| (c.clone(), i.clone())).collect::<Vec<_>>())
        .collect();
    for (c, ident) in all {
        let cfg = s.cfg(&c);
        if cfg.proof == ProofReq::OtherOnly {
            continue;
        }
        let o = s.credential(f.credential_request(&s, &ident));
        let granted = f.granted.contains_key(&c);
        rep.count(if granted { "granted_requests" } else { "ungranted_requests" });
        rep.check(o.is_ok() == granted, if granted { "granted-credential-refused" } else { "ungranted-credential-issued" }, || {
            format!("{ident} with token for {req}: {}", o.why())
        });
        if let Out::Ok(c) = o {
            f.take_nonce(&c);
        }
    }
}

// ------------------------------------------------------------- P17 token

fn tokens(mut rep: Report) -> ! {
    let n = rep.n(7500, 40_000);
    let mut secrets: HashSet<String> = HashSet::new();
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x17);
        let mut f = Flow::new(&s, &mut r);
        if let Err(e) = f.up_to_code(&s, &mut r) {
            rep.violation("valid-flow-refused", e);
            continue;
        }
        let mut req = f.token_request(&s);
        let mut bad: Option<&str> = None;
        let mut expect = f.clone();
        let pick = r.below(26);
        match pick {
            0 if !f.pre => {
                req["code_verifier"] = json!(mangle(&mut r, &f.verifier));
                bad = Some("wrong verifier");
            }
            1 if !f.pre => {
                req["code_verifier"] = json!(challenge(&f.verifier));
                bad = Some("challenge as verifier");
            }
            2 if !f.pre => {
                req.as_object_mut().unwrap().remove("code_verifier");
                bad = Some("no verifier");
            }
            3 if !f.pre => {
                req["redirect_uri"] = json!(mangle(&mut r, &f.redirect));
                bad = Some("other redirect");
            }
            4 if !f.pre => {
                req.as_object_mut().unwrap().remove("redirect_uri");
                bad = Some("no redirect");
            }
            5 | 6 if !f.pre => {
                // another registered client that has got hold of code and verifier
                // (perhaps one with nearly the same name)
                let other = match r.below(3) {
                    0 => s.clients.iter().find(|c| **c != f.client).unwrap().clone(),
                    _ => {
                        let twin = mangle(&mut r, &f.client);
                        if twin.is_empty() || twin == f.client {
                            continue;
                        }
                        s.w.with(|w| {
                            let mut v = w.clients[&f.client].clone();
                            v["client_id"] = json!(twin);
                            w.clients.insert(twin.clone(), v);
                        });
                        twin
                    }
                };
                req["client_id"] = json!(other);
                bad = Some("other client");
            }
            7 if !f.pre => {
                req.as_object_mut().unwrap().remove("client_id");
                bad = Some("no client");
            }
            0 | 1 if f.pre && f.tx_required => {
                let t = f.tx_code.clone().unwrap_or_default();
                let m = match r.below(4) {
                    0 => format!("{:06}", (t.parse::<u32>().unwrap_or(1) + 1) % 1_000_000),
                    1 => "000000".into(),
                    _ => mangle(&mut r, &t),
                };
                if m == t {
                    continue;
                }
                req["tx_code"] = json!(m);
                bad = Some("wrong tx_code");
            }
            2 | 3 if f.pre && f.tx_required => {
                req.as_object_mut().unwrap().remove("tx_code");
                bad = Some("no tx_code");
            }
            4 if f.pre && !f.tx_required => {
                // not asked for: nothing is said about it
            }
            5 if f.pre && !s.anonymous => {
                if r.chance(1, 2) {
                    req.as_object_mut().unwrap().remove("client_id");
                } else {
                    req["client_id"] = json!("");
                }
                bad = Some("anonymous although not allowed");
            }
            6 if f.pre && s.anonymous => {
                req.as_object_mut().unwrap().remove("client_id");
                rep.count("anonymous_requests");
            }
            8 => {
                // an empty client id is no client id, judged above
                let id = mangle(&mut r, &f.client);
                let id = match r.below(4) {
                    0 => r.pick(&[" ", "\t", "null", "*", "undefined"]).to_string(),
                    _ => id,
                };
                req["client_id"] = json!(if id.is_empty() { "x".into() } else { id });
                bad = Some("unknown client");
            }
            9 => {
                clock::advance(303 + r.below(4000) as i64);
                bad = Some("code expired");
            }
            10 => {
                let k = if f.pre { "pre-authorized_code" } else { "code" };
                req[k] = json!(mangle(&mut r, &f.code));
                bad = Some("unknown code");
            }
            11 => {
                // the code of one kind of grant used as the other
                let v = json!({"credential_issuer": s.issuer, "client_id": f.client});
                req = v;
                if f.pre {
                    req["grant_type"] = json!("authorization_code");
                    req["code"] = json!(f.code);
                    req["redirect_uri"] = json!(f.redirect);
                    req["code_verifier"] = json!(f.verifier);
                } else {
                    req["grant_type"] = json!(PRE);
                    req["pre-authorized_code"] = json!(f.code);
                }
                bad = Some("code of the other grant");
            }
            12 if !f.pre => {
                // an authorization-code offer's issuer_state is no code
                let mut g = Flow::new(&s, &mut r);
                g.pre = false;
                if g.offer(&s, &mut r).is_err() {
                    continue;
                }
                req = json!({"credential_issuer": s.issuer, "client_id": f.client, "grant_type": PRE,
                    "pre-authorized_code": g.issuer_state});
                bad = Some("issuer_state as pre-authorized code");
            }
            13 => {
                let drop = if f.pre { "authorization_code" } else { PRE };
                s.w.with(|w| w.servers.get_mut(&s.issuer).unwrap()["grant_types_supported"] = json!([drop]));
                bad = Some("grant not supported");
            }
            14 => {
                req["credential_issuer"] = json!(mangle(&mut r, &s.issuer));
                bad = Some("unknown issuer");
            }
            15..=17 if f.pre => {
                // ask for part of what was authorized
                let keep = r.range(1, f.wanted.len());
                let mut part = f.wanted.clone();
                r.shuffle(&mut part);
                part.truncate(keep);
                let d: Vec<Value> = part
                    .iter()
                    .map(|c| json!({"type": "openid_credential", "credential_configuration_id": c}))
                    .collect();
                req["authorization_details"] = json!(d);
                expect.granted.retain(|c, _| part.contains(c));
                rep.count("narrowed_requests");
            }
            20 if f.pre => {
                // claims the configuration does not have, or without one that must be there
                let picked = r.pick(&f.wanted).clone();
                let c = s.cfg(&picked);
                let must = c.mandatory();
                let mut m = c.claims.clone();
                if must.is_empty() || c.mdl || r.chance(1, 2) {
                    if c.mdl {
                        let ns = m.as_object().unwrap().keys().next().cloned();
                        match ns {
                            Some(ns) if r.chance(1, 2) => m[&ns]["not_a_claim"] = json!({}),
                            _ => m["not.a.namespace"] = json!({"x": {}}),
                        }
                    } else {
                        m["not_a_claim"] = json!({});
                    }
                } else {
                    let drop = must.iter().nth(r.below(must.len())).unwrap();
                    m.as_object_mut().unwrap().remove(drop);
                }
                let mut x = json!({"type": "openid_credential", "credential_configuration_id": c.id});
                if c.mdl {
                    x["claims"] = m;
                } else {
                    x["credential_definition"] = json!({"credentialSubject": m});
                }
                let empty = !c.mdl && x["credential_definition"]["credentialSubject"] == json!({});
                let mut d: Vec<Value> = f
                    .wanted
                    .iter()
                    .filter(|w| **w != c.id)
                    .map(|c| json!({"type": "openid_credential", "credential_configuration_id": c}))
                    .collect();
                d.insert(r.below(d.len() + 1), x);
                if !empty {
                    req["authorization_details"] = json!(d);
                    bad = Some("claims that cannot be authorized");
                }
            }
            18..=20 if f.pre => {
                let spare: Vec<&Cfg> = s.cfgs.iter().filter(|c| !f.wanted.contains(&c.id)).collect();
                if let Some(c) = spare.first() {
                    let mut d = vec![json!({"type": "openid_credential", "credential_configuration_id": c.id})];
                    if r.chance(1, 2) {
                        d.insert(0, json!({"type": "openid_credential", "credential_configuration_id": f.wanted[0]}));
                    }
                    req["authorization_details"] = json!(d);
                    bad = Some("detail never authorized");
                }
            }
            21 => clock::advance(r.below(296) as i64),
            22 => {
                match r.below(4) {
                    0 => {
                        s.w.with(|w| w.clients.get_mut(&f.client).unwrap().as_object_mut().unwrap().remove("scope"));
                    }
                    1 => {
                        s.w.with(|w| {
                            w.servers.get_mut(&s.issuer).unwrap().as_object_mut().unwrap().remove("scopes_supported")
                        });
                    }
                    _ => {
                        let sc = *r.pick(&["openid admin", "admin openid", "admin", "credential admin openid"]);
                        s.w.with(|w| w.clients.get_mut(&f.client).unwrap()["scope"] = json!(sc));
                    }
                }
                bad = Some("client scope exceeds server's");
            }
            _ => {}
        }
        rep.eval(&format!("{bad:?} {pick} pre={} tx={} {}", f.pre, f.tx_required, text(&f.granted)), true);
        let before: BTreeSet<String> = s.w.snapshot().keys().cloned().collect();
        let out = s.token(req.clone());
        if let Some(b) = bad {
            rep.count("invalid_requests");
            rep.saw("kinds_refused", b);
            rep.check(!out.is_ok(), &format!("token-for-{}", b.replace(' ', "-")), || format!("{req}"));
            if !out.is_ok() {
                let after: BTreeSet<String> = s.w.snapshot().keys().cloned().collect();
                rep.check(after.is_subset(&before), "refused-token-left-state", || format!("{req} {}", out.why()));
            }
            continue;
        }
        rep.count("valid_requests");
        let why = out.why();
        let Some(t) = out.ok() else {
            let sig = if req.get("client_id").is_none() { "valid-anonymous-token-refused" } else { "valid-token-refused" };
            rep.violation(sig, format!("{req} {why}"));
            continue;
        };
        let v = serde_json::to_value(&t).unwrap();
        rep.check(v["token_type"] == "Bearer" && t.expires_in > 0, "token-response-form", || format!("{v}"));
        for x in [Some(t.access_token.clone()), t.c_nonce.clone()].into_iter().flatten() {
            rep.check(x.len() >= 16 && secrets.insert(x.clone()), "token-or-nonce-repeated-or-short", || x.clone());
        }
        rep.check(t.c_nonce.is_some() && t.c_nonce_expires_in.is_some(), "no-nonce", || format!("{v}"));
        granted_is_exact(&mut rep, &s, &expect, &t, &req);
        // the token opens exactly what was granted
        expect.take_token(&t);
        opens_exactly(&mut rep, &s, &mut expect, &req);
    }
    rep.require("invalid_requests", n / 6);
    rep.require("valid_requests", n / 10);
    rep.require("granted_requests", n / 10);
    rep.require("narrowed_requests", n / 100);
    rep.finish(
        "distinct = kind of defect planted in the token request (or none), grant, tx code, credentials; after success every identifier of the subject is requested",
        ASSUME,
    )
}

// -------------------------------------------------------- P18 single use

fn single_use(mut rep: Report) -> ! {
    let n = rep.n(6000, 20_000);
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x18);
        let kind = r.below(6);
        let mut f = Flow::new(&s, &mut r);
        match kind {
            // a code exchanged once is dead, whatever came first
            0 | 1 => {
                if let Err(e) = f.up_to_code(&s, &mut r) {
                    rep.violation("valid-flow-refused", e);
                    continue;
                }
                let req = f.token_request(&s);
                let mut oks = 0;
                let tries = r.range(2, 5);
                let mut hist = vec![];
                for t in 0..tries {
                    if r.chance(1, 3) {
                        clock::advance(r.below(120) as i64);
                    }
                    // unrelated traffic between attempts
                    if r.chance(1, 3) {
                        let mut g = Flow::new(&s, &mut r);
                        let _ = g.up_to_token(&s, &mut r);
                    }
                    let o = s.token(req.clone());
                    hist.push(format!("{t}:{}", o.why()));
                    oks += u32::from(o.is_ok());
                }
                rep.eval(&format!("replay {tries} pre={} {}", f.pre, text(&f.granted)), true);
                rep.count("sequential_replays");
                rep.check(oks == 1, if oks == 0 { "valid-token-refused" } else { "code-used-twice" }, || format!("{hist:?}"));
            }
            // the purge of a code fails: no token may come out of it
            2 => {
                if let Err(e) = f.up_to_code(&s, &mut r) {
                    rep.violation("valid-flow-refused", e);
                    continue;
                }
                let req = f.token_request(&s);
                let k = r.below(8);
                s.w.with(|w| {
                    w.fail_at = Some(k);
                    w.fail_text = "store is down".into();
                });
                let a = s.token(req.clone());
                let hit = s.w.with(|w| {
                    let hit = w.fail_at.is_none();
                    w.fail_at = None;
                    hit
                });
                let b = s.token(req.clone());
                let c = s.token(req.clone());
                let oks = [&a, &b, &c].iter().filter(|o| o.is_ok()).count();
                rep.eval(&format!("fault {k} {hit} pre={}", f.pre), true);
                rep.count("replays_with_fault");
                rep.check(oks <= 1, "code-used-twice-after-fault", || {
                    format!("fault at operation {k}: {} / {} / {}", a.why(), b.why(), c.why())
                });
                rep.check(!(hit && a.is_ok()), "token-despite-fault", || format!("fault at operation {k}"));
            }
            // concurrent exchange of one code
            3 => {
                if let Err(e) = f.up_to_code(&s, &mut r) {
                    rep.violation("valid-flow-refused", e);
                    continue;
                }
                let m = r.range(2, 3);
                let q = f.token_request(&s);
                let tasks: Vec<exec::Task<bool>> = (0..m)
                    .map(|_| {
                        let (w, q) = (s.w.clone(), serde_json::from_value(q.clone()).unwrap());
                        Box::pin(async move { vercre_issuer::token(w, q).await.is_ok() }) as exec::Task<bool>
                    })
                    .collect();
                let (oks, schedule) = exec::interleave(tasks, |live| r.below(live.len()));
                let ok = oks.iter().filter(|b| **b).count();
                rep.eval(&format!("concurrent {schedule:?}"), true);
                rep.saw("schedules", &format!("{schedule:?}"));
                rep.count("concurrent_exchanges");
                // did any request start after another one had finished reading and purging?
                rep.check(ok <= 1, "concurrent-code-exchange", || format!("{ok} tokens for one code, schedule {schedule:?}"));
                rep.check(ok >= 1, "concurrent-exchange-all-refused", || format!("schedule {schedule:?}"));
                let again = s.token(q);
                rep.check(!again.is_ok(), "code-used-after-concurrent-exchange", || format!("{schedule:?}"));
            }
            // independent codes exchanged concurrently do not disturb each other
            4 => {
                let mut flows = vec![];
                for _ in 0..r.range(2, 4) {
                    let mut g = Flow::new(&s, &mut r);
                    match g.up_to_code(&s, &mut r) {
                        Ok(()) => flows.push(g),
                        Err(e) => rep.violation("valid-flow-refused", e),
                    }
                }
                let tasks: Vec<exec::Task<Option<oi::TokenResponse>>> = flows
                    .iter()
                    .map(|g| {
                        let (w, q) = (s.w.clone(), serde_json::from_value(g.token_request(&s)).unwrap());
                        Box::pin(async move { vercre_issuer::token(w, q).await.ok() }) as exec::Task<_>
                    })
                    .collect();
                let (outs, schedule) = exec::interleave(tasks, |live| r.below(live.len()));
                rep.eval(&format!("independent {schedule:?}"), true);
                rep.saw("schedules", &format!("{schedule:?}"));
                let mut tokens = BTreeSet::new();
                for (g, o) in flows.iter().zip(outs) {
                    rep.count("independent_exchanges");
                    match o {
                        Some(t) => {
                            rep.check(tokens.insert(t.access_token.clone()), "token-shared", || t.access_token.clone());
                            granted_is_exact(&mut rep, &s, g, &t, &json!(g.subject));
                        }
                        None => rep.violation("independent-exchange-refused", format!("{schedule:?}")),
                    }
                }
            }
            // stored offers: one retrieval
            _ => {
                let mut req = f.offer_request(&s, &mut r);
                req["send_type"] = json!("ByRef");
                let Some(o) = s.create_offer(req.clone()).ok() else {
                    rep.violation("valid-offer-refused", format!("{req}"));
                    continue;
                };
                let oi::OfferType::Uri(uri) = o.offer_type else {
                    rep.violation("send-type-ignored", format!("{req}"));
                    continue;
                };
                let id = uri.rsplit('/').next().unwrap().to_string();
                let get = json!({"credential_issuer": s.issuer, "id": id});
                let k = r.below(4);
                let faulty = r.chance(1, 2);
                if faulty {
                    s.w.with(|w| {
                        w.fail_at = Some(k);
                        w.fail_text = "store is down".into();
                    });
                }
                let a = s.credential_offer(get.clone());
                let hit = faulty && s.w.with(|w| w.fail_at.take().is_none());
                let b = s.credential_offer(get.clone());
                let c = s.credential_offer(get);
                let oks = [&a, &b, &c].iter().filter(|o| o.is_ok()).count();
                rep.eval(&format!("offer faulty={faulty} {k}"), true);
                rep.count("offer_replays");
                rep.check(oks <= 1, "offer-retrieved-twice", || format!("{} / {} / {}", a.why(), b.why(), c.why()));
                rep.check(hit || a.is_ok(), "stored-offer-not-fetched", || a.why());
            }
        }
    }
    rep.require("sequential_replays", n / 10);
    rep.require("replays_with_fault", n / 20);
    rep.require("concurrent_exchanges", n / 20);
    rep.require("independent_exchanges", n / 10);
    rep.require("offer_replays", n / 20);
    rep.finish(
        "distinct = replay history (number of attempts, injected fault position) or schedule of concurrent requests (which request performs its next provider operation)",
        ASSUME,
    )
}

// ----------------------------------------------------------- P19 access

fn signed(s: &Setup) -> bool {
    let kid = s.key.kid();
    s.w.with(|w| w.ops.iter().any(|o| matches!(o, Op::Sign(k) if *k == kid)))
}

fn access(mut rep: Report) -> ! {
    let n = rep.n(7500, 40_000);
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x19);
        let mut f = Flow::new(&s, &mut r);
        if let Err(e) = f.up_to_token(&s, &mut r) {
            rep.violation("valid-flow-refused", e);
            continue;
        }
        let items = f.items();
        let (cid, ident) = r.pick(&items).clone();
        let mut req = f.credential_request(&s, &ident);
        let kind = r.below(16);
        let mut bad: Option<&str> = None;
        match kind {
            0 => {
                req["access_token"] = json!(mangle(&mut r, &f.access_token));
                bad = Some("unknown token");
            }
            1 => {
                req.as_object_mut().unwrap().remove("access_token");
                bad = Some("no token");
            }
            2 => {
                if r.chance(1, 2) {
                    // busy until near its end: use does not prolong it
                    let rounds = r.range(1, 4);
                    for _ in 0..rounds {
                        clock::advance((895 / rounds) as i64 - r.below(40) as i64);
                        let mut q = f.credential_request(&s, &ident);
                        if r.chance(1, 3) {
                            q["proof"]["jwt"] = json!("no.proof.atall");
                        }
                        match s.credential(q) {
                            Out::Ok(c) => f.take_nonce(&c),
                            Out::Err(e) => {
                                let e: Value = serde_json::from_str(&e.to_string()).unwrap_or_default();
                                if let Some(x) = e["c_nonce"].as_str() {
                                    f.c_nonce = x.into();
                                }
                            }
                            _ => {}
                        }
                    }
                    rep.count("busy_tokens");
                }
                let age = clock::now() - f.token_at;
                clock::advance(903 - age + if r.chance(1, 2) { r.below(20) } else { r.below(4000) } as i64);
                req = f.credential_request(&s, &ident);
                bad = Some("token expired");
            }
            3 => {
                // an identifier nobody granted
                req["credential_identifier"] = json!(mangle(&mut r, &ident));
                bad = Some("unknown identifier");
            }
            4 | 5 => {
                // an identifier that exists but was not granted to this token
                let all: BTreeSet<String> = s.w.with(|w| {
                    w.subjects.values().flat_map(|x| x.datasets.keys().cloned().collect::<Vec<_>>()).collect()
                });
                let mine: BTreeSet<String> = items.iter().map(|x| x.1.clone()).collect();
                let other: Vec<&String> = all.difference(&mine).collect();
                if other.is_empty() {
                    continue;
                }
                req["credential_identifier"] = json!(r.pick(&other));
                bad = Some("identifier not granted");
            }
            6 => {
                let spare: Vec<&Cfg> = s.cfgs.iter().filter(|c| !f.granted.contains_key(&c.id)).collect();
                if spare.is_empty() {
                    continue;
                }
                let c = spare[r.below(spare.len())];
                req.as_object_mut().unwrap().remove("credential_identifier");
                merge(&mut req, &c.format(None));
                bad = Some("format not granted");
            }
            7 => {
                req.as_object_mut().unwrap().remove("credential_identifier");
                merge(&mut req, &json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", "Nope"]}}));
                bad = Some("format unknown");
            }
            8 => {
                // a code is not a token (fresh, unused code of the same wallet)
                let mut g = Flow::new(&s, &mut r);
                if g.up_to_code(&s, &mut r).is_err() {
                    continue;
                }
                req["access_token"] = json!(g.code);
                bad = Some("code as token");
            }
            9 => {
                // neither is a pushed request
                let mut g = Flow::new(&s, &mut r);
                g.pre = false;
                let q = g.authorize_request(&s, &mut r);
                let Some(p) = s.par(q).ok() else { continue };
                req["access_token"] = json!(p.request_uri);
                bad = Some("request_uri as token");
            }
            10 | 11 => {
                // nor a notification id, with the fresh nonce
                let o = s.credential(req.clone());
                let why = o.why();
                let Some(c) = o.ok() else {
                    rep.violation("granted-credential-refused", format!("{req} {why}"));
                    continue;
                };
                f.take_nonce(&c);
                let Some(id) = c.notification_id.clone() else { continue };
                req = f.credential_request(&s, &ident);
                req["access_token"] = json!(id);
                bad = Some("notification_id as token");
            }
            12 => {
                req["credential_issuer"] = json!(mangle(&mut r, &s.issuer));
                bad = Some("unknown issuer");
            }
            13 => {
                // right at the end of the advertised lifetime the token still works
                let t = r.below(890) as i64;
                clock::advance(t);
                req = f.credential_request(&s, &ident);
                rep.count("late_uses");
            }
            _ => {}
        }
        rep.eval(&format!("{bad:?} {kind} {cid} {}", f.pre), true);
        s.w.take_ops();
        let out = s.credential(req.clone());
        let did_sign = signed(&s);
        if let Some(b) = bad {
            rep.count("invalid_requests");
            rep.saw("kinds_refused", b);
            rep.check(!out.is_ok(), &format!("credential-for-{}", b.replace(' ', "-")), || format!("{req}"));
            rep.check(!did_sign, "signed-for-refused-request", || format!("{b}: {req}"));
            continue;
        }
        rep.count("valid_requests");
        let late = kind == 13;
        let mut ok = out.is_ok();
        let mut why = out.why();
        if let (false, true, Out::Err(e)) = (ok, late, &out) {
            // the nonce may have expired before the token; a wallet then uses the new one
            let e: Value = serde_json::from_str(&e.to_string()).unwrap_or_default();
            if let Some(nn) = e["c_nonce"].as_str() {
                f.c_nonce = nn.into();
                let o = s.credential(f.credential_request(&s, &ident));
                why = o.why();
                ok = o.is_ok();
            }
        }
        rep.check(ok, if late { "token-refused-within-lifetime" } else { "granted-credential-refused" }, || {
            format!("{req} {why} at +{} s", clock::now() - f.token_at)
        });
    }
    rep.require("invalid_requests", n / 4);
    rep.require("valid_requests", n / 10);
    rep.require("late_uses", n / 40);
    rep.require("busy_tokens", n / 80);
    rep.finish(
        "distinct = kind of defect planted in the credential request (or none), configuration, grant; refused requests are watched for signing operations",
        ASSUME,
    )
}

// ------------------------------------------------------- P20 possession

fn possession(mut rep: Report) -> ! {
    let n = rep.n(9000, 40_000);
    let mut nonces: HashSet<String> = HashSet::new();
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x20);
        let mut f = Flow::new(&s, &mut r);
        let token = match f.up_to_token(&s, &mut r) {
            Ok(t) => t,
            Err(e) => {
                rep.violation("valid-flow-refused", e);
                continue;
            }
        };
        let first = token.c_nonce_expires_in.unwrap_or_default();
        let items: Vec<_> = f.items().into_iter().filter(|(c, _)| s.cfg(c).proof == ProofReq::Jwt).collect();
        if items.is_empty() {
            continue;
        }
        // possibly some rounds of ordinary issuance first
        let mut old_nonces = vec![];
        let mut old_proofs = vec![];
        let mut broken = false;
        for _ in 0..r.below(3) {
            let (_, ident) = r.pick(&items).clone();
            let q = f.credential_request(&s, &ident);
            old_nonces.push(f.c_nonce.clone());
            old_proofs.push(q["proof"]["jwt"].as_str().unwrap().to_string());
            let o = s.credential(q.clone());
            let why = o.why();
            match o {
                Out::Ok(c) => {
                    rep.check(c.c_nonce.as_ref().is_some_and(|x| nonces.insert(x.clone())) && c.c_nonce_expires_in.is_some_and(|x| x > 0), "nonce-not-renewed", || text(&c));
                    f.take_nonce(&c)
                }
                _ => {
                    rep.violation("valid-proof-refused", format!("{q} {why}"));
                    broken = true;
                    break;
                }
            }
        }
        if broken {
            continue;
        }
        let (_, ident) = r.pick(&items).clone();
        let mut req = f.credential_request(&s, &ident);
        let (mut h, mut c, mut key) = f.proof_parts(&s);
        let mut bad: Option<&str> = None;
        let mut jwt: Option<String> = None;
        let stranger = Key::new("did:key:stranger", "key-0", "stranger secret");
        let kind = r.below(26);
        match kind {
            0 => {
                req.as_object_mut().unwrap().remove("proof");
                bad = Some("no proof");
            }
            1 => {
                c["nonce"] = json!(mangle(&mut r, &f.c_nonce));
                bad = Some("wrong nonce");
            }
            2 => {
                c.as_object_mut().unwrap().remove("nonce");
                bad = Some("no nonce");
            }
            3 | 4 if !old_nonces.is_empty() => {
                c["nonce"] = json!(r.pick(&old_nonces));
                bad = Some("used nonce");
            }
            5 | 6 if !old_proofs.is_empty() => {
                jwt = Some(r.pick(&old_proofs).clone());
                bad = Some("replayed proof");
            }
            7 => {
                let mut g = Flow::new(&s, &mut r);
                if g.up_to_token(&s, &mut r).is_err() {
                    continue;
                }
                c["nonce"] = json!(g.c_nonce);
                bad = Some("nonce of another token");
            }
            8 => {
                h["typ"] = json!(*r.pick(&["jwt", "JWT", "oauth-authz-req+jwt", "openid4vci-proof", ""]));
                if r.chance(1, 3) {
                    c.as_object_mut().unwrap().remove("iss");
                }
                bad = Some("wrong typ");
            }
            9 => {
                // claims someone else's key
                h["kid"] = json!(s.wallets[(f.wallet + 1) % 3].kid());
                bad = Some("signed by another key");
            }
            10 => {
                key = stranger.clone();
                bad = Some("signed by a stranger");
            }
            11 => {
                h["kid"] = json!(stranger.kid());
                key = stranger.clone();
                bad = Some("unresolvable key");
            }
            12 => {
                h["kid"] = json!(format!("{}#key-9", key.did));
                bad = Some("unknown key of the document");
            }
            13 => {
                h.as_object_mut().unwrap().remove("kid");
                h["jwk"] = json!({"kty": "OKP", "crv": "Ed25519", "x": Base64UrlUnpadded::encode_string(&key.public())});
                bad = Some("no kid");
            }
            14 => {
                let p = jws(&h, &c, &key);
                let parts: Vec<&str> = p.split('.').collect();
                let c2 = {
                    let mut c2 = c.clone();
                    c2["iat"] = json!(1);
                    Base64UrlUnpadded::encode_string(c2.to_string().as_bytes())
                };
                jwt = Some(match r.below(5) {
                    0 => format!("{}.{}.{}", parts[0], c2, parts[2]),
                    1 => format!("{}.{}.", parts[0], parts[1]),
                    2 => format!("{}.{}", parts[0], parts[1]),
                    3 => format!("{p}.{}", parts[2]),
                    _ => {
                        let mut sig = Base64UrlUnpadded::decode_vec(parts[2]).unwrap();
                        let k = r.below(sig.len());
                        sig[k] ^= 1;
                        format!("{}.{}.{}", parts[0], parts[1], Base64UrlUnpadded::encode_string(&sig))
                    }
                });
                bad = Some("altered token");
            }
            15 => {
                h["alg"] = json!(*r.pick(&["none", "HS256", "ES256K"]));
                bad = Some("other algorithm");
            }
            16 => {
                req.as_object_mut().unwrap().remove("proof");
                req["proofs"] = json!({"jwt": []});
                bad = Some("empty list of proofs");
            }
            17 | 18 => {
                // each by a key of its own or all by one, one of them flawed
                let spread = r.chance(1, 2);
                let by = |i: usize| s.wallets[if spread { (f.wallet + i) % 3 } else { f.wallet }].clone();
                let size = r.range(2, 3);
                let at = r.below(size);
                let mut l = vec![];
                for i in 0..size {
                    let key = by(i);
                    let (mut h, mut c) = (h.clone(), c.clone());
                    h["kid"] = json!(key.kid());
                    if i != at {
                        l.push(jws(&h, &c, &key));
                        continue;
                    }
                    let flaw = r.below(6);
                    rep.saw("flaws_among_several", &format!("{flaw} at {at} of {size}"));
                    l.push(match flaw {
                        0 => {
                            c["nonce"] = json!(mangle(&mut r, &f.c_nonce));
                            jws(&h, &c, &key)
                        }
                        1 => {
                            c["aud"] = json!(mangle(&mut r, &s.issuer));
                            jws(&h, &c, &key)
                        }
                        2 => {
                            h["typ"] = json!("JWT");
                            jws(&h, &c, &key)
                        }
                        3 => jws(&h, &c, &stranger),
                        4 => {
                            c.as_object_mut().unwrap().remove("nonce");
                            jws(&h, &c, &key)
                        }
                        _ => {
                            h["kid"] = json!(format!("{}#key-9", key.did));
                            jws(&h, &c, &key)
                        }
                    });
                }
                req.as_object_mut().unwrap().remove("proof");
                req["proofs"] = json!({"jwt": l});
                bad = Some("one bad proof of several");
            }
            19 => {
                c["aud"] = json!(if r.chance(1, 3) { "https://other-issuer.example".into() } else { mangle(&mut r, &s.issuer) });
                bad = Some("for another issuer");
            }
            20 | 21 => {
                clock::advance(603 + r.below(290) as i64);
                c["iat"] = json!(clock::now());
                if r.chance(1, 3) {
                    let l: Vec<String> = (0..r.range(1, 3)).map(|_| jws(&h, &c, &key)).collect();
                    req.as_object_mut().unwrap().remove("proof");
                    req["proofs"] = json!({"jwt": l});
                }
                bad = Some("nonce expired");
            }
            22 => {
                if r.chance(1, 3) {
                    c.as_object_mut().unwrap().remove("iss");
                }
                let ok = jws(&h, &c, &key);
                req.as_object_mut().unwrap().remove("proof");
                req["proofs"] = json!({"jwt": [ok]});
            }
            24 => {
                // an anonymous wallet does not name itself
                c.as_object_mut().unwrap().remove("iss");
            }
            23 => clock::advance(r.below(596) as i64),
            _ => {}
        }
        if bad != Some("no proof") && req.get("proof").is_some() {
            req["proof"]["jwt"] = json!(jwt.unwrap_or_else(|| jws(&h, &c, &key)));
        }
        rep.eval(&format!("{bad:?} {kind} rounds={} multi={}", old_nonces.len(), req.get("proofs").is_some()), true);
        s.w.take_ops();
        let out = s.credential(req.clone());
        if let Some(b) = bad {
            rep.count("invalid_proofs");
            rep.saw("kinds_refused", b);
            rep.check(!out.is_ok(), &format!("issued-for-{}", b.replace(' ', "-")), || format!("{req} {h} {c}"));
            rep.check(!signed(&s), "signed-for-refused-proof", || format!("{b}"));
            let Out::Err(e) = out else { continue };
            // a refusal for the proof hands the wallet a fresh nonce that works
            let e: Value = serde_json::from_str(&e.to_string()).unwrap_or_default();
            if e["error"] != "invalid_proof" {
                rep.check(b != "nonce expired", "expired-nonce-not-replaced", || format!("{e}"));
                continue;
            }
            rep.count("invalid_proof_errors");
            let fresh = e["c_nonce"].as_str().unwrap_or_default().to_string();
            rep.check(
                nonces.insert(fresh.clone()) && fresh != f.c_nonce && e["c_nonce_expires_in"].as_i64().is_some_and(|x| x > 0),
                "invalid-proof-without-fresh-nonce",
                || format!("{e}"),
            );
            // the old nonce is dead, the new one works
            if r.chance(1, 3) {
                let o = s.credential(f.credential_request(&s, &ident));
                rep.check(!o.is_ok(), "old-nonce-accepted-after-rotation", || format!("{b}"));
                if let Out::Err(e) = o {
                    let e: Value = serde_json::from_str(&e.to_string()).unwrap_or_default();
                    f.c_nonce = e["c_nonce"].as_str().unwrap_or_default().into();
                }
            } else {
                f.c_nonce = fresh;
            }
            // for as long as announced, while the token lives
            let life = e["c_nonce_expires_in"].as_i64().unwrap_or_default();
            if r.chance(1, 3) {
                clock::advance(usable(&f, token.expires_in, life));
            }
            let o = s.credential(f.credential_request(&s, &ident));
            rep.count("recoveries");
            rep.check(o.is_ok(), "fresh-nonce-refused", || format!("after {b}: {}", o.why()));
            continue;
        }
        rep.count("valid_proofs");
        let why = out.why();
        match out {
            Out::Ok(c) => {
                rep.check(
                    c.c_nonce.as_ref().is_some_and(|x| *x != f.c_nonce && nonces.insert(x.clone()))
                        && c.c_nonce_expires_in.is_some_and(|x| x > 0),
                    "nonce-not-renewed",
                    || text(&c.c_nonce),
                );
                // a new nonce lives as long as the first, whenever it was given
                let life = c.c_nonce_expires_in.unwrap_or_default();
                rep.check((life - first).abs() <= 2, "nonce-life-not-renewed", || format!("{life} s, the first {first} s"));
                f.take_nonce(&c);
                if r.chance(1, 2) {
                    clock::advance(usable(&f, token.expires_in, life));
                    let o = s.credential(f.credential_request(&s, &ident));
                    rep.count("late_nonces");
                    rep.check(o.is_ok(), "renewed-nonce-refused", || o.why());
                }
            }
            _ => rep.violation("valid-proof-refused", format!("{req} {why} {h} {c}")),
        }
    }
    rep.require("invalid_proofs", n / 4);
    rep.require("valid_proofs", n / 20);
    rep.require("recoveries", n / 20);
    rep.require("invalid_proof_errors", n / 20);
    rep.finish("distinct = kind of defect planted in the proof (or none), rounds of issuance before it, single or multiple proofs", ASSUME)
}

/// How long to wait until just before a nonce announced for `life` seconds, or the
/// token, expires.
fn usable(f: &Flow, token: i64, life: i64) -> i64 {
    (life - 4).min(f.token_at + token - 6 - clock::now()).max(0)
}

// ---------------------------------------------------------- P21 content

/// Judge one issued credential against what the subject's dataset holds.
fn judge(
    rep: &mut Report, s: &Setup, f: &Flow, cid: &str, idents: &[String], wanted: Option<&BTreeSet<String>>,
    resp: &oi::CredentialResponse, how: &str,
) {
    let cfg = s.cfg(cid);
    let oi::CredentialResponseType::Credential(vercre_core::Kind::String(tok)) = &resp.response else {
        rep.violation("no-credential-in-response", format!("{how}: {}", text(resp)));
        return;
    };
    rep.count("credentials_judged");
    let expect: Vec<Value> = idents
        .iter()
        .map(|ident| {
            let mut d = s.dataset(&f.subject, ident);
            if let Some(w) = wanted {
                d.retain(|k, _| w.contains(k));
            }
            Value::Object(d)
        })
        .collect();
    // a narrowing made in the token request: reported under its own name when ignored
    let narrow = |got: &Value, rep: &mut Report| -> bool {
        let Some(w) = f.token_claims.get(cid) else { return false };
        rep.count("token_claims_judged");
        let cut = |v: &Value| {
            let mut m = v.as_object().cloned().unwrap_or_default();
            m.retain(|k, _| w.contains(k));
            Value::Object(m)
        };
        if expect.iter().any(|v| cut(v) == *got) {
            return true;
        }
        if expect.contains(got) {
            rep.violation("token-request-claims-ignored", format!("{how}: asked for {w:?}, got {got}"));
            return true;
        }
        false
    };
    if cfg.mdl {
        match sys::mdoc::open(tok) {
            Ok(m) => {
                let narrowed = narrow(&m.elements, rep);
                rep.check(narrowed || expect.contains(&m.elements), "mdoc-elements-differ", || format!("{how}: {} want one of {expect:?}", m.elements));
                let faults = m.faults(&s.key);
                rep.check(faults.is_empty(), "mdoc-inconsistent", || format!("{how}: {faults:?}"));
                if cfg.proof == ProofReq::Jwt {
                    let proven = s.wallets[f.wallet].public();
                    if m.device_key == s.key.public() {
                        rep.violation("mdoc-device-key-is-issuers", how);
                    } else {
                        rep.check(m.device_key == proven, "mdoc-device-key", || how.to_string());
                    }
                }
            }
            Err(e) => rep.violation("mdoc-unreadable", format!("{how}: {e}")),
        }
        return;
    }
    let Some((h, c)) = jws_open(tok, &s.key) else {
        rep.violation("not-signed-by-issuer", format!("{how}: {tok}"));
        return;
    };
    rep.check(h["kid"] == json!(s.key.kid()), "credential-kid", || format!("{h}"));
    let vc = &c["vc"];
    let mut got = vc["credentialSubject"].clone();
    let sub_id = got.as_object_mut().and_then(|m| m.remove("id")).unwrap_or_default();
    let narrowed = narrow(&got, rep);
    rep.check(narrowed || expect.contains(&got), "claims-differ", || format!("{how}: {got} want one of {expect:?}"));
    let proven = cfg.proof == ProofReq::Jwt;
    if proven {
        let did = &s.wallets[f.wallet].did;
        rep.check(sub_id == json!(did), "subject-not-proven-key", || format!("{how}: {sub_id} want {did}"));
        rep.check(c["sub"] == json!(did), "sub-not-proven-key", || format!("{how}: {c}"));
    }
    rep.check(c["iss"] == json!(s.issuer) && vc["issuer"] == json!(s.issuer), "credential-issuer", || format!("{how}: {c}"));
    rep.check(
        c["iat"].as_i64().is_some_and(|t| (t - clock::now()).abs() <= 2),
        "issued-at-wrong",
        || format!("{how}: {} at {}", c["iat"], clock::now()),
    );
    rep.check(
        vc["type"] == json!(cfg.types()),
        "credential-type",
        || format!("{how}: {} want {:?}", vc["type"], cfg.types()),
    );
    // names and descriptions as displayed, each in its language
    type Texts = BTreeSet<(String, Option<String>)>;
    let text_of = |v: &Value| v.as_str().unwrap_or_default().to_string();
    for (member, sig) in [("name", "credential-name"), ("description", "credential-description")] {
        let want: Texts = cfg
            .display
            .as_array()
            .unwrap_or(&vec![])
            .iter()
            .filter(|d| d[member].is_string())
            .map(|d| (text_of(&d[member]), d["locale"].as_str().map(String::from)))
            .collect();
        let one = |o: &Value| (text_of(&o["@value"]), o["@language"].as_str().map(String::from));
        let got: Texts = match &vc[member] {
            Value::String(x) => BTreeSet::from([(x.clone(), None)]),
            o @ Value::Object(_) => BTreeSet::from([one(o)]),
            Value::Array(a) => a.iter().map(one).collect(),
            _ => BTreeSet::new(),
        };
        rep.check(want == got, sig, || format!("{how}: {} want {want:?}", vc[member]));
    }
    rep.check(
        vc["id"].as_str().is_some_and(|i| i.starts_with(&s.issuer)) && c["jti"] == vc["id"],
        "credential-id",
        || format!("{how}: {} jti {}", vc["id"], c["jti"]),
    );
    // status information belongs to this subject and credential
    let want: Vec<Value> = idents
        .iter()
        .map(|id| {
            s.w.with(|w| w.statuses.get(&(f.subject.clone(), id.clone())).cloned().unwrap_or_default())
        })
        .collect();
    let st = &vc["credentialStatus"];
    let index = match &st["statusListIndex"] {
        Value::String(x) => x.parse::<u64>().map_or(Value::Null, |n| json!(n)),
        x => x.clone(),
    };
    rep.check(want.iter().any(|w| w["id"] == st["id"] && w["index"] == index), "credential-status", || {
        format!("{how}: {} want one of {want:?}", vc["credentialStatus"])
    });
}

fn content(mut rep: Report) -> ! {
    let n = rep.n(3500, 15_000);
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x21);
        // several wallets at work at once, steps interleaved at random
        let mut flows: Vec<(Flow, u32)> = vec![];
        for _ in 0..r.range(2, 4) {
            flows.push((Flow::new(&s, &mut r), 0));
        }
        let mut trace = vec![];
        for _ in 0..r.range(8, 24) {
            let k = r.below(flows.len());
            let (mut f, stage) = flows[k].clone();
            match stage {
                0 => {
                    if let Err(e) = f.up_to_code(&s, &mut r) {
                        rep.violation("valid-flow-refused", e);
                        break;
                    }
                    trace.push(format!("{k}c"));
                    flows[k] = (f, 1);
                }
                1 => {
                    let mut q = f.token_request(&s);
                    if f.pre && r.chance(1, 4) {
                        let cid = r.pick(&f.wanted).clone();
                        let cfg = s.cfg(&cid);
                        let must = cfg.mandatory();
                        let m: Map<String, Value> = cfg
                            .claims
                            .as_object()
                            .unwrap()
                            .iter()
                            .filter(|(k, _)| must.contains(*k) || r.chance(1, 2))
                            .map(|(k, v)| (k.clone(), v.clone()))
                            .collect();
                        let mut d: Vec<Value> = f
                            .wanted
                            .iter()
                            .filter(|c| **c != cid)
                            .map(|c| json!({"type": "openid_credential", "credential_configuration_id": c}))
                            .collect();
                        let mut x = json!({"type": "openid_credential", "credential_configuration_id": cid});
                        if !m.is_empty() {
                            f.token_claims.insert(cid.clone(), m.keys().cloned().collect());
                            if cfg.mdl {
                                x["claims"] = json!(m);
                            } else {
                                x["credential_definition"] = json!({"credentialSubject": m});
                            }
                        }
                        d.insert(r.below(d.len() + 1), x);
                        q["authorization_details"] = json!(d);
                    }
                    let o = s.token(q.clone());
                    let why = o.why();
                    let Some(t) = o.ok() else {
                        rep.violation("valid-flow-refused", format!("{q} {why}"));
                        break;
                    };
                    f.take_token(&t);
                    trace.push(format!("{k}t"));
                    flows[k] = (f, 2);
                }
                _ => {
                    let items = f.items();
                    let (cid, ident) = r.pick(&items).clone();
                    let cfg = s.cfg(&cid);
                    let mut req = f.credential_request(&s, &ident);
                    let mut idents = vec![ident.clone()];
                    let mut wanted: Option<BTreeSet<String>> = f.asked_claims.get(&cid).cloned();
                    let mut how = format!("{} by identifier", if cfg.mdl { "mdoc" } else { "jwt" });
                    if r.chance(1, 3) {
                        // by format, possibly with a subset of the claims
                        req.as_object_mut().unwrap().remove("credential_identifier");
                        let sub = if r.chance(1, 2) {
                            let m: Map<String, Value> = cfg
                                .claims
                                .as_object()
                                .unwrap()
                                .iter()
                                .filter(|_| r.chance(1, 2))
                                .map(|(k, v)| (k.clone(), v.clone()))
                                .collect();
                            if m.is_empty() { None } else { Some(m) }
                        } else {
                            None
                        };
                        if let Some(m) = &sub {
                            let keys: BTreeSet<String> = m.keys().cloned().collect();
                            wanted = Some(match wanted {
                                Some(w) => w.intersection(&keys).cloned().collect(),
                                None => keys,
                            });
                        }
                        merge(&mut req, &cfg.format(sub.map(Value::Object).as_ref()));
                        idents = f.granted[&cid].clone();
                        how = format!("{} by format", if cfg.mdl { "mdoc" } else { "jwt" });
                    }
                    if f.asked_claims.contains_key(&cid) {
                        how += " with authorized claims";
                        rep.count("authorized_claims_requests");
                    }
                    if r.chance(1, 5) && f.c_nonce.len() > 0 && req.get("proof").is_some() {
                        let p = req["proof"]["jwt"].clone();
                        req.as_object_mut().unwrap().remove("proof");
                        req["proofs"] = json!({"jwt": [p]});
                    }
                    let o = s.credential(req.clone());
                    let why = o.why();
                    trace.push(format!("{k}i{}", how.len()));
                    match o {
                        Out::Ok(resp) => {
                            judge(&mut rep, &s, &f, &cid, &idents, wanted.as_ref(), &resp, &how);
                            f.take_nonce(&resp);
                            rep.count(&how);
                        }
                        _ => {
                            rep.violation("granted-credential-refused", format!("{how} {req} {why}"));
                            break;
                        }
                    }
                    flows[k] = (f, 2);
                }
            }
        }
        rep.eval(&trace.join(" "), true);
        rep.saw("traces", &trace.join(" "));
    }
    rep.require("credentials_judged", n);
    rep.require("jwt by format", n / 20);
    rep.require("mdoc by identifier", n / 20);
    rep.finish("distinct = interleaved trace of protocol steps of several wallets; every credential issued is opened and compared with the dataset", ASSUME)
}

// --------------------------------------------------------- P22 deferral

fn deferral(mut rep: Report) -> ! {
    let n = rep.n(4500, 20_000);
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x22);
        let mut f = Flow::new(&s, &mut r);
        if let Err(e) = f.up_to_token(&s, &mut r) {
            rep.violation("valid-flow-refused", e);
            continue;
        }
        let items = f.items();
        let (cid, ident) = r.pick(&items).clone();
        // asked for by identifier, or by format with some of the claims
        let mut first = f.credential_request(&s, &ident);
        let mut idents = vec![ident.clone()];
        let mut wanted: Option<BTreeSet<String>> = f.asked_claims.get(&cid).cloned();
        if r.chance(1, 3) {
            let cfg = s.cfg(&cid);
            first.as_object_mut().unwrap().remove("credential_identifier");
            let m: Map<String, Value> = cfg
                .claims
                .as_object()
                .unwrap()
                .iter()
                .filter(|_| r.chance(1, 2))
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect();
            let sub = (!m.is_empty()).then_some(m);
            if let Some(m) = &sub {
                let keys: BTreeSet<String> = m.keys().cloned().collect();
                wanted = Some(match wanted {
                    Some(w) => w.intersection(&keys).cloned().collect(),
                    None => keys,
                });
            }
            merge(&mut first, &cfg.format(sub.map(Value::Object).as_ref()));
            idents = f.granted[&cid].clone();
            rep.count("deferred_by_format");
        }
        let kind = r.below(14);
        if kind == 12 {
            // the token is some way through its life already
            clock::advance(400 + r.below(190) as i64);
        }
        s.w.with(|w| w.subjects.get_mut(&f.subject).unwrap().pending.extend(idents.iter().cloned()));
        s.w.take_ops();
        let o = s.credential(first);
        let why = o.why();
        let Some(resp) = o.ok() else {
            rep.violation("pending-request-refused", why);
            continue;
        };
        let oi::CredentialResponseType::TransactionId(txn) = resp.response.clone() else {
            rep.violation("pending-credential-issued", text(&resp));
            continue;
        };
        rep.check(!signed(&s), "signed-while-pending", || ident.clone());
        rep.count("deferrals");
        f.take_nonce(&resp);
        let ready = |s: &Setup| {
            s.w.with(|w| w.subjects.get_mut(&f.subject).unwrap().pending.retain(|p| !idents.contains(p)));
        };
        let mut req = json!({"credential_issuer": s.issuer, "access_token": f.access_token, "transaction_id": txn});
        rep.eval(&format!("{kind} {cid} pre={} mdl={}", f.pre, s.cfg(&cid).mdl), true);
        let judge_it = |rep: &mut Report, o: Out<oi::DeferredCredentialResponse>, sig: &str| -> bool {
            let why = o.why();
            match o.ok() {
                Some(d) => {
                    judge(rep, &s, &f, &cid, &idents, wanted.as_ref(), &d.credential_response, "deferred");
                    true
                }
                None => {
                    rep.violation(sig, why);
                    false
                }
            }
        };
        match kind {
            0..=2 => {
                ready(&s);
                if r.chance(1, 2) {
                    clock::advance(r.below(890) as i64);
                }
                rep.count("fulfilled");
                if judge_it(&mut rep, s.deferred(req.clone()), "ready-deferred-refused") {
                    // once
                    let again = s.deferred(req.clone());
                    rep.check(!again.is_ok(), "transaction-used-twice", || again.why());
                }
            }
            3..=5 => {
                // poll while pending, then collect
                let polls = r.range(1, 3);
                for _ in 0..polls {
                    let o = s.deferred(req.clone());
                    rep.count("polls");
                    rep.check(!o.is_ok(), "pending-credential-issued", || o.why());
                    if let Out::Err(e) = &o {
                        let e: Value = serde_json::from_str(&e.to_string()).unwrap_or_default();
                        rep.check(e["error"] == "issuance_pending", "pending-poll-error", || format!("{e}"));
                    }
                }
                rep.check(!signed(&s), "signed-while-pending", || ident.clone());
                ready(&s);
                judge_it(&mut rep, s.deferred(req.clone()), "transaction-lost-after-poll");
            }
            6 => {
                ready(&s);
                req["transaction_id"] = json!(mangle(&mut r, &txn));
                let o = s.deferred(req);
                rep.count("refusals");
                rep.check(!o.is_ok(), "unknown-transaction-accepted", || o.why());
            }
            7 => {
                ready(&s);
                req["access_token"] = json!(mangle(&mut r, &f.access_token));
                s.w.take_ops();
                let o = s.deferred(req);
                rep.count("refusals");
                rep.check(!o.is_ok() && !signed(&s), "deferred-without-token", || o.why());
            }
            8 => {
                // another wallet's token
                ready(&s);
                let mut g = Flow::new(&s, &mut r);
                if g.up_to_token(&s, &mut r).is_err() {
                    continue;
                }
                req["access_token"] = json!(g.access_token);
                s.w.take_ops();
                let o = s.deferred(req);
                rep.count("refusals");
                rep.check(!o.is_ok() && !signed(&s), "deferred-to-another-token", || o.why());
            }
            9 => {
                ready(&s);
                clock::advance(903 + r.below(5000) as i64);
                s.w.take_ops();
                let o = s.deferred(req);
                rep.count("refusals");
                rep.check(!o.is_ok() && !signed(&s), "expired-transaction-accepted", || o.why());
            }
            12 => {
                // the transaction outlives the token, and is no use without it
                ready(&s);
                clock::advance(502 + r.below(390) as i64);
                s.w.take_ops();
                let o = s.deferred(req);
                rep.count("refusals");
                rep.count("outlived_tokens");
                rep.check(!o.is_ok() && !signed(&s), "deferred-with-expired-token", || o.why());
            }
            13 => {
                // a poll that fails midway loses nothing
                let is_ready = r.chance(1, 2);
                if is_ready {
                    ready(&s);
                }
                s.w.with(|w| {
                    w.fail_at = Some(r.below(9));
                    w.fail_text = "store \"broken\"".into();
                });
                let o = s.deferred(req.clone());
                let fired = s.w.with(|w| w.fail_at.take().is_none());
                if !fired && o.is_ok() {
                    continue;
                }
                if fired {
                    rep.count("polls_failing_midway");
                    rep.check(!o.is_ok(), "poll-succeeds-despite-failure", || o.why());
                }
                ready(&s);
                judge_it(&mut rep, s.deferred(req.clone()), "transaction-lost-after-failed-poll");
            }
            10 => {
                // other credentials are issued meanwhile
                let others: Vec<_> = items.iter().filter(|x| !idents.contains(&x.1)).collect();
                let Some((_, other)) = others.first() else { continue };
                let o = s.credential(f.credential_request(&s, other));
                if !o.is_ok() {
                    rep.violation("granted-credential-refused", o.why());
                    continue;
                }
                ready(&s);
                rep.count("fulfilled_after_other_issuance");
                judge_it(&mut rep, s.deferred(req.clone()), "deferred-refused-after-other-issuance");
            }
            _ => {
                // a transaction id opens nothing else
                let mut q = f.credential_request(&s, &ident);
                q["access_token"] = json!(txn);
                ready(&s);
                let o = s.credential(q);
                rep.count("refusals");
                rep.check(!o.is_ok(), "transaction-as-token", || o.why());
            }
        }
    }
    rep.require("deferrals", n / 2);
    rep.require("deferred_by_format", n / 10);
    rep.require("polls_failing_midway", n / 100);
    rep.require("outlived_tokens", n / 100);
    rep.require("fulfilled", n / 20);
    rep.require("polls", n / 20);
    rep.require("refusals", n / 20);
    rep.finish("distinct = what happens between deferral and collection, configuration, grant", ASSUME)
}

// -------------------------------------------------------- P23 follow up

fn follow_up(mut rep: Report) -> ! {
    let n = rep.n(3500, 10_000);
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x23);
        let mut f = Flow::new(&s, &mut r);
        if let Err(e) = f.up_to_token(&s, &mut r) {
            rep.violation("valid-flow-refused", e);
            continue;
        }
        let kind = r.below(10);
        rep.eval(&format!("{kind} pre={} {}", f.pre, text(&f.granted)), true);
        match kind {
            0..=3 => {
                let (cid, ident) = r.pick(&f.items()).clone();
                let o = s.credential(f.credential_request(&s, &ident));
                let why = o.why();
                let Some(c) = o.ok() else {
                    rep.violation("granted-credential-refused", why);
                    continue;
                };
                let Some(id) = c.notification_id else { continue };
                rep.count("notifications");
                let mut req = json!({
                    "credential_issuer": s.issuer, "access_token": f.access_token, "notification_id": id,
                    "event": *r.pick(&["credential_accepted", "credential_failure", "credential_deleted"]),
                });
                let mut descr = None;
                if r.chance(1, 2) {
                    let d = match r.below(4) {
                        0 => "descr \"q\"".to_string(),
                        1 => format!(" d{} ", r.below(1000)),
                        2 => format!("d{}, é", r.below(1000)),
                        _ => format!("Failed to save {}", r.below(1000)),
                    };
                    req["event_description"] = json!(d);
                    descr = Some(d);
                }
                // events as the issuer hears of them
                let event: String = req["event"].as_str().unwrap().chars().filter(|c| *c != '_').collect();
                let plain = |l: &[String]| -> String {
                    l.concat().chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
                };
                let wrong = {
                    let mut q = req.clone();
                    q["notification_id"] = json!(mangle(&mut r, &id));
                    q
                };
                let (o, heard) = tracing::listen(|| s.notification(wrong.clone()));
                rep.check(!o.is_ok(), "unknown-notification-accepted", || format!("{wrong}"));
                rep.check(!plain(&heard).contains(&event), "unknown-notification-heard", || format!("{wrong} {heard:?}"));
                let (o, heard) = tracing::listen(|| s.notification(req.clone()));
                if o.is_ok() {
                    rep.count("events_heard");
                    rep.check(plain(&heard).contains(&event), "event-not-heard", || format!("{req} {heard:?}"));
                    let others = ["credentialaccepted", "credentialfailure", "credentialdeleted"];
                    rep.check(
                        others.iter().all(|e| *e == event || !plain(&heard).contains(e)),
                        "another-event-heard",
                        || format!("{req} {heard:?}"),
                    );
                    if let Some(d) = &descr {
                        let text = heard.concat();
                        let shown = format!("{d:?}");
                        rep.check(
                            text.contains(d.as_str()) || text.contains(&shown[1..shown.len() - 1]),
                            "event-description-not-heard",
                            || format!("{req} {heard:?}"),
                        );
                    }
                }
                rep.check(o.is_ok(), "notification-refused", || format!("{req} ({cid}): {}", o.why()));
                if o.is_ok() {
                    let o = s.notification(req.clone());
                    rep.check(o.is_ok(), "repeated-notification-refused", || format!("{req}: {}", o.why()));
                }
            }
            _ => {
                let mut meta = json!({
                    "client_id": "", "client_name": "New \"wallet\"", "redirect_uris": [],
                    "grant_types": ["authorization_code", PRE], "response_types": ["code"],
                    "scope": "openid credential", "credential_issuer": s.issuer, "access_token": f.access_token,
                });
                let uris: Vec<String> =
                    (0..r.range(1, 4)).map(|_| format!("https://{}.example/cb?{}", r.pick(&["new", "b", "A", "é"]), r.below(100))).collect();
                meta["redirect_uris"] = json!(uris);
                let mut bad: Option<&str> = None;
                match kind {
                    4 => {
                        meta["access_token"] = json!(mangle(&mut r, &f.access_token));
                        bad = Some("unknown token");
                    }
                    5 => {
                        clock::advance(903 + r.below(4000) as i64);
                        bad = Some("expired token");
                    }
                    6 => {
                        let mut g = Flow::new(&s, &mut r);
                        let (what, v) = match r.below(5) {
                            0 => {
                                if g.up_to_code(&s, &mut r).is_err() {
                                    continue;
                                }
                                ("code", Some(g.code))
                            }
                            1 => {
                                g.pre = false;
                                let q = g.authorize_request(&s, &mut r);
                                ("request_uri", s.par(q).ok().map(|p| p.request_uri))
                            }
                            2 => {
                                let (_, ident) = r.pick(&f.items()).clone();
                                let o = s.credential(f.credential_request(&s, &ident));
                                ("notification_id", o.ok().and_then(|c| c.notification_id))
                            }
                            3 => {
                                let (_, ident) = r.pick(&f.items()).clone();
                                s.w.with(|w| w.subjects.get_mut(&f.subject).unwrap().pending.insert(ident.clone()));
                                let o = s.credential(f.credential_request(&s, &ident));
                                let id = o.ok().and_then(|c| match c.response {
                                    oi::CredentialResponseType::TransactionId(t) => Some(t),
                                    _ => None,
                                });
                                ("transaction_id", id)
                            }
                            _ => {
                                let mut q = g.offer_request(&s, &mut r);
                                q["send_type"] = json!("ByRef");
                                let id = s.create_offer(q).ok().and_then(|o| match o.offer_type {
                                    oi::OfferType::Uri(u) => u.rsplit('/').next().map(str::to_string),
                                    _ => None,
                                });
                                ("offer", id)
                            }
                        };
                        let Some(v) = v else { continue };
                        rep.saw("registrations_refused", what);
                        meta["access_token"] = json!(v);
                        bad = Some("something else as token");
                    }
                    _ => {}
                }
                let before = s.w.with(|w| w.registered.len());
                let o = s.register(meta.clone());
                let after = s.w.with(|w| w.registered.len());
                if let Some(b) = bad {
                    rep.count("invalid_registrations");
                    rep.check(!o.is_ok() && after == before, &format!("registered-with-{}", b.replace(' ', "-")), || format!("{meta}"));
                    continue;
                }
                rep.count("valid_registrations");
                let why = o.why();
                match o.ok() {
                    Some(resp) => {
                        let mut v = serde_json::to_value(&resp).unwrap();
                        rep.check(v["client_id"] == json!(format!("client-{before}")), "registered-id", || format!("{v}"));
                        v.as_object_mut().unwrap().remove("client_id");
                        let mut want = meta.clone();
                        for k in ["client_id", "credential_issuer", "access_token"] {
                            want.as_object_mut().unwrap().remove(k);
                        }
                        rep.check(v == want, "registered-metadata", || format!("{v} want {want}"));
                        let stored = s.w.with(|w| w.registered.last().cloned()).unwrap();
                        let same = want.as_object().unwrap().iter().all(|(k, v)| stored[k] == *v);
                        rep.check(same && !stored.to_string().contains(&f.access_token), "registered-record", || format!("{stored}"));
                    }
                    None => rep.violation("valid-registration-refused", why),
                }
                // metadata comes out as configured
                let o = s.metadata(json!({"credential_issuer": s.issuer}));
                let why = o.why();
                let want = s.w.with(|w| w.issuers[&s.issuer].clone());
                match o.ok() {
                    Some(m) => {
                        let got = serde_json::to_value(&m).unwrap();
                        rep.count("metadata_documents");
                        rep.check(got == want, "metadata-differs", || format!("{got} want {want}"));
                    }
                    None => rep.violation("metadata-refused", why),
                }
                let o = s.oauth_server(json!({"credential_issuer": s.issuer}));
                let why = o.why();
                let want = s.w.with(|w| w.servers[&s.issuer].clone());
                match o.ok() {
                    Some(m) => {
                        let got = serde_json::to_value(&m.authorization_server).unwrap();
                        rep.check(got == want, "server-metadata-differs", || format!("{got} want {want}"));
                    }
                    None => rep.violation("server-metadata-refused", why),
                }
                let bogus = mangle(&mut r, &s.issuer);
                rep.check(!s.metadata(json!({"credential_issuer": bogus})).is_ok(), "metadata-for-unknown-issuer", || bogus.clone());
                rep.check(!s.oauth_server(json!({"credential_issuer": s.issuer, "issuer": bogus})).is_ok(), "server-for-unknown-issuer", || bogus.clone());
            }
        }
    }
    rep.require("notifications", n / 10);
    rep.require("events_heard", n / 10);
    rep.require("valid_registrations", n / 20);
    rep.require("invalid_registrations", n / 20);
    rep.require("metadata_documents", n / 20);
    rep.finish("distinct = endpoint and defect planted, grant, credentials", ASSUME)
}

// ------------------------------------------------------------ P24 faults

fn faults(mut rep: Report) -> ! {
    let n = rep.n(6000, 30_000);
    for i in rep.cases(n) {
        let (mut r, s) = start(&mut rep, i, 0x24);
        let mut f = Flow::new(&s, &mut r);
        let stage = r.below(8);
        let k = if stage == 6 { r.below(3) } else { r.below(10) };
        let fail = |s: &Setup| {
            s.w.with(|w| {
                w.fail_at = Some(k);
                w.fail_text = "disk \"full\"\n{\\u0}".into();
            })
        };
        // did the fault fire? always leaves the plan empty
        let fired = |s: &Setup| s.w.with(|w| w.fail_at.take().is_none());
        let note = |rep: &mut Report, s: &Setup, what: &str, ok: bool, panic: Option<String>| -> bool {
            let hit = fired(s);
            rep.eval(&format!("{what} {k} {hit}"), hit);
            rep.count(if hit { "faults_injected" } else { "faults_not_reached" });
            if let Some(p) = panic {
                rep.violation(&format!("panic-{what}"), format!("fault at operation {k}: {p}"));
            }
            if hit {
                rep.check(!ok, &format!("{what}-succeeds-despite-fault"), || format!("operation {k} of {what} failed"));
            } else {
                rep.check(ok, &format!("valid-{what}-refused"), || format!("{what}"));
            }
            hit
        };
        fn pan<T>(o: &Out<T>) -> Option<String> {
            match o {
                Out::Panic(p) => Some(p.clone()),
                _ => None,
            }
        }
        match stage {
            0 => {
                let q = f.offer_request(&s, &mut r);
                fail(&s);
                let o = s.create_offer(q.clone());
                if note(&mut rep, &s, "create_offer", o.is_ok(), pan(&o)) {
                    let o = s.create_offer(q);
                    rep.check(o.is_ok(), "offer-refused-after-fault", || o.why());
                }
            }
            1 => {
                f.pre = false;
                if r.chance(1, 2) && f.offer(&s, &mut r).is_err() {
                    continue;
                }
                let q = f.authorize_request(&s, &mut r);
                if r.chance(1, 3) {
                    fail(&s);
                    let o = s.par(q.clone());
                    note(&mut rep, &s, "par", o.is_ok(), pan(&o));
                } else if r.chance(1, 2) {
                    // a pushed request is used once, whatever fails
                    let Some(p) = s.par(q.clone()).ok() else { continue };
                    let q = json!({"client_id": f.client, "request_uri": p.request_uri});
                    fail(&s);
                    let o = s.authorize(q.clone());
                    note(&mut rep, &s, "authorize-pushed", o.is_ok(), pan(&o));
                    let (a, b) = (s.authorize(q.clone()), s.authorize(q));
                    let oks = [&o, &a, &b].iter().filter(|o| o.is_ok()).count();
                    rep.check(oks <= 1, "pushed-request-used-twice-after-fault", || format!("operation {k}: {} {} {}", o.why(), a.why(), b.why()));
                } else {
                    fail(&s);
                    let o = s.authorize(q.clone());
                    if note(&mut rep, &s, "authorize", o.is_ok(), pan(&o)) {
                        let o = s.authorize(q);
                        rep.check(o.is_ok(), "authorize-refused-after-fault", || o.why());
                    }
                }
            }
            2 => {
                if f.up_to_code(&s, &mut r).is_err() {
                    continue;
                }
                fail(&s);
                let o = s.token(f.token_request(&s));
                note(&mut rep, &s, "token", o.is_ok(), pan(&o));
            }
            3 | 4 => {
                if f.up_to_token(&s, &mut r).is_err() {
                    continue;
                }
                let (cid, ident) = r.pick(&f.items()).clone();
                fail(&s);
                s.w.take_ops();
                let o = s.credential(f.credential_request(&s, &ident));
                let sign_fault =
                    s.w.with(|w| w.ops.iter().any(|o| matches!(o, Op::Fault(t) if t.starts_with("Sign"))));
                if s.cfg(&cid).mdl && sign_fault {
                    // `Signer::sign` itself panics when the key store fails
                    fired(&s);
                    continue;
                }
                if note(&mut rep, &s, "credential", o.is_ok(), pan(&o)) {
                    // a wallet that follows the protocol still gets its credential
                    let mut done = false;
                    let mut last = String::new();
                    for _ in 0..3 {
                        let o = s.credential(f.credential_request(&s, &ident));
                        last = o.why();
                        match o {
                            Out::Ok(_) => {
                                done = true;
                                break;
                            }
                            Out::Err(e) => {
                                let e: Value = serde_json::from_str(&e.to_string()).unwrap_or_default();
                                if let Some(x) = e["c_nonce"].as_str() {
                                    f.c_nonce = x.into();
                                }
                            }
                            _ => break,
                        }
                    }
                    rep.count("recoveries");
                    rep.check(done, "credential-lost-after-fault", || format!("operation {k} failed, then {last}"));
                }
            }
            5 => {
                if f.up_to_token(&s, &mut r).is_err() {
                    continue;
                }
                let (cid, ident) = r.pick(&f.items()).clone();
                s.w.with(|w| w.subjects.get_mut(&f.subject).unwrap().pending.insert(ident.clone()));
                let Some(c) = s.credential(f.credential_request(&s, &ident)).ok() else { continue };
                let oi::CredentialResponseType::TransactionId(txn) = c.response else { continue };
                s.w.with(|w| w.subjects.get_mut(&f.subject).unwrap().pending.remove(&ident));
                let q = json!({"credential_issuer": s.issuer, "access_token": f.access_token, "transaction_id": txn});
                fail(&s);
                s.w.take_ops();
                let o = s.deferred(q);
                let sign_fault =
                    s.w.with(|w| w.ops.iter().any(|o| matches!(o, Op::Fault(t) if t.starts_with("Sign"))));
                if s.cfg(&cid).mdl && sign_fault {
                    fired(&s);
                    continue;
                }
                note(&mut rep, &s, "deferred", o.is_ok(), pan(&o));
            }
            6 => {
                // the smaller endpoints
                match r.below(5) {
                    0 => {
                        let mut q = f.offer_request(&s, &mut r);
                        q["send_type"] = json!("ByRef");
                        let Some(o) = s.create_offer(q).ok() else { continue };
                        let oi::OfferType::Uri(uri) = o.offer_type else { continue };
                        let q = json!({"credential_issuer": s.issuer, "id": uri.rsplit('/').next().unwrap_or_default()});
                        fail(&s);
                        let o = s.credential_offer(q);
                        note(&mut rep, &s, "credential_offer", o.is_ok(), pan(&o));
                    }
                    1 => {
                        if f.up_to_token(&s, &mut r).is_err() {
                            continue;
                        }
                        let (_, ident) = r.pick(&f.items()).clone();
                        let Some(c) = s.credential(f.credential_request(&s, &ident)).ok() else { continue };
                        let Some(id) = c.notification_id else { continue };
                        let q = json!({
                            "credential_issuer": s.issuer, "access_token": f.access_token, "notification_id": id,
                            "event": "credential_accepted",
                        });
                        fail(&s);
                        let o = s.notification(q);
                        note(&mut rep, &s, "notification", o.is_ok(), pan(&o));
                    }
                    2 => {
                        if f.up_to_token(&s, &mut r).is_err() {
                            continue;
                        }
                        let q = json!({
                            "client_id": "", "redirect_uris": ["https://new.example/cb"], "grant_types": [PRE],
                            "response_types": ["code"], "scope": "openid", "credential_issuer": s.issuer,
                            "access_token": f.access_token,
                        });
                        fail(&s);
                        let o = s.register(q);
                        note(&mut rep, &s, "register", o.is_ok(), pan(&o));
                    }
                    3 => {
                        fail(&s);
                        let o = s.metadata(json!({"credential_issuer": s.issuer}));
                        note(&mut rep, &s, "metadata", o.is_ok(), pan(&o));
                    }
                    _ => {
                        fail(&s);
                        let o = s.oauth_server(json!({"credential_issuer": s.issuer}));
                        note(&mut rep, &s, "oauth_server", o.is_ok(), pan(&o));
                    }
                }
            }
            _ => {
                // hostile requests to every endpoint: refused or answered, never a panic
                let (client, subject) = (f.client.clone(), f.subject.clone());
                let g = |r: &mut Rng| -> Value {
                    match r.below(6) {
                        0 => json!(r.hostile(6)),
                        1 => json!(s.issuer),
                        2 => json!(client),
                        3 => json!(subject),
                        4 => json!(""),
                        _ => json!(r.hostile(20)),
                    }
                };
                let iss = if r.chance(3, 4) { json!(s.issuer) } else { g(&mut r) };
                let e = r.below(9);
                let (what, p) = match e {
                    0 => {
                        let q = json!({"credential_issuer": iss, "subject_id": g(&mut r), "credential_configuration_ids": [g(&mut r)],
                            "grant_types": [PRE], "tx_code_required": true, "send_type": "ByRef"});
                        ("create_offer", pan(&s.create_offer(q)))
                    }
                    1 => ("credential_offer", pan(&s.credential_offer(json!({"credential_issuer": iss, "id": g(&mut r)})))),
                    2 => {
                        let mut q = f.authorize_request(&s, &mut r);
                        for _ in 0..r.range(1, 3) {
                            let ks: Vec<String> = q.as_object().unwrap().keys().cloned().collect();
                            let kk = r.pick(&ks).clone();
                            q[&kk] = g(&mut r);
                        }
                        ("authorize", pan(&s.authorize(q)))
                    }
                    3 => {
                        let q = json!({"credential_issuer": iss, "client_id": g(&mut r), "grant_type": PRE,
                            "pre-authorized_code": g(&mut r), "tx_code": g(&mut r)});
                        ("token", pan(&s.token(q)))
                    }
                    4 | 5 => {
                        if f.up_to_token(&s, &mut r).is_err() {
                            continue;
                        }
                        let (_, ident) = r.pick(&f.items()).clone();
                        let mut q = f.credential_request(&s, &ident);
                        match r.below(4) {
                            0 => q["proof"]["jwt"] = g(&mut r),
                            1 => q["proof"]["jwt"] = json!(format!("{}.{}.{}", r.hostile(4), r.hostile(4), r.hostile(4))),
                            2 => q["credential_identifier"] = g(&mut r),
                            _ => {
                                let (mut h, c, key) = f.proof_parts(&s);
                                h["kid"] = g(&mut r);
                                q["proof"]["jwt"] = json!(jws(&h, &c, &key));
                            }
                        }
                        ("credential", pan(&s.credential(q)))
                    }
                    6 => ("deferred", pan(&s.deferred(json!({"credential_issuer": iss, "access_token": g(&mut r), "transaction_id": g(&mut r)})))),
                    7 => ("notification", pan(&s.notification(json!({"credential_issuer": iss, "notification_id": g(&mut r), "event": "credential_accepted"})))),
                    _ => ("metadata", pan(&s.metadata(json!({"credential_issuer": g(&mut r)})))),
                };
                rep.eval(&format!("hostile {what}"), true);
                rep.count("hostile_requests");
                if let Some(p) = p {
                    rep.violation(&format!("panic-{what}"), p);
                }
            }
        }
    }
    rep.require("faults_injected", n / 6);
    rep.require("recoveries", n / 20);
    rep.require("hostile_requests", n / 20);
    rep.finish("distinct = endpoint and index of the provider operation that fails", ASSUME)
}

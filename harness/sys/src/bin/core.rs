//! Monitors for `crates/core`: form encoding, generated identifiers, PKCE and
//! the one-or-many / string-or-object JSON shapes.

use std::collections::{BTreeMap, HashMap, HashSet};

use base64ct::{Base64UrlUnpadded, Encoding};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use sys::guarded;
use sys::report::{args, Report};
use sys::rng::Rng;
use vercre_core::{gen, pkce, urlencode, Kind, Quota};

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--emit-ids") {
        emit_ids();
        return;
    }
    let (prop, rep) = args();
    match prop.as_str() {
        "P01" => encode(rep),
        "P02" => decode(rep),
        "P03" => identifiers(rep),
        "P04" => pkce_check(rep),
        "P05" => shapes(rep),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
}

// ---------------------------------------------------------------- form types

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Plain {
    a: String,
    b: String,
    c_d: String,
}
#[derive(Debug, Clone, Deserialize, PartialEq)]
struct Partial {
    a: String,
    list: Vec<String>,
    nested: Inner,
    n: u32,
    opt: Option<String>,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Inner {
    x: String,
    n: i64,
    ok: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    maybe: Option<String>,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Mode {
    DirectPost,
    Query,
    #[serde(rename = "urn:x-y:z")]
    Urn,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Shape {
    Unit,
    New(String),
    Tup(i64, String),
    Rec { r: String, s: Vec<String> },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Wrapper(String);
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Rich {
    first: String,
    nested: Inner,
    #[serde(skip_serializing_if = "Option::is_none")]
    opt: Option<String>,
    list: Vec<String>,
    #[serde(rename = "the-mode")]
    mode: Mode,
    wrapped: Wrapper,
    deep: Vec<Inner>,
    map: BTreeMap<String, String>,
    pair: (String, i64),
    shapes: Vec<Shape>,
    deeper: BTreeMap<String, Vec<BTreeMap<String, Inner>>>,
    last: String,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Flat {
    lead: String,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Optional {
    #[serde(skip_serializing_if = "Option::is_none")]
    p: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    q: Option<Vec<Inner>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    r: Option<Inner>,
    z: String,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Scalars {
    i: i64,
    small: i8,
    u: u64,
    byte: u8,
    f: f64,
    single: f32,
    ok: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    maybe: Option<i32>,
    c: char,
    many: Vec<u16>,
    end: String,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
struct Kinds {
    k: Kind<Inner>,
    #[serde(skip_serializing_if = "Option::is_none")]
    l: Option<Kind<Inner>>,
    m: String,
}
impl Default for Inner {
    fn default() -> Self {
        Self { x: String::new(), n: 0, ok: false, maybe: None }
    }
}

/// Fractions of any size. Readers of JSON may round the longest ones, so the
/// text is judged by its exact value and the library's reading by JSON's.
fn floats(rep: &mut Rep, r: &mut Rng) {
    #[derive(Debug, Serialize, Deserialize, PartialEq)]
    struct Floats {
        f: f64,
        g: f32,
        l: Vec<f64>,
    }
    let any = |r: &mut Rng| loop {
        let f = match r.below(4) {
            0 => f64::from_bits(r.next()),
            1 => (r.next() as i32) as f64 / 1e9,
            2 => 10f64.powi(r.below(40) as i32 - 30) * (1 + r.below(9)) as f64,
            _ => *r.pick(&[f64::MIN_POSITIVE, f64::MAX, f64::MIN, 5e-324, -0.0, 1.0 / 3.0, 0.1, 1e21, 1e-7]),
        };
        if f.is_finite() {
            return f;
        }
    };
    let g = loop {
        let g = f32::from_bits(r.next() as u32);
        if g.is_finite() {
            break g;
        }
    };
    let v = Floats { f: any(r), g, l: (0..r.below(4)).map(|_| any(r)).collect() };
    rep.count("messages_of_fractions");
    let text = match guarded(|| urlencode::to_string(&v).map_err(|e| e.to_string())) {
        Ok(Ok(t)) => t,
        other => return rep.violation("encode-error/fractions", format!("{other:?} for {v:?}")),
    };
    rep.eval(&text, text.contains('%'));
    let Ok(pairs) = reference_pairs(&text) else { return rep.violation("not-a-form", text) };
    let find = |k: &str| pairs.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone()).unwrap_or_default();
    let nums = |s: &str| -> Option<Vec<f64>> {
        let s = s.trim_start_matches('[').trim_end_matches(']');
        if s.is_empty() { Some(vec![]) } else { s.split(',').map(|x| x.parse().ok()).collect() }
    };
    let (f, g, l) = (find("f"), find("g"), find("l"));
    rep.check(f.parse::<f64>() == Ok(v.f), "parameter-altered", || format!("\"f\": {f:?} on the wire for {v:?}"));
    rep.check(g.parse::<f32>() == Ok(v.g), "parameter-altered", || format!("\"g\": {g:?} on the wire for {v:?}"));
    rep.check(nums(&l).as_ref() == Some(&v.l), "parameter-altered", || format!("\"l\": {l:?} on the wire for {v:?}"));
    // A JSON reader may round the last digit or refuse a number at the very edge of the range;
    // the decoder is held to what such a reader makes of the same text.
    let (Ok(wf), Ok(wg), Ok(wl)) = (serde_json::from_str(&f), serde_json::from_str(&g), serde_json::from_str(&l)) else {
        return rep.count("fractions_past_a_json_reader");
    };
    let want = Floats { f: wf, g: wg, l: wl };
    match guarded(|| urlencode::from_str::<Floats>(&text).map_err(|e| e.to_string())) {
        Ok(Ok(got)) if got == v || got == want => {}
        other => rep.violation("round-trip-changed", format!("{other:?} from {v:?} via {text}")),
    }
}

fn scalars(r: &mut Rng) -> Scalars {
    Scalars {
        i: if r.chance(1, 2) { r.next() as i64 } else { *r.pick(&[0, -1, i64::MAX, i64::MIN]) },
        small: r.next() as i8,
        u: if r.chance(1, 2) { r.next() } else { *r.pick(&[0, 1, u64::MAX]) },
        byte: r.next() as u8,
        // (readers of JSON may round longer fractions)
        f: (r.next() as i32) as f64 / *r.pick(&[1.0, 4.0, 32.0]),
        single: (r.next() as i16) as f32 / 8.0,
        ok: r.chance(1, 2),
        maybe: r.chance(1, 2).then(|| r.next() as i32),
        c: r.scalar(),
        many: (0..r.below(4)).map(|_| r.next() as u16).collect(),
        end: r.hostile(3),
    }
}

fn inner(r: &mut Rng) -> Inner {
    Inner {
        x: r.hostile(5),
        n: *r.pick(&[0, 1, -1, 42, i64::MAX, i64::MIN, 1_700_000_000]),
        ok: r.chance(1, 2),
        maybe: r.chance(1, 2).then(|| r.hostile(4)),
    }
}
fn shape(r: &mut Rng) -> Shape {
    match r.below(4) {
        0 => Shape::Unit,
        1 => Shape::New(r.hostile(4)),
        2 => Shape::Tup(r.below(100) as i64, r.hostile(4)),
        _ => Shape::Rec {
            r: r.hostile(4),
            s: (0..r.below(3)).map(|_| r.hostile(3)).collect(),
        },
    }
}
/// Mostly a few, now and then many.
fn many(r: &mut Rng, few: usize) -> usize {
    if r.chance(1, 150) {
        r.size() / 4
    } else {
        r.below(few)
    }
}

fn rich(r: &mut Rng) -> Rich {
    Rich {
        first: r.hostile(6),
        nested: inner(r),
        opt: r.chance(1, 2).then(|| r.hostile(4)),
        list: (0..many(r, 4)).map(|_| r.hostile(4)).collect(),
        mode: *r.pick(&[Mode::DirectPost, Mode::Query, Mode::Urn]),
        wrapped: Wrapper(r.hostile(4)),
        deep: (0..r.below(3)).map(|_| inner(r)).collect(),
        map: (0..many(r, 4)).map(|_| (r.hostile(3), r.hostile(3))).collect(),
        pair: (r.hostile(3), r.below(1000) as i64),
        shapes: (0..r.below(4)).map(|_| shape(r)).collect(),
        deeper: (0..r.below(3))
            .map(|_| {
                let inner_maps = (0..r.below(3))
                    .map(|_| (0..r.below(2)).map(|_| (r.hostile(2), inner(r))).collect())
                    .collect();
                (r.hostile(2), inner_maps)
            })
            .collect(),
        last: r.hostile(6),
    }
}

/// Independent reader of `application/x-www-form-urlencoded` text: split first,
/// then percent-decode.
fn reference_pairs(s: &str) -> Result<Vec<(String, String)>, String> {
    fn dec(s: &str) -> Result<String, String> {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let hex = |k: usize| b.get(i + k).and_then(|c| (*c as char).to_digit(16));
            if let (b'%', Some(h), Some(l)) = (b[i], hex(1), hex(2)) {
                out.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
            out.push(b[i]);
            i += 1;
        }
        String::from_utf8(out).map_err(|e| e.to_string())
    }
    s.split('&')
        .map(|p| {
            let (k, v) = p.split_once('=').ok_or(format!("no = in {p:?}"))?;
            Ok((dec(k)?, dec(v)?))
        })
        .collect()
}

/// What the wire text of `value` has to say, parameter by parameter.
fn expected_params<T: Serialize>(value: &T) -> Vec<(String, Value)> {
    let Value::Object(m) = serde_json::to_value(value).unwrap() else { unreachable!() };
    m.into_iter().collect()
}

/// Any value of the serialization data model, nested at random.
#[derive(Debug, Clone)]
enum Val {
    Bool(bool),
    Int(i64),
    Nat(u64),
    Small(i8, u16),
    Float(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    Newtype(Box<Val>),
    NewtypeVariant(&'static str, Box<Val>),
    Seq(Vec<Val>),
    Tuple(Vec<Val>),
    TupleStruct(Vec<Val>),
    TupleVariant(&'static str, Vec<Val>),
    Map(Vec<(String, Val)>),
    Struct(Vec<(&'static str, Val)>),
    StructVariant(&'static str, Vec<(&'static str, Val)>),
    /// refuses to be serialized
    Fail,
}
const NAMES: &[&str] = &["alpha", "b", "c_d", "e-f", "g:h", "client_id", "Pair", "x=y", "amp&ersand", "q\"uote", "urn:x:y"];

impl Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self {
            Val::Fail => Err(Error::custom("cannot be written")),
            Val::Bool(b) => s.serialize_bool(*b),
            Val::Int(n) => s.serialize_i64(*n),
            Val::Nat(n) => s.serialize_u64(*n),
            Val::Small(a, b) => {
                let mut t = s.serialize_tuple(4)?;
                t.serialize_element(a)?;
                t.serialize_element(b)?;
                t.serialize_element(&i32::from(*a))?;
                t.serialize_element(&u32::from(*b))?;
                t.end()
            }
            Val::Float(f) => s.serialize_f64(*f),
            Val::Char(c) => s.serialize_char(*c),
            Val::Str(t) => s.serialize_str(t),
            Val::Bytes(b) => s.serialize_bytes(b),
            Val::None => s.serialize_none(),
            Val::Some(v) => s.serialize_some(&**v),
            Val::Unit => s.serialize_unit(),
            Val::UnitStruct => s.serialize_unit_struct("U"),
            Val::UnitVariant(n) => s.serialize_unit_variant("E", 0, n),
            Val::Newtype(v) => s.serialize_newtype_struct("N", &**v),
            Val::NewtypeVariant(n, v) => s.serialize_newtype_variant("E", 1, n, &**v),
            Val::Seq(v) => {
                let mut t = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    t.serialize_element(x)?;
                }
                t.end()
            }
            Val::Tuple(v) => {
                let mut t = s.serialize_tuple(v.len())?;
                for x in v {
                    t.serialize_element(x)?;
                }
                t.end()
            }
            Val::TupleStruct(v) => {
                let mut t = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    t.serialize_field(x)?;
                }
                t.end()
            }
            Val::TupleVariant(n, v) => {
                let mut t = s.serialize_tuple_variant("E", 2, n, v.len())?;
                for x in v {
                    t.serialize_field(x)?;
                }
                t.end()
            }
            Val::Map(v) => {
                let mut t = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    t.serialize_entry(k, x)?;
                }
                t.end()
            }
            Val::Struct(v) => {
                let mut t = s.serialize_struct("S", v.len())?;
                for (k, x) in v {
                    t.serialize_field(k, x)?;
                }
                t.end()
            }
            Val::StructVariant(n, v) => {
                let mut t = s.serialize_struct_variant("E", 3, n, v.len())?;
                for (k, x) in v {
                    t.serialize_field(k, x)?;
                }
                t.end()
            }
        }
    }
}

fn names(r: &mut Rng, max: usize) -> Vec<&'static str> {
    let mut v = NAMES.to_vec();
    r.shuffle(&mut v);
    v.truncate(r.below(max + 1));
    v
}

fn val(r: &mut Rng, depth: usize) -> Val {
    let kind = if depth == 0 { r.below(9) } else { r.below(20) };
    let many = |r: &mut Rng| {
        let n = if depth < 3 { many(r, 4) } else { r.below(4) };
        (0..n).map(|_| val(r, depth - 1)).collect::<Vec<_>>()
    };
    match kind {
        0 | 1 | 2 => Val::Str(r.hostile(4)),
        3 => Val::Bool(r.chance(1, 2)),
        4 => Val::Int(*r.pick(&[0, -1, 7, i64::MIN, i64::MAX, -40])),
        5 => Val::Nat(*r.pick(&[0, 1, u64::MAX, 1_700_000_000])),
        6 => Val::Float(*r.pick(&[0.5, -2.25, 1e-7, 123456.789])),
        7 => r.pick(&[Val::Char('a'), Val::Char('&'), Val::Char('"'), Val::Char('é'), Val::UnitVariant("x=y"), Val::UnitVariant("b")]).clone(),
        8 => match r.below(6) {
            0 => Val::None,
            1 => Val::Unit,
            2 => Val::UnitStruct,
            3 => Val::Small(*r.pick(&[-128, 0, 127]), *r.pick(&[0, 65535])),
            4 => Val::Bytes((0..r.below(4)).map(|_| r.below(256) as u8).collect()),
            _ => Val::UnitVariant(*r.pick(NAMES)),
        },
        9 => Val::Some(Box::new(val(r, depth - 1))),
        10 => Val::Newtype(Box::new(val(r, depth - 1))),
        11 => Val::NewtypeVariant(*r.pick(NAMES), Box::new(val(r, depth - 1))),
        12 | 13 => Val::Seq(many(r)),
        14 => Val::Tuple(many(r)),
        15 => Val::TupleStruct(many(r)),
        16 => Val::TupleVariant(*r.pick(NAMES), many(r)),
        17 => {
            let mut seen = HashSet::new();
            Val::Map((0..r.below(4)).map(|_| (r.hostile(2), val(r, depth - 1))).filter(|(k, _)| seen.insert(k.clone())).collect())
        }
        18 => Val::Struct(names(r, 4).into_iter().map(|n| (n, val(r, depth - 1))).collect()),
        _ => Val::StructVariant(*r.pick(NAMES), names(r, 3).into_iter().map(|n| (n, val(r, depth - 1))).collect()),
    }
}

fn is_null(v: &Val) -> bool {
    serde_json::to_value(v).ok().is_some_and(|v| v.is_null())
}

/// Makes one value inside `v`, or `v` itself, one that cannot be serialized.
fn poison(r: &mut Rng, v: &mut Val) {
    let inside: Vec<&mut Val> = match v {
        Val::Some(b) | Val::Newtype(b) | Val::NewtypeVariant(_, b) => vec![b],
        Val::Seq(l) | Val::Tuple(l) | Val::TupleStruct(l) | Val::TupleVariant(_, l) => l.iter_mut().collect(),
        Val::Map(m) => m.iter_mut().map(|x| &mut x.1).collect(),
        Val::Struct(m) | Val::StructVariant(_, m) => m.iter_mut().map(|x| &mut x.1).collect(),
        _ => vec![],
    };
    if inside.is_empty() || r.chance(1, 5) {
        *v = Val::Fail;
    } else {
        let n = r.below(inside.len());
        poison(r, inside.into_iter().nth(n).unwrap());
    }
}

/// A whole message: an object, a map, or an enumerated value holding one thing.
fn message(r: &mut Rng) -> Val {
    let field = |r: &mut Rng| loop {
        let d = r.below(4);
        let mut v = val(r, d);
        if r.chance(1, 60) {
            // nested as deep as a JSON reader follows
            for _ in 0..r.size().min(100) {
                v = match r.below(4) {
                    0 => Val::Seq(vec![v]),
                    1 => Val::Map(vec![(r.hostile(2), v)]),
                    2 => Val::Some(Box::new(v)),
                    _ => Val::Struct(vec![(*r.pick(NAMES), v)]),
                };
            }
        }
        if !is_null(&v) {
            return v;
        }
    };
    match r.below(6) {
        0 if r.chance(1, 4) => {
            Val::TupleVariant(*r.pick(NAMES), (0..r.below(4)).map(|_| Val::Int(r.below(100) as i64)).collect())
        }
        0 => Val::NewtypeVariant(*r.pick(NAMES), Box::new(field(r))),
        1 => {
            let mut seen = HashSet::new();
            Val::Map((0..r.range(1, 4)).map(|_| (r.hostile(3), field(r))).filter(|(k, _)| seen.insert(k.clone())).collect())
        }
        _ => loop {
            let n = names(r, 6);
            if !n.is_empty() {
                return Val::Struct(n.into_iter().map(|n| (n, field(r))).collect());
            }
        },
    }
}

fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_json(x, y)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_json(v, w)))
        }
        _ => a == b,
    }
}

fn check_encode<T>(rep: &mut Rep, kind: &str, value: &T)
where
    T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let Some(text) = check_wire(rep, kind, value) else { return };
    // read back by the library itself
    match guarded(|| urlencode::from_str::<T>(&text)) {
        Err(p) => rep.violation("decode-panic", format!("{p} for {text}")),
        Ok(Err(e)) => rep.violation("round-trip-rejected", format!("{e}: {text} from {value:?}")),
        Ok(Ok(back)) => {
            rep.check(&back == value, "round-trip-changed", || format!("{back:?} from {value:?} via {text}"));
        }
    }
}

fn check_wire<T: Serialize + std::fmt::Debug>(rep: &mut Rep, kind: &str, value: &T) -> Option<String> {
    let text = match guarded(|| urlencode::to_string(value)) {
        Err(p) => {
            rep.violation(&format!("encode-panic/{kind}"), format!("{p} for {value:?}"));
            return None;
        }
        Ok(Err(e)) => {
            rep.violation(&format!("encode-error/{kind}"), format!("{e} for {value:?}"));
            return None;
        }
        Ok(Ok(t)) => t,
    };
    rep.eval(&format!("{kind} {text}"), text.contains('%'));
    rep.add("bytes_encoded", text.len() as u64);
    let clean = text.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~%&=".contains(&b));
    rep.check(clean, "not-url-safe", || format!("{text:?} from {value:?}"));

    // 1. parameter by parameter, read by an independent decoder
    let want = expected_params(value);
    match reference_pairs(&text) {
        Err(e) => rep.violation("not-a-form", format!("{e}: {text}")),
        Ok(got) => {
            rep.check(got.len() == want.len(), "parameter-count", || {
                format!("{} parameters from a value with {} fields: {text} from {value:?}", got.len(), want.len())
            });
            // field order follows the type, JSON's is sorted: compare as maps
            let mut got_map: BTreeMap<String, String> = BTreeMap::new();
            for (k, v) in &got {
                rep.check(got_map.insert(k.clone(), v.clone()).is_none(), "parameter-repeated", || {
                    format!("{k:?} appears twice: {text}")
                });
            }
            for (k, v) in &want {
                let Some(raw) = got_map.get(k) else {
                    rep.violation("parameter-missing", format!("{k:?} is not in {text} from {value:?}"));
                    continue;
                };
                rep.count("parameters_compared");
                let same = match v {
                    Value::String(s) => raw == s,
                    other => {
                        rep.count("structured_parameters");
                        serde_json::from_str::<Value>(raw).is_ok_and(|v| same_json(&v, other))
                    }
                };
                rep.check(same, "parameter-altered", || format!("{k:?}: {raw:?} on the wire for {v}"));
            }
        }
    }

    Some(text)
}
type Rep = Report;

/// Messages as large as any buffer, counter or limit may be: one long text in any
/// place, or very many parameters or elements.
fn large_message(rep: &mut Rep, i: u64) {
    let mut r = Rng::case(rep.seed ^ 0x1a, i);
    let top = if i % 50 == 0 { 1 << 20 } else if i % 4 == 0 { 1 << 17 } else { 1 << 14 };
    rep.count("large_messages");
    let size = r.limit(top);
    let kind = r.below(8);
    match kind {
        0 | 1 => {
            let mut v = ["p".to_string(), "q".to_string(), "r".to_string()];
            v[r.below(3)] = r.scaled(size);
            if r.chance(1, 2) {
                let other = size / 2 + r.below(9);
                v[r.below(3)] = r.scaled(other);
            }
            let [a, b, c_d] = v;
            check_encode(rep, "large-plain", &Plain { a, b, c_d });
        }
        2 => {
            let mut v = rich(&mut r);
            let text = r.scaled(size);
            match r.below(8) {
                0 => v.first = text,
                1 => v.nested.x = text,
                2 => v.opt = Some(text),
                3 => v.list.push(text),
                4 => {
                    v.map.insert("k".into(), text);
                }
                5 => v.shapes.push(Shape::New(text)),
                6 => v.wrapped = Wrapper(text),
                _ => v.last = text,
            }
            check_encode(rep, "large-rich", &v);
        }
        3 => {
            // one name or value is long
            let mut m: BTreeMap<String, String> = (0..r.below(4)).map(|_| (r.hostile(3), r.hostile(4))).collect();
            m.insert(r.scaled(size), r.scaled(size / 3));
            check_encode(rep, "large-map", &m);
        }
        4 | 5 => {
            // many parameters
            let many = r.limit(top.min(1 << 17) / 4);
            let m: BTreeMap<String, String> = (0..many).map(|k| (format!("k{k}é"), r.below(1000).to_string())).collect();
            rep.add("parameters_of_large_messages", many as u64);
            check_encode(rep, "many-parameters", &m);
        }
        _ => {
            // long lists of text, numbers, objects and maps
            let many = r.limit(top.min(1 << 17) / 8);
            let mut v = rich(&mut r);
            match r.below(4) {
                0 => v.list = (0..many).map(|k| format!("{k}&é")).collect(),
                1 => v.deep = (0..many / 4).map(|_| inner(&mut r)).collect(),
                2 => v.map = (0..many).map(|k| (format!("k{k}"), format!("=漢{k}"))).collect(),
                _ => v.shapes = (0..many).map(|_| shape(&mut r)).collect(),
            }
            check_encode(rep, "many-elements", &v);
        }
    }
}

fn encode(mut rep: Report) -> ! {
    // every single ASCII character and every pair of significant ones, in each position
    let sig = "&=%\"\\[]{}:, +'?#/a0\u{0}\n\u{e9}\u{1f980}";
    let mut fixed: Vec<Plain> = vec![];
    for c in (0u8..128).map(char::from).chain(['é', '漢', '\u{1f980}', '\u{fffd}', '\u{202e}']) {
        for k in 0..3 {
            let mut v = ["p".to_string(), "q".to_string(), "r".to_string()];
            v[k] = c.to_string();
            fixed.push(Plain { a: v[0].clone(), b: v[1].clone(), c_d: v[2].clone() });
        }
    }
    for x in sig.chars() {
        for y in sig.chars() {
            for s in [format!("{x}{y}"), format!("v{x}{y}w"), format!("{x}v{y}")] {
                fixed.push(Plain { a: s.clone(), b: "q".into(), c_d: s });
            }
        }
    }
    let base = fixed.len() as u64;
    let large = base + rep.n(700, 6_000);
    let n = large + rep.n(120_000, 800_000);
    for i in rep.cases(n) {
        rep.begin(i);
        if i >= base && i < large {
            large_message(&mut rep, i);
            continue;
        }
        if i < base {
            let v = fixed[i as usize].clone();
            check_encode(&mut rep, "plain", &v);
            let nested = Optional {
                p: None,
                q: None,
                r: Some(Inner { x: v.a.clone(), n: 1, ok: true, maybe: Some(v.c_d.clone()) }),
                z: v.a.clone(),
            };
            check_encode(&mut rep, "nested", &nested);
            continue;
        }
        let mut r = Rng::case(rep.seed, i);
        match i % 8 {
            6 | 7 => {
                let mut v = message(&mut r);
                if r.chance(1, 8) {
                    poison(&mut r, &mut v);
                    rep.count("unwritable_messages");
                    let got = guarded(|| urlencode::to_string(&v).map_err(|e| e.to_string()));
                    rep.check(matches!(got, Ok(Err(_))), "unwritable-message-written", || format!("{got:?} for {v:?}"));
                    continue;
                }
                rep.count("arbitrary_data_model_messages");
                check_wire(&mut rep, "model", &v);
            }
            0 if r.chance(1, 6) => floats(&mut rep, &mut r),
            0 if r.chance(1, 4) => {
                let kind = |r: &mut Rng| if r.chance(1, 3) { Kind::Object(inner(r)) } else { Kind::String(plain_text(r)) };
                let v = Kinds { k: kind(&mut r), l: r.chance(1, 2).then(|| kind(&mut r)), m: plain_text(&mut r) };
                check_encode(&mut rep, "text-or-object", &v);
            }
            0 if r.chance(1, 3) => {
                let v = scalars(&mut r);
                check_encode(&mut rep, "scalars", &v);
            }
            0 => check_encode(&mut rep, "plain", &Plain { a: r.hostile(8), b: r.hostile(8), c_d: r.hostile(8) }),
            1 | 2 => {
                let v = rich(&mut r);
                check_encode(&mut rep, "rich", &v);
            }
            3 => {
                let v = Optional {
                    p: r.chance(1, 2).then(|| r.hostile(5)),
                    q: r.chance(1, 2).then(|| (0..r.below(3)).map(|_| inner(&mut r)).collect()),
                    r: r.chance(1, 2).then(|| inner(&mut r)),
                    z: r.hostile(5),
                };
                check_encode(&mut rep, "optional", &v);
            }
            4 => {
                let m: BTreeMap<String, String> =
                    (0..1 + many(&mut r, 5)).map(|_| (r.hostile(3), r.hostile(4))).collect();
                check_encode(&mut rep, "map", &m);
            }
            _ => {
                let mut rest: BTreeMap<String, String> =
                    (0..r.below(4)).map(|_| (r.ident(), plain_text(&mut r))).collect();
                rest.remove("lead");
                check_encode(&mut rep, "flat", &Flat { lead: plain_text(&mut r), rest });
            }
        }
    }
    // the same messages once more, in another order and from several threads
    let asked: Vec<u64> = (0..rep.n(4_000, 40_000)).collect();
    let seed = rep.seed;
    sys::together(&mut rep, "encoding-depends-on-other-calls", &asked, |i| {
        let mut r = Rng::case(seed ^ 0x11, *i);
        match i % 3 {
            0 => format!("{:?}", urlencode::to_string(&rich(&mut r)).map_err(|e| e.to_string())),
            1 => format!("{:?}", urlencode::to_string(&scalars(&mut r)).map_err(|e| e.to_string())),
            _ => {
                let mut v = message(&mut r);
                if r.chance(1, 4) {
                    poison(&mut r, &mut v);
                }
                format!("{:?}", urlencode::to_string(&v).map_err(|e| e.to_string()))
            }
        }
    });
    rep.require("parameters_compared", 10_000);
    rep.require("structured_parameters", 5_000);
    rep.require("large_messages", 500);
    rep.finish(
        "every ASCII character and every pair of significant characters in each position, then random values of \
         6 field layouts (text, nested objects, lists, maps, tuples, enums, optional, flattened) and of the whole \
         serialization data model nested at random, filled with hostile \
         text; messages up to a megabyte and of tens of thousands of parameters and elements; non-trivial = at least one character had to be percent-encoded. Oracles: an independent form reader \
         compared parameter by parameter with the value's JSON, and the library's own decoder",
        &["fractions are ones that every JSON reader reads exactly",
          "a message that is itself a tuple variant of an enumeration is generated with numbers only, and none is a struct variant"],
    )
}

/// hostile text that is not itself a JSON array or object: flattened fields are
/// untyped, so text of that form is read as JSON by design.
fn plain_text(r: &mut Rng) -> String {
    let s = match r.below(8) {
        0 => {
            // text that resembles JSON
            let t = r.hostile(2);
            let j = serde_json::to_string(&t).unwrap();
            match r.below(9) {
                0 => j,
                1 => format!(" [{j}]"),
                2 => format!("\n{{{j}:1}}"),
                3 => r.pick(&["null", "true", "false", "12", "-0.5", "1e3", "\"\"", "\u{feff}[]", "\t{}"]).to_string(),
                4 => format!("[{t}"),
                5 => format!("{{{t}"),
                6 => format!("[{j}] "),
                7 => format!("[{j}]]"),
                _ => format!("{{{j}:1}}}}"),
            }
        }
        _ => r.hostile(5),
    };
    // (a JSON reader disregards white space at the end)
    if s.starts_with(['[', '{']) && serde_json::from_str::<Value>(&s).is_ok() {
        format!("t{s}")
    } else {
        s
    }
}

// ------------------------------------------------------------------- decoding

fn percent(r: &mut Rng, s: &str, name: bool) -> String {
    // any byte may be percent-encoded; those significant to the form must be (an
    // equals sign ends the name only)
    let style = r.below(3);
    let mixed = r.chance(1, 4);
    let mut lower = r.chance(1, 2);
    let mut out = String::new();
    for c in s.chars() {
        if mixed {
            lower = r.chance(1, 2);
        }
        let must = if name { "&=%" } else { "&%" }.contains(c);
        let enc = must
            || match style {
                0 => !(c.is_ascii_alphanumeric() || "-._~".contains(c)),
                1 => r.chance(1, 2),
                _ => false,
            };
        if enc {
            let mut buf = [0; 4];
            for b in c.encode_utf8(&mut buf).bytes() {
                out += &if lower { format!("%{b:02x}") } else { format!("%{b:02X}") };
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn decode(mut rep: Report) -> ! {
    let n = rep.n(150_000, 900_000);
    let mut kept: Vec<String> = vec![];
    for i in rep.cases(n) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 2, i);
        // a form written by somebody else's encoder
        let list: Vec<String> = (0..many(&mut r, 4)).map(|_| r.hostile(3)).collect();
        let nested = inner(&mut r);
        let mode = *r.pick(&[("direct_post", Mode::DirectPost), ("query", Mode::Query), ("urn:x-y:z", Mode::Urn)]);
        let mut texts: Vec<String> = (0..3).map(|_| r.hostile(6)).collect();
        let opt = r.chance(1, 2).then(|| r.hostile(4));
        if i % 400 == 200 {
            let size = r.limit(if i % 2000 == 200 { 1 << 20 } else { 1 << 14 });
            texts[r.below(3)] = r.scaled(size);
            rep.count("long_values");
        }

        #[derive(Debug, Deserialize, PartialEq)]
        struct Form {
            a: String,
            #[serde(rename = "b.c-d_e")]
            b: String,
            c: Wrapper,
            list: Vec<String>,
            nested: Inner,
            mode: Mode,
            n: u32,
            yes: bool,
            opt: Option<String>,
            i: i64,
            u: u64,
            byte: u8,
            f: f64,
            kind: Kind<Inner>,
            ol: Option<Vec<String>>,
            oi: Option<Inner>,
            on: Option<i64>,
            oy: Option<bool>,
            om: Option<BTreeMap<String, Option<String>>>,
            pair: (u8, String),
        }
        let i64_ = *r.pick(&[0, -1, 7, i64::MAX, i64::MIN, (1 << 53) + 1, -(1 << 53) - 1, 1 << 62]);
        let u64_ = *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, (1 << 53) + 1, (1 << 63) + 1, i64::MAX as u64]);
        let byte = r.next() as u8;
        let (f, f_text) = if r.chance(1, 6) {
            let t = *r.pick(&["1e300", "-1e300", "1e305", "1e-300", "-0.0", "0.0", "1E5", "1e+5", "25e-1", "-1e15", "1e22", "100000000000000000000"]);
            (t.parse().unwrap(), t.to_string())
        } else {
            let f = (r.next() as i32) as f64 / *r.pick(&[1.0, 4.0, 32.0]);
            (f, f.to_string())
        };
        let ol = r.chance(1, 2).then(|| (0..r.below(3)).map(|_| r.hostile(2)).collect::<Vec<String>>());
        let oi = r.chance(1, 2).then(|| inner(&mut r));
        let on = r.chance(1, 2).then(|| *r.pick(&[0, 1, -1, i64::MAX, i64::MIN]));
        let oy = r.chance(1, 2).then(|| r.chance(1, 2));
        let om: Option<BTreeMap<String, Option<String>>> = r
            .chance(1, 2)
            .then(|| (0..r.below(3)).map(|_| (r.hostile(2), r.chance(2, 3).then(|| r.hostile(2)))).collect());
        let pair = (r.next() as u8, r.hostile(3));
        let kind = if r.chance(1, 3) { Kind::Object(inner(&mut r)) } else { Kind::String(plain_text(&mut r)) };
        let n = r.next() as u32;
        let yes = r.chance(1, 2);
        let want = Form {
            a: texts[0].clone(),
            b: texts[1].clone(),
            c: Wrapper(texts[2].clone()),
            list: list.clone(),
            nested: nested.clone(),
            mode: mode.1,
            n,
            yes,
            opt: opt.clone(),
            i: i64_,
            u: u64_,
            byte,
            f,
            kind: kind.clone(),
            ol: ol.clone(),
            oi: oi.clone(),
            on,
            oy,
            om: om.clone(),
            pair: pair.clone(),
        };
        let mut fields: Vec<(String, String)> = vec![
            ("a".into(), texts[0].clone()),
            ("b.c-d_e".into(), texts[1].clone()),
            ("c".into(), texts[2].clone()),
            ("list".into(), serde_json::to_string(&list).unwrap()),
            ("nested".into(), serde_json::to_string(&nested).unwrap()),
            ("mode".into(), mode.0.to_string()),
            ("n".into(), n.to_string()),
            ("yes".into(), yes.to_string()),
            ("i".into(), i64_.to_string()),
            ("u".into(), u64_.to_string()),
            ("byte".into(), byte.to_string()),
            ("f".into(), f_text),
            ("pair".into(), serde_json::to_string(&pair).unwrap()),
            (
                "kind".into(),
                match &kind {
                    Kind::String(t) => t.clone(),
                    Kind::Object(o) => serde_json::to_string(o).unwrap(),
                },
            ),
        ];
        if let Some(o) = &opt {
            fields.push(("opt".into(), o.clone()));
        }
        fields.extend(ol.map(|x| ("ol".into(), serde_json::to_string(&x).unwrap())));
        fields.extend(oi.map(|x| ("oi".into(), serde_json::to_string(&x).unwrap())));
        fields.extend(on.map(|x| ("on".into(), x.to_string())));
        fields.extend(oy.map(|x| ("oy".into(), x.to_string())));
        fields.extend(om.map(|x| ("om".into(), serde_json::to_string(&x).unwrap())));
        // now and then very many, and long ones
        let big = i % 400 == 0;
        let unknown = if big { r.limit(if i % 4000 == 0 { 1 << 17 } else { 1 << 11 }) } else { r.below(3) };
        if big {
            rep.count("large_forms");
        }
        for k in 0..unknown {
            fields.push((format!("zz{k}{}", r.hostile(2)), r.hostile(3)));
        }
        r.shuffle(&mut fields);
        let broken = r.below(9);
        let required = ["a", "b.c-d_e", "c", "list", "nested", "mode", "n", "yes", "i", "u", "byte", "f", "kind", "pair"];
        let mut expect_ok = true;
        match broken {
            0 => {
                // drop a required field
                let k = *r.pick(&required);
                fields.retain(|(key, _)| key != k);
                expect_ok = false;
            }
            1 => {
                // repeat a field
                let k = *r.pick(&required);
                let f = fields.iter().find(|(key, _)| key == k).unwrap().clone();
                fields.push(f);
                expect_ok = false;
            }
            2 => {
                // a value of the wrong type
                let k = *r.pick(&["list", "nested", "mode", "n", "yes", "byte", "i", "u", "f", "pair"]);
                for f in &mut fields {
                    if f.0 == k {
                        let mut wrong =
                            vec!["text", "", "nope", "{\"unterminated\":", "[1,2", "True", "null", "[]x", "\"", "0x10", "+5", "05"];
                        match k {
                            "list" => wrong.extend(["a,b", "{}", "[1]", "[\"a\"]x", "[\"a\",]", "\"a\"", "[\"a\",2]", "true", "1.5"]),
                            "nested" => wrong.extend(["{}", "{\"x\":\"\"}", "{\"x\":\"\",\"n\":1.5,\"ok\":true}", "true", "-17", "{\"x\":\"\",\"n\":1,\"ok\":true}}"]),
                            "mode" => wrong.extend([
                                " query", "query ", "Query", "QUERY", "quer", "queryx", "\"query\"", "direct-post", "directpost",
                                "DirectPost", "Urn", "urn:X-y:z", "0", "query,direct_post", "query\n",
                            ]),
                            "pair" => wrong.extend(["[]", "[1]", "[\"a\",1]", "[1,\"a\",2]", "[1,\"a\"]]", "[256,\"a\"]", "[1,2]", "1,a", "[1,null]"]),
                            "yes" => wrong.extend(["TRUE", "1", "0", "yes", "on", "t", "\"true\"", "truex", "[true]"]),
                            "f" => wrong.extend(["1,5", "inf", "NaN", "1.5.5", "true", "\"1\"", "."]),
                            "byte" => wrong.extend(["256", "-1", "1.5", "300", "65536", "4294967296", "true", "\"1\"", "1e400", "5.0", "1e2", "-0.0"]),
                            "n" => wrong.extend(["-17", "1.5", "4294967296", "18446744073709551616", "true", "\"1\"", "1 2", "5.0", "1e3"]),
                            "i" => wrong.extend(["9223372036854775808", "-9223372036854775809", "1.5", "true", "\"1\"", "1,000", "-5.0", "1e3"]),
                            _ => wrong.extend(["18446744073709551616", "-1", "1.5", "true", "\"1\"", "1_000", "5.0", "1e3"]),
                        }
                        f.1 = r.pick(&wrong).to_string();
                    }
                }
                expect_ok = false;
            }
            4 => {
                // a required field under a name that only resembles its own
                let k = *r.pick(&required);
                for f in &mut fields {
                    if f.0 == k {
                        f.0 = match r.below(9) {
                            0 => format!("?{k}"),
                            1 => format!(" {k}"),
                            2 => format!("{k} "),
                            3 => format!("{k}[]"),
                            4 => k.to_uppercase(),
                            5 => format!("{k}\u{0}"),
                            6 => format!("{}{k}", r.pick(&["#", "amp;", "/", "\u{feff}", "&", "=", "\"", ";", "+"])),
                            7 => format!("\"{k}\""),
                            _ => format!("{k}="),
                        };
                    }
                }
                expect_ok = false;
                rep.count("misnamed_fields");
            }
            _ => {}
        }
        let wire: Vec<String> =
            fields.iter().map(|(k, v)| format!("{}={}", percent(&mut r, k, true), percent(&mut r, v, false))).collect();
        let mut wire = wire;
        if broken == 3 {
            // a part that is not name=value
            let at = r.below(wire.len() + 1);
            wire.insert(at, r.pick(&["zzz", "a", "", "%41", "list"]).to_string());
            expect_ok = false;
        }
        if broken == 5 {
            // bytes that are not text in a required field
            let k = *r.pick(&["a", "b.c-d_e", "c", "kind", "mode"]);
            let at = fields.iter().position(|(key, _)| key == k).unwrap();
            let (name, value) = wire[at].split_once('=').unwrap();
            let odd = *r.pick(&["%FF", "%80", "%C3", "%e2%82", "%C0%AF", "%ED%A0%80", "%F5%80%80%80", "%F0%9F%A6", "%fe", "%C3%28"]);
            wire[at] = if r.chance(1, 2) { format!("{name}={odd}{value}") } else { format!("{name}={value}{odd}") };
            expect_ok = false;
            rep.count("not_utf8");
        }
        let wire = wire.join("&");
        rep.eval(&wire, wire.contains('%'));
        if kept.len() < 4_000 && wire.len() < 8_000 {
            kept.push(wire.clone());
        }
        match guarded(|| urlencode::from_str::<Form>(&wire)) {
            Err(p) => rep.violation("decode-panic", format!("{p}: {wire}")),
            Ok(Ok(got)) => {
                if expect_ok {
                    rep.count("forms_decoded");
                    rep.check(got == want, "decoded-differently", || format!("{got:?}, sent {want:?} as {wire}"));
                } else {
                    rep.violation(&format!("malformed-accepted/{broken}"), format!("{got:?} from {wire}"));
                }
            }
            Ok(Err(e)) => {
                if expect_ok {
                    rep.violation("well-formed-rejected", format!("{e}: {wire}"));
                } else {
                    rep.count("malformed_rejected");
                    rep.saw("rejection_reasons", &e.to_string());
                }
            }
        }
        // arbitrary text never panics, and what it yields is what the form says
        let junk = match r.below(3) {
            0 => r.hostile(12),
            1 => {
                let mut b: Vec<char> = wire.chars().collect();
                if !b.is_empty() {
                    let at = r.below(b.len());
                    match r.below(3) {
                        0 => {
                            b.remove(at);
                        }
                        1 => b.insert(at, *r.pick(&['&', '=', '%', '"', '{', '[', '\\'])),
                        _ => b.truncate(at),
                    }
                }
                b.into_iter().collect()
            }
            _ => format!("a={}&b={}&c_d={}", r.hostile(4), r.hostile(4), r.hostile(4)),
        };
        rep.count("arbitrary_inputs");
        match guarded(|| {
            let _ = urlencode::from_str::<Rich>(&junk);
            urlencode::from_str::<Plain>(&junk)
        }) {
            Err(p) => rep.violation("decode-panic", format!("{p}: {junk}")),
            Ok(Ok(got)) => {
                rep.count("arbitrary_inputs_accepted");
                // first-principles reading, when the text is unambiguous
                if let Ok(pairs) = reference_pairs(&junk) {
                    let find = |k: &str| pairs.iter().find(|(key, _)| key == k).map(|(_, v)| v.clone());
                    let want = (find("a"), find("b"), find("c_d"));
                    rep.check(
                        want == (Some(got.a.clone()), Some(got.b.clone()), Some(got.c_d.clone())),
                        "arbitrary-misread",
                        || format!("{got:?} from {junk:?}"),
                    );
                }
            }
            Ok(Err(e)) => {
                // refused, though nothing is wrong with it
                if let Ok(pairs) = reference_pairs(&junk) {
                    let once = |k: &str| pairs.iter().filter(|(key, _)| key == k).count() == 1;
                    rep.check(!["a", "b", "c_d"].iter().all(|k| once(k)), "well-formed-rejected", || format!("{e}: {junk:?}"));
                }
            }
        }
    }
    sys::together(&mut rep, "decoding-depends-on-other-calls", &kept, |w| {
        format!(
            "{:?} {:?} {:?}",
            urlencode::from_str::<BTreeMap<String, String>>(w).map_err(|e| e.to_string()),
            urlencode::from_str::<Plain>(w).map_err(|e| e.to_string()),
            urlencode::from_str::<Partial>(w).map_err(|e| e.to_string()),
        )
    });
    rep.require("forms_decoded", 5_000);
    rep.require("malformed_rejected", 2_000);
    rep.require("large_forms", 100);
    rep.require("long_values", 100);
    rep.finish(
        "forms written by an independent encoder (any character may be percent-encoded in either hex case, fields in \
         any order, unknown fields present), half of them made malformed (missing, repeated or wrongly typed \
         field, part without a value, bytes that are not UTF-8), plus arbitrary text; non-trivial = uses percent-encoding. Oracle: the values the form was written from",
        &["a `+` stands for itself, as the encoder never writes a space that way"],
    )
}

// ---------------------------------------------------------------- identifiers

type Gen = (&'static str, fn() -> String);
const GENS: [Gen; 7] = [
    ("auth_code", gen::auth_code),
    ("issuer_state", gen::issuer_state),
    ("nonce", gen::nonce),
    ("notification_id", gen::notification_id),
    ("uri_token", gen::uri_token),
    ("token", gen::token),
    ("transaction_id", gen::transaction_id),
];

fn emit_ids() {
    let draw = || {
        let mut out = String::new();
        for _ in 0..40 {
            for (name, g) in GENS {
                out += &format!("{name} {}\n", g());
            }
            out += &format!("code_verifier {}\n", pkce::code_verifier());
        }
        let pins: Vec<String> = (0..10).map(|_| gen::tx_code()).collect();
        out + &format!("pins {}\n", pins.join(""))
    };
    print!("{}", draw());
    // and on threads of this process, with and without a name
    for name in [None, None, Some("worker"), None, Some("worker-1"), None] {
        let mut b = std::thread::Builder::new();
        if let Some(n) = name {
            b = b.name(n.into());
        }
        if let Ok(out) = b.spawn(draw).unwrap().join() {
            print!("{out}");
        }
    }
}

/// How the symbols at two places of a log relate: the counts of their difference
/// modulo the alphabet, uniform when they are independent.
struct Relations {
    size: usize,
    width: usize,
    within: Vec<Vec<u64>>,
    across: Vec<Vec<u64>>,
    prev: Vec<usize>,
}

impl Relations {
    fn new(size: usize, width: usize) -> Self {
        let w2 = width * width;
        Self { size, width, within: vec![vec![0; size]; w2], across: vec![vec![0; size]; w2], prev: vec![] }
    }

    fn add(&mut self, item: Vec<usize>) {
        for p in 0..self.width {
            for q in 0..self.width {
                if p < q {
                    self.within[p * self.width + q][(item[p] + self.size - item[q]) % self.size] += 1;
                }
                if !self.prev.is_empty() {
                    self.across[p * self.width + q][(item[p] + self.size - self.prev[q]) % self.size] += 1;
                }
            }
        }
        self.prev = item;
    }

    fn judge(&self, rep: &mut Report, what: &str) {
        for (kind, all) in [("within one", &self.within), ("in successive ones", &self.across)] {
            for (k, c) in all.iter().enumerate().filter(|x| x.1.iter().sum::<u64>() > 1000) {
                rep.count("independence_tests");
                let x = chi(c);
                rep.check(x <= chi_limit(self.size), "identifiers-related", || {
                    format!("{what}: places {} and {} {kind} are related, chi-square {x:.0}", k / self.width, k % self.width)
                });
            }
        }
    }
}

/// What the first `width` symbols of the items of a log are made of, against what
/// independent uniform symbols would give: how many of each class and how many
/// different ones an item has, the pairs that stand next to each other, and how
/// often a symbol comes three times running.
struct Composition {
    size: usize,
    width: usize,
    class_of: Vec<usize>,
    classes: [usize; 4],
    items: u64,
    in_class: Vec<Vec<u64>>,
    different: Vec<u64>,
    pairs: Vec<u64>,
    thrice: u64,
    // items of any length without a symbol of the class, and how many to expect
    without: [(u64, f64); 4],
}

impl Composition {
    fn new(alphabet: &[u8], width: usize) -> Self {
        let class_of: Vec<usize> = alphabet
            .iter()
            .map(|b| match b {
                b'A'..=b'Z' => 0,
                b'a'..=b'z' => 1,
                b'0'..=b'9' => 2,
                _ => 3,
            })
            .collect();
        let mut classes = [0; 4];
        for c in &class_of {
            classes[*c] += 1;
        }
        let size = alphabet.len();
        Self {
            size,
            width,
            class_of,
            classes,
            items: 0,
            in_class: vec![vec![0; width + 1]; 4],
            different: vec![0; width + 1],
            pairs: vec![0; size * size],
            thrice: 0,
            without: [(0, 0.0); 4],
        }
    }

    fn add(&mut self, item: &[usize]) {
        let mut all = [0; 4];
        for s in item {
            all[self.class_of[*s]] += 1;
        }
        for c in 0..4 {
            self.without[c].0 += u64::from(all[c] == 0);
            self.without[c].1 += (1.0 - self.classes[c] as f64 / self.size as f64).powi(item.len() as i32);
        }
        let item = &item[..self.width.min(item.len())];
        self.items += 1;
        let mut counts = [0; 4];
        let mut seen = [false; 256];
        for s in item {
            counts[self.class_of[*s]] += 1;
            seen[*s] = true;
        }
        for c in 0..4 {
            self.in_class[c][counts[c]] += 1;
        }
        self.different[seen.iter().filter(|x| **x).count()] += 1;
        for w in item.windows(2) {
            self.pairs[w[0] * self.size + w[1]] += 1;
        }
        self.thrice += item.windows(3).filter(|w| w[0] == w[1] && w[1] == w[2]).count() as u64;
    }

    fn merge(&mut self, other: &Self) {
        self.items += other.items;
        self.thrice += other.thrice;
        for c in 0..4 {
            self.without[c].0 += other.without[c].0;
            self.without[c].1 += other.without[c].1;
            self.in_class[c].iter_mut().zip(&other.in_class[c]).for_each(|(a, b)| *a += b);
        }
        self.different.iter_mut().zip(&other.different).for_each(|(a, b)| *a += b);
        self.pairs.iter_mut().zip(&other.pairs).for_each(|(a, b)| *a += b);
    }

    fn judge(&self, rep: &mut Report, what: &str) {
        let n = self.items as f64;
        let width = self.width;
        for c in 0..4 {
            // binomial
            let p = self.classes[c] as f64 / self.size as f64;
            let mut want = vec![0.0; width + 1];
            want[0] = n;
            for _ in 0..width {
                for k in (0..=width).rev() {
                    want[k] = want[k] * (1.0 - p) + if k > 0 { want[k - 1] * p } else { 0.0 };
                }
            }
            let class = ["capital", "small letter", "digit", "sign"][c];
            fits(rep, &format!("{what}: how often a {class} occurs in one"), &self.in_class[c], &want);
            let (got, want) = self.without[c];
            fits(rep, &format!("{what}: without a {class}"), &[got, self.items - got], &[want, n - want]);
        }
        // occupancy
        let mut want = vec![0.0; width + 1];
        want[0] = n;
        for _ in 0..width {
            for k in (0..=width).rev() {
                let old = k as f64 / self.size as f64;
                let new = if k > 0 { want[k - 1] * (1.0 - (k - 1) as f64 / self.size as f64) } else { 0.0 };
                want[k] = want[k] * old + new;
            }
        }
        fits(rep, &format!("{what}: how many different symbols one has"), &self.different, &want);
        let places: u64 = self.pairs.iter().sum();
        let each = places as f64 / (self.size * self.size) as f64;
        fits(rep, &format!("{what}: symbols side by side"), &self.pairs, &vec![each; self.pairs.len()]);
        let runs = n * (width - 2) as f64;
        let same = runs / (self.size * self.size) as f64;
        fits(
            rep,
            &format!("{what}: one symbol three times running"),
            &[self.thrice, runs as u64 - self.thrice],
            &[same, runs - same],
        );
    }
}

/// Stretches of twelve symbols met so far; no two identifiers have one in common.
#[derive(Default)]
struct Stretches {
    met: HashSet<u64, std::hash::BuildHasherDefault<Hashed>>,
}

/// The keys are hashes already.
#[derive(Default)]
struct Hashed(u64);

impl std::hash::Hasher for Hashed {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, n: u64) {
        self.0 = n;
    }
}

impl Stretches {
    fn add(&mut self, rep: &mut Report, what: &str, item: &[usize]) {
        for w in item.windows(12) {
            let mut h = 0x9e37_79b9_7f4a_7c15u64;
            for s in w {
                h = (h ^ *s as u64).wrapping_mul(0xd6e8_feb8_6659_fd93);
                h ^= h >> 29;
            }
            let new = self.met.insert(h);
            rep.check(new, "identifiers-share-a-stretch", || format!("{what}: {w:?} (places in the alphabet) came before"));
        }
        rep.count("stretches_compared");
    }
}

/// Counts against what is expected: cells where fewer than 20 are expected are
/// taken together, no cell is off by more than 9 standard deviations, and the
/// whole is within the chi-square limit.
fn fits(rep: &mut Report, what: &str, got: &[u64], want: &[f64]) {
    let mut cells: Vec<(f64, f64)> = vec![];
    let mut rest = (0.0, 0.0);
    for (g, w) in got.iter().zip(want) {
        if *w < 20.0 {
            rest = (rest.0 + *g as f64, rest.1 + w);
        } else {
            cells.push((*g as f64, *w));
        }
    }
    if rest.1 >= 20.0 {
        cells.push(rest);
    } else {
        // next to nothing expected: more than that, and 40 besides, is too much
        rep.check(rest.0 <= rest.1 * 2.0 + 40.0, "identifiers-made-up", || {
            format!("{what}: {} where {:.1} are expected", rest.0, rest.1)
        });
    }
    rep.count("composition_tests");
    let mut x = 0.0;
    for (g, w) in &cells {
        let z = (g - w) / w.sqrt();
        x += z * z;
        // small counts are skewed upwards: allow for that
        rep.check(z.abs() <= 9.0 || (g - w).abs() <= 9.0 * w.sqrt() + 15.0, "identifiers-made-up", || {
            format!("{what}: {g} where {w:.0} are expected")
        });
        if w.sqrt() * 9.0 + 15.0 > *w {
            rep.check(*g > 0.0, "identifiers-made-up", || format!("{what}: never, where {w:.0} are expected"));
        }
    }
    rep.check(cells.len() < 2 || x <= chi_limit(cells.len()), "identifiers-made-up", || {
        format!("{what}: chi-square {x:.0} over {} cells", cells.len())
    });
}

/// Upper bound for a chi-square statistic with `k` cells: mean + 12 standard
/// deviations + slack, far beyond any plausible sample of a fair source.
fn chi_limit(k: usize) -> f64 {
    let d = (k - 1) as f64;
    d + 12.0 * (2.0 * d).sqrt() + 60.0
}

fn chi(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum()
}

fn uniform(rep: &mut Report, what: &str, sig: &str, counts: &HashMap<Vec<u8>, u64>, cells: usize) {
    rep.count("uniformity_tests");
    let mut v: Vec<u64> = counts.values().copied().collect();
    if v.len() > cells {
        rep.violation(&format!("{sig}/alphabet"), format!("{what}: {} different symbols, expected {cells}", v.len()));
        return;
    }
    v.resize(cells, 0);
    let x = chi(&v);
    rep.check(x <= chi_limit(cells), sig, || {
        format!("{what}: chi-square {x:.0} over {cells} cells (limit {:.0}): {counts:?}", chi_limit(cells))
    });
}

fn identifiers(mut rep: Report) -> ! {
    let alphabet: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789)(*&^%$#@!~";
    let place = |b: u8| alphabet.iter().position(|x| *x == b);
    let n = rep.n(70_000, 300_000) as usize;
    let mut all: HashMap<String, String> = HashMap::new();
    let note = |rep: &mut Report, all: &mut HashMap<String, String>, id: String, from: String| {
        if let Some(before) = all.insert(id.clone(), from.clone()) {
            rep.violation("identifier-repeated", format!("{id} from {before} and again from {from}"));
        }
    };
    // shape of one identifier; the places of its characters in the alphabet
    let shape = |rep: &mut Report, name: &str, id: &str| -> Option<Vec<usize>> {
        let url_safe = id.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_');
        rep.check(url_safe, "identifier-not-url-safe", || format!("{name}: {id}"));
        let raw = Base64UrlUnpadded::decode_vec(id).unwrap_or_default();
        rep.check(raw.len() == 32 && id.len() == 43, "identifier-length", || format!("{name}: {id}"));
        let places: Vec<usize> = raw.iter().filter_map(|b| place(*b)).collect();
        rep.check(places.len() == raw.len(), "identifier-alphabet", || format!("{name}: {id} decodes to {raw:?}"));
        (places.len() == 32).then_some(places)
    };
    let spread = |rep: &mut Report, what: &str, pos: &[Vec<u64>]| {
        for (p, c) in pos.iter().enumerate() {
            rep.count("uniformity_tests");
            let x = chi(c);
            rep.check(x <= chi_limit(c.len()), "identifier-skewed", || {
                format!("{what} position {p}: chi-square {x:.0} over {} symbols: {c:?}", c.len())
            });
        }
        // all positions together show smaller biases
        let sum: Vec<u64> = (0..alphabet.len()).map(|k| pos.iter().map(|c| c[k]).sum()).collect();
        let x = chi(&sum);
        rep.check(x <= chi_limit(sum.len()), "identifier-skewed", || format!("{what}: chi-square {x:.0}: {sum:?}"));
    };
    let mut made = Composition::new(alphabet, 32);
    let mut stretches = Stretches::default();
    for (name, g) in GENS {
        rep.begin(0);
        let mut own = Composition::new(alphabet, 32);
        let mut pos = vec![vec![0u64; alphabet.len()]; 32];
        let mut rel = Relations::new(alphabet.len(), 32);
        for k in 0..n {
            let id = match guarded(g) {
                Ok(id) => id,
                Err(p) => {
                    rep.violation("generator-panic", format!("{name}: {p}"));
                    break;
                }
            };
            rep.eval(&id, true);
            if let Some(places) = shape(&mut rep, name, &id) {
                for (p, b) in places.iter().enumerate() {
                    pos[p][*b] += 1;
                }
                own.add(&places);
                made.add(&places);
                stretches.add(&mut rep, name, &places);
                rel.add(places);
            }
            note(&mut rep, &mut all, id, format!("{name} #{k} main"));
        }
        spread(&mut rep, name, &pos);
        rel.judge(&mut rep, name);
        own.judge(&mut rep, name);
    }
    made.judge(&mut rep, "all kinds");
    // one after the other, as endpoints draw them
    let mut rel = Relations::new(alphabet.len(), 32);
    for k in 0..n {
        let (name, g) = GENS[k % GENS.len()];
        if let Ok(id) = guarded(g) {
            if let Some(places) = shape(&mut rep, name, &id) {
                stretches.add(&mut rep, name, &places);
                rel.add(places);
            }
            note(&mut rep, &mut all, id, format!("{name} #{k} in turn"));
        }
    }
    rel.judge(&mut rep, "different kinds in turn");
    // a long-lived endpoint: many more draws, remembered by a fingerprint
    let mut prints: HashSet<u128> = HashSet::new();
    for k in 0..rep.n(2_500_000, 20_000_000) as usize {
        let (name, g) = GENS[k % GENS.len()];
        let id = guarded(g).unwrap_or_default();
        rep.count("long_run_identifiers");
        let b = id.as_bytes();
        let fp = (0..b.len().min(43)).fold(0u128, |h, j| h.wrapping_mul(0x0100_0000_0000_0000_0000_013b) ^ u128::from(b[j]));
        if id.len() != 43 || !prints.insert(fp) {
            rep.violation("identifier-repeated", format!("{id} from {name} after {k} draws"));
            break;
        }
    }
    drop(prints);
    // the user PIN: six independent digits
    let digits = |pin: &str| -> Option<Vec<usize>> {
        let ok = pin.len() == 6 && pin.bytes().all(|b| b.is_ascii_digit());
        ok.then(|| pin.bytes().map(|b| usize::from(b - b'0')).collect())
    };
    let mut pins = vec![vec![0u64; 10]; 6];
    let mut rel = Relations::new(10, 6);
    let mut seen = HashSet::new();
    let m = n * 4;
    for _ in 0..m {
        let pin = guarded(gen::tx_code).unwrap_or_default();
        rep.eval(&format!("pin {pin}"), true);
        let Some(d) = digits(&pin) else {
            rep.violation("tx-code-shape", pin);
            continue;
        };
        for p in 0..6 {
            pins[p][d[p]] += 1;
        }
        rel.add(d);
        seen.insert(pin);
    }
    for (p, c) in pins.iter().enumerate() {
        let x = chi(c);
        rep.check(x <= chi_limit(10), "tx-code-skewed", || format!("digit {p}: chi-square {x:.0}: {c:?}"));
    }
    rel.judge(&mut rep, "tx_code");
    // birthday: m draws from 10^6 leave about 10^6 (1 - e^(-m/10^6)) distinct codes
    let expect = 1e6 * (1.0 - (-(m as f64) / 1e6).exp());
    rep.check((seen.len() as f64) > 0.97 * expect - 50.0, "tx-code-repeats", || {
        format!("{} distinct codes in {m} draws, about {expect:.0} expected", seen.len())
    });

    every_pin(&mut rep);

    // threads started together
    let threads = rep.n(32, 64);
    let mut pos = vec![vec![0u64; alphabet.len()]; 32];
    let mut rel = Relations::new(alphabet.len(), 32);
    let mut pins: HashMap<String, String> = HashMap::new();
    for round in 0..rep.n(4, 20) {
        let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads as usize));
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let b = barrier.clone();
                std::thread::spawn(move || {
                    b.wait();
                    let mut out = vec![];
                    // some threads draw PINs first
                    let pins = || (0..10).map(|_| gen::tx_code()).collect::<String>();
                    let early = (t % 2 == 0).then(pins);
                    for _ in 0..100 {
                        for (name, g) in GENS {
                            out.push((name, t, g()));
                        }
                    }
                    let verifiers: Vec<String> = (0..10).map(|_| pkce::code_verifier()).collect();
                    (out, early.unwrap_or_else(pins), verifiers)
                })
            })
            .collect();
        for h in handles {
            match h.join() {
                Ok((ids, codes, verifiers)) => {
                    for (name, t, id) in ids {
                        rep.count("thread_identifiers");
                        if let Some(places) = shape(&mut rep, name, &id) {
                            for (p, b) in places.iter().enumerate() {
                                pos[p][*b] += 1;
                            }
                            stretches.add(&mut rep, name, &places);
                            rel.add(places);
                        }
                        note(&mut rep, &mut all, id, format!("{name} round {round} thread {t}"));
                    }
                    for v in verifiers {
                        note(&mut rep, &mut all, v, format!("code_verifier round {round}"));
                    }
                    let ok = codes.len() == 60 && codes.bytes().all(|b| b.is_ascii_digit());
                    rep.check(ok, "tx-code-shape", || codes.clone());
                    if let Some(before) = pins.insert(codes.clone(), format!("round {round}")) {
                        rep.violation("tx-codes-repeated", format!("{codes} in a thread of {before} and of round {round}"));
                    }
                }
                Err(_) => rep.violation("generator-panic", "in a thread"),
            }
        }
    }
    spread(&mut rep, "threads", &pos);
    rel.judge(&mut rep, "threads");
    // processes started together
    for (k, text) in emitted(&mut rep).into_iter().enumerate() {
        for line in text.lines() {
            match line.split_once(' ') {
                Some(("pins", codes)) => {
                    if let Some(before) = pins.insert(codes.to_string(), format!("process {k}")) {
                        rep.violation("tx-codes-repeated", format!("{codes} in {before} and process {k}"));
                    }
                }
                Some((name, id)) => {
                    rep.count("process_identifiers");
                    if name != "code_verifier" {
                        if let Some(places) = shape(&mut rep, name, id) {
                            stretches.add(&mut rep, name, &places);
                        }
                    }
                    note(&mut rep, &mut all, id.to_string(), format!("{name} process {k}"));
                }
                None => {}
            }
        }
    }
    rep.require("thread_identifiers", 1000);
    rep.require("process_identifiers", 1000);
    rep.require("composition_tests", 50);
    rep.require("independence_tests", 1000);
    rep.finish(
        "every identifier drawn by each generator on the main thread, on threads released together and in processes \
         started together; non-trivial = each distinct identifier. Monitors: shape, alphabet, per-position \
         uniformity (chi-square, limit mean + 12 sd + 60), independence of every two places within one and in \
         successive identifiers and PINs, global uniqueness, composition (classes and different symbols per \
         identifier, pairs side by side, runs of three) as of independent symbols, every PIN about equally often, \
         also after each of the 64 before it",
        &["statistical: biases below the chi-square limit are not visible", "predictability of the seeded \
          generator by an attacker who knows its state is out of scope"],
    )
}

/// Every one of the million PINs comes up about as often as any other: with 32
/// draws expected of each, none is (all but certainly) drawn less than 3 times
/// or more than 110 times.
fn every_pin(rep: &mut Report) {
    let workers = 8;
    let each = rep.n(4_000_000, 12_000_000);
    use std::sync::atomic::Ordering::Relaxed;
    let seen: Vec<std::sync::atomic::AtomicU32> = (0..1_000_000).map(|_| 0.into()).collect();
    // how often a PIN was the one drawn 1, 2, ... 64 draws before by the same thread
    let again: Vec<std::sync::atomic::AtomicU32> = (0..64).map(|_| 0.into()).collect();
    let until = std::time::Instant::now() + std::time::Duration::from_secs(120);
    let drawn: u64 = std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|_| {
                s.spawn(|| {
                    let mut before = [usize::MAX; 64];
                    for k in 0..each {
                        if k % 100_000 == 0 && std::time::Instant::now() > until {
                            return k;
                        }
                        let Some(n) = gen::tx_code().parse::<usize>().ok() else { continue };
                        if let Some(c) = seen.get(n) {
                            c.fetch_add(1, Relaxed);
                        }
                        let now = k as usize % 64;
                        for (at, old) in before.iter().enumerate() {
                            if *old == n {
                                again[(now + 64 - at - 1) % 64].fetch_add(1, Relaxed);
                            }
                        }
                        before[now] = n;
                    }
                    each
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).sum()
    });
    rep.add("pins_drawn", drawn);
    if drawn < workers * each {
        rep.count("pins_cut_short");
        return;
    }
    let mean = drawn as f64 / 1e6;
    for (lag, c) in again.iter().enumerate() {
        let c = f64::from(c.load(Relaxed));
        rep.check(c >= mean * 2.0 / 32.0 && c <= mean * 110.0 / 32.0, "tx-code-related", || {
            format!("a PIN was the one {} before it {c} times, about {mean:.0} expected", lag + 1)
        });
    }
    let (low, high) = ((mean * 3.0 / 32.0) as u64, (mean * 110.0 / 32.0) as u64);
    let counts: Vec<u64> = seen.iter().map(|c| u64::from(c.load(Relaxed))).collect();
    let odd: Vec<(String, u64)> = counts
        .iter()
        .enumerate()
        .filter(|(_, c)| **c < low || **c > high)
        .map(|(p, c)| (format!("{p:06}"), *c))
        .take(20)
        .collect();
    rep.check(odd.is_empty(), "tx-code-skewed", || format!("PINs and their counts in {drawn} draws: {odd:?}"));
    let x = chi(&counts);
    rep.check(x <= chi_limit(counts.len()), "tx-code-skewed", || format!("all PINs: chi-square {x:.0}"));
}

/// What processes started together emit: plain ones, and, where the sandbox
/// allows it, ones with the same process id and the same memory layout.
fn emitted(rep: &mut Report) -> Vec<String> {
    let exe = std::env::current_exe().unwrap().display().to_string();
    let n = rep.n(12, 48);
    let ways: [&[&str]; 4] = [&[], &["unshare", "-Urpf"], &["setarch", "-R"], &["unshare", "-Urpf", "setarch", "-R"]];
    let mut out = vec![];
    for (w, way) in ways.iter().enumerate() {
        let start = || {
            let mut all: Vec<&str> = way.to_vec();
            all.extend([exe.as_str(), "--emit-ids"]);
            std::process::Command::new(all[0])
                .args(&all[1..])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .ok()
        };
        let read = |kid: std::process::Child| {
            String::from_utf8_lossy(&kid.wait_with_output().expect("child").stdout).into_owned()
        };
        let texts: Vec<String> = if w == 0 {
            // at the same time
            let kids: Vec<_> = (0..n).filter_map(|_| start()).collect();
            kids.into_iter().map(read).collect()
        } else {
            // one after the other
            (0..n / 3).filter_map(|_| start().map(read)).collect()
        };
        for text in texts.into_iter().filter(|t| !t.is_empty()) {
            rep.count(["processes", "processes_same_pid", "processes_same_layout", "processes_same_both"][w]);
            out.push(text);
        }
    }
    out
}

fn pkce_check(mut rep: Report) -> ! {
    let chars = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.~_";
    // RFC 7636 appendix B
    rep.check(
        pkce::code_challenge("dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk")
            == "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM",
        "rfc7636-vector",
        || "appendix B".into(),
    );
    let n = rep.n(140_000, 600_000);
    let mut seen: HashMap<String, u64> = HashMap::new();
    let mut challenges: HashMap<String, String> = HashMap::new();
    let mut lens: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut pos: Vec<HashMap<Vec<u8>, u64>> = vec![HashMap::new(); 128];
    let mut last: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut rel = Relations::new(chars.len(), 43);
    let mut made = Composition::new(chars, 43);
    let mut stretches = Stretches::default();
    for i in 0..n {
        rep.begin(i);
        let v = match guarded(pkce::code_verifier) {
            Ok(v) => v,
            Err(p) => {
                rep.violation("verifier-panic", p);
                continue;
            }
        };
        rep.eval(&v, true);
        rep.check((43..=128).contains(&v.len()), "verifier-length", || format!("{} characters: {v}", v.len()));
        rep.check(v.bytes().all(|b| chars.contains(&b)), "verifier-alphabet", || v.clone());
        *lens.entry((v.len() as u32).to_be_bytes().to_vec()).or_default() += 1;
        for (p, b) in v.bytes().take(128).enumerate() {
            *pos[p].entry(vec![b]).or_default() += 1;
        }
        let mut places: Vec<usize> = v.bytes().filter_map(|b| chars.iter().position(|c| *c == b)).collect();
        if places.len() >= 43 {
            made.add(&places);
            stretches.add(&mut rep, "code_verifier", &places);
            places.truncate(43);
            rel.add(places);
        }
        *last.entry(vec![*v.as_bytes().last().unwrap_or(&b'?')]).or_default() += 1;
        if let Some(b) = seen.insert(v.clone(), i) {
            rep.violation("verifier-repeated", format!("{v} at {b} and {i}"));
        }
        challenge(&mut rep, &mut challenges, &v);
    }
    uniform(&mut rep, "verifier length", "verifier-length-skewed", &lens, 86);
    for p in 0..110 {
        uniform(&mut rep, &format!("verifier position {p}"), "verifier-skewed", &pos[p], chars.len());
    }
    uniform(&mut rep, "verifier final character", "verifier-skewed", &last, chars.len());
    rel.judge(&mut rep, "code_verifier");
    made.judge(&mut rep, "code_verifier");
    drop(stretches);
    many_verifiers(&mut rep, chars);
    // threads released together
    let barrier = std::sync::Barrier::new(16);
    let drawn: Vec<Vec<(String, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..16)
            .map(|_| {
                s.spawn(|| {
                    barrier.wait();
                    (0..500)
                        .map(|_| {
                            let v = pkce::code_verifier();
                            let c = pkce::code_challenge(&v);
                            (v, c)
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (t, d) in drawn.into_iter().enumerate() {
        rep.check(d.len() == 500, "verifier-panic", || format!("in thread {t}"));
        for (v, c) in d {
            rep.count("verifiers_drawn_in_threads");
            rep.check((43..=128).contains(&v.len()), "verifier-length", || format!("{} characters: {v}", v.len()));
            rep.check(v.bytes().all(|b| chars.contains(&b)), "verifier-alphabet", || v.clone());
            let want = b64url(&Sha256::digest(v.as_bytes()));
            rep.check(c == want, "challenge-differs", || format!("{c} for {v:?} in thread {t}, expected {want}"));
            if let Some(b) = seen.insert(v.clone(), u64::MAX) {
                rep.violation("verifier-repeated", format!("{v} at {b} and in thread {t}"));
            }
        }
    }
    // processes started together, each drawing on several threads
    for (k, text) in emitted(&mut rep).into_iter().enumerate() {
        for v in text.lines().filter_map(|l| l.strip_prefix("code_verifier ")) {
            rep.count("verifiers_drawn_in_processes");
            rep.check((43..=128).contains(&v.len()), "verifier-length", || format!("{} characters: {v}", v.len()));
            rep.check(v.bytes().all(|b| chars.contains(&b)), "verifier-alphabet", || v.to_string());
            if let Some(b) = seen.insert(v.to_string(), u64::MAX) {
                rep.violation("verifier-repeated", format!("{v} at {b} and in process {k}"));
            }
        }
    }
    rep.require("verifiers_drawn_in_processes", 1000);
    for i in 0..rep.n(600, 3_000) {
        let mut r = Rng::case(rep.seed ^ 0x46, i);
        let size = r.limit(if i % 20 == 0 { 1 << 20 } else { 1 << 14 });
        rep.count("long_verifiers");
        challenge(&mut rep, &mut challenges, &r.scaled(size));
    }
    // arbitrary client-chosen verifiers
    for i in rep.cases(rep.n(60_000, 400_000)) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 4, i);
        let mut v = r.hostile(30);
        match r.below(4) {
            0 => v = format!("{v} "),
            1 => v = format!("{v}="),
            2 => v = format!("{v}\n"),
            _ => {}
        }
        rep.eval(&v, true);
        rep.count("arbitrary_verifiers");
        challenge(&mut rep, &mut challenges, &v);
    }
    // one after the other, verifiers that have much in common
    for i in 0..rep.n(4_000, 40_000) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 0x45, i);
        let len = r.range(20, 128);
        let base: String = (0..len).map(|_| *r.pick(chars) as char).collect();
        let mut family = vec![base.clone(), base.clone()];
        for _ in 0..r.range(2, 8) {
            let from: Vec<char> = r.pick(&family).chars().collect();
            let at = r.below(from.len());
            let mut v = from.clone();
            match r.below(9) {
                0 => v.truncate(at),
                1 => v = v.split_off(at),
                2 => v[at] = *r.pick(chars) as char,
                3 => v.insert(at, *r.pick(chars) as char),
                4 => v = v.iter().flat_map(|c| c.to_uppercase()).collect(),
                5 => v.reverse(),
                6 => v.extend(from),
                7 => v.swap(0, at),
                _ => v.push(*r.pick(&[' ', '=', '\n', '\0', 'a'])),
            }
            if v.is_empty() {
                v.push('x');
            }
            family.push(v.into_iter().collect());
        }
        if r.chance(1, 2) {
            family.push(base);
        }
        for v in family {
            rep.count("related_verifiers");
            challenge(&mut rep, &mut challenges, &v);
        }
    }
    for len in [1_000, 4_095, 4_096, 4_097, 10_000, 65_535, 65_536, 65_537, 1_000_000] {
        let v: String = (0..len).map(|k| chars[(k * 11 + len) % chars.len()] as char).collect();
        challenge(&mut rep, &mut challenges, &v);
        challenge(&mut rep, &mut challenges, &(v.clone() + "x"));
        challenge(&mut rep, &mut challenges, &("x".to_string() + &v));
    }
    // every length around the hash's block boundaries
    for len in 0..300usize {
        let v: String = (0..len).map(|k| chars[(k * 7 + len) % chars.len()] as char).collect();
        challenge(&mut rep, &mut challenges, &v);
    }
    let asked: Vec<u64> = (0..6_000).collect();
    let seed = rep.seed;
    sys::together(&mut rep, "challenge-depends-on-other-calls", &asked, |i| {
        pkce::code_challenge(&Rng::case(seed ^ 0x44, *i).hostile(40))
    });
    rep.require("challenges_compared", 1000);
    rep.finish(
        "verifiers drawn from the generator plus arbitrary text and every length 0..300; non-trivial = each distinct \
         verifier. Oracles: RFC 7636 shape, uniformity of length and characters, challenge equal to unpadded \
         base64url of SHA-256 and injective over everything seen; composition as of independent symbols; no two verifiers with twelve \
         characters running in common",
        &["statistical: biases below the chi-square limit are not visible"],
    )
}

/// Millions of verifiers, told by their length, their ends and what they lack.
fn many_verifiers(rep: &mut Report, chars: &[u8]) {
    let each = rep.n(500_000, 3_000_000);
    let size = chars.len();
    let until = std::time::Instant::now() + std::time::Duration::from_secs(120);
    let mut place = [usize::MAX; 256];
    for (k, b) in chars.iter().enumerate() {
        place[usize::from(*b)] = k;
    }
    let parts: Vec<(Composition, Vec<u64>, Vec<u64>, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    let mut made = Composition::new(chars, 43);
                    let (mut first, mut last, mut odd) = (vec![0u64; 86 * size], vec![0u64; 86 * size], 0);
                    for k in 0..each {
                        if k % 10_000 == 0 && std::time::Instant::now() > until {
                            break;
                        }
                        let v = pkce::code_verifier();
                        let places: Vec<usize> = v.bytes().map(|b| place[usize::from(b)]).collect();
                        if !(43..=128).contains(&places.len()) || places.contains(&usize::MAX) {
                            odd += 1;
                            continue;
                        }
                        first[(places.len() - 43) * size + places[0]] += 1;
                        last[(places.len() - 43) * size + places[places.len() - 1]] += 1;
                        made.add(&places);
                    }
                    (made, first, last, odd)
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    rep.check(parts.len() == 8, "verifier-panic", || "while many were drawn".into());
    let odd: u64 = parts.iter().map(|p| p.3).sum();
    rep.check(odd == 0, "verifier-alphabet", || format!("{odd} of the verifiers drawn have another shape"));
    let mut made = Composition::new(chars, 43);
    let (mut first, mut last) = (vec![0u64; 86 * size], vec![0u64; 86 * size]);
    for (m, f, l, _) in &parts {
        made.merge(m);
        for k in 0..first.len() {
            first[k] += f[k];
            last[k] += l[k];
        }
    }
    rep.add("many_verifiers", made.items);
    made.judge(rep, "many code_verifiers");
    let want = vec![made.items as f64 / first.len() as f64; first.len()];
    fits(rep, "length and first character of verifiers", &first, &want);
    fits(rep, "length and last character of verifiers", &last, &want);
}

fn challenge(rep: &mut Report, all: &mut HashMap<String, String>, v: &str) {
    match guarded(|| pkce::code_challenge(v)) {
        Err(p) => rep.violation("challenge-panic", format!("{p} for {v:?}")),
        Ok(c) => {
            rep.count("challenges_compared");
            let want = b64url(&Sha256::digest(v.as_bytes()));
            rep.check(c == want, "challenge-differs", || format!("{c} for {v:?}, expected {want}"));
            if let Some(before) = all.insert(c, v.to_string()) {
                rep.check(before == v, "challenge-collides", || format!("{before:?} and {v:?}"));
            }
        }
    }
}

fn b64url(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut out = String::new();
    for c in data.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let x = u32::from(b[0]) << 16 | u32::from(b[1]) << 8 | u32::from(b[2]);
        for k in 0..=c.len() {
            out.push(T[(x >> (18 - 6 * k) & 63) as usize] as char);
        }
    }
    out
}

// ------------------------------------------------------------------- shapes

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
struct Thing {
    id: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    n: Option<i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    tags: Vec<String>,
}
fn thing(r: &mut Rng) -> Thing {
    Thing {
        id: r.hostile(4),
        n: r.chance(1, 2).then(|| r.below(1000) as i64 - 500),
        tags: (0..r.below(3)).map(|_| r.hostile(2)).collect(),
    }
}

/// An object that, on its own, may also be given by its name alone.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
#[serde(untagged)]
enum Either {
    Name(String),
    Full(Thing),
}

fn json_trip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(
    rep: &mut Report, sig: &str, v: &T, want: &Value,
) {
    rep.count("json_round_trips");
    let text = match guarded(|| serde_json::to_string(v)) {
        Ok(Ok(t)) => t,
        other => return rep.violation(&format!("{sig}/serialize"), format!("{other:?} for {v:?}")),
    };
    let got: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    rep.check(&got == want, &format!("{sig}/json"), || format!("{text} for {v:?}, expected {want}"));
    // from a tree, from text in memory, and from a stream
    let ways: [(&str, Box<dyn Fn() -> serde_json::Result<T>>); 4] = [
        ("tree", Box::new(|| serde_json::from_value::<T>(want.clone()))),
        ("text", Box::new(|| serde_json::from_str::<T>(&text))),
        ("other text", Box::new(|| serde_json::from_str::<T>(&serde_json::to_string_pretty(want)?))),
        ("stream", Box::new(|| serde_json::from_reader::<_, T>(text.as_bytes()))),
    ];
    for (way, read) in ways {
        match guarded(read) {
            Ok(Ok(back)) => rep.check(&back == v, &format!("{sig}/parsed"), || format!("{back:?} from {want} as {way}")),
            other => rep.violation(&format!("{sig}/rejected"), format!("{other:?} from {want} as {way}")),
        }
    }
}

fn shapes(mut rep: Report) -> ! {
    let n = rep.n(60_000, 400_000);
    for i in rep.cases(n) {
        rep.begin(i);
        let mut r = Rng::case(rep.seed ^ 5, i);
        // string or object
        let text = r.hostile(4);
        let obj = thing(&mut r);
        let ks: Kind<Thing> = Kind::String(text.clone());
        let ko: Kind<Thing> = Kind::Object(obj.clone());
        json_trip(&mut rep, "kind-string", &ks, &json!(text));
        json_trip(&mut rep, "kind-object", &ko, &json!(obj));
        rep.check(ks.is_string() && !ks.is_object(), "kind-string/predicate", || format!("{ks:?}"));
        rep.check(ko.is_object() && !ko.is_string(), "kind-object/predicate", || format!("{ko:?}"));

        // ... also where the object could be read from text as well
        let text = if r.chance(1, 3) { serde_json::to_string(&obj).unwrap() } else { text };
        json_trip(&mut rep, "kind-string", &Kind::<Thing>::String(text.clone()), &json!(text));
        json_trip(&mut rep, "kind-string", &Kind::<Value>::String(text.clone()), &json!(text));
        json_trip(&mut rep, "kind-object", &Kind::<Value>::Object(json!(obj)), &json!(obj));
        json_trip(&mut rep, "kind-string", &Kind::<Either>::String(text.clone()), &json!(text));
        json_trip(&mut rep, "kind-object", &Kind::<Either>::Object(Either::Full(obj.clone())), &json!(obj));

        // one or many: a history of additions
        let first = thing(&mut r);
        let (mut q, mut model, mut many): (Quota<Thing>, Vec<Thing>, bool) = match r.below(4) {
            0 => (Quota::default(), vec![Thing::default()], false),
            1 => (Quota::Many(vec![]), vec![], true),
            2 => {
                let v: Vec<Thing> = (0..r.below(4)).map(|_| thing(&mut r)).collect();
                (Quota::Many(v.clone()), v, true)
            }
            _ => (Quota::One(first.clone()), vec![first], false),
        };
        let adds = r.below(6);
        let mut history = format!("{} start {}", many, model.len());
        for step in 0..=adds {
            rep.check(q.len() == model.len(), "quota-len", || format!("{q:?} after {history}"));
            rep.check(q.is_empty() == (many && model.is_empty()), "quota-is-empty", || format!("{q:?}"));
            rep.check(q.is_one() != many && q.is_many() == many, "quota-predicate", || format!("{q:?}"));
            let items: Vec<Thing> = match &q {
                Quota::One(t) => vec![t.clone()],
                Quota::Many(v) => v.clone(),
            };
            rep.check(items == model, "quota-contents", || format!("{items:?} instead of {model:?} after {history}"));
            let want = if many { json!(model) } else { json!(model[0]) };
            json_trip(&mut rep, "quota", &q, &want);
            if step < adds {
                // repeats are kept too
                let t = if r.chance(1, 3) && !model.is_empty() { model[r.below(model.len())].clone() } else { thing(&mut r) };
                history += &format!(" +{}", t.id);
                match guarded(|| q.add(t.clone())) {
                    Ok(()) => {}
                    Err(p) => rep.violation("quota-panic", p),
                }
                model.push(t);
                many = true;
            }
        }
        if r.chance(1, 200) {
            // a long list
            let long = if r.chance(1, 20) { r.limit(1 << 17) } else { r.size() };
            for _ in 0..long {
                let t = if long > 8_000 { Thing { id: model.len().to_string(), ..Thing::default() } } else { thing(&mut r) };
                q.add(t.clone());
                model.push(t);
                many = true;
            }
            rep.count("long_lists");
            rep.check(many && q.len() == model.len(), "quota-len", || format!("{} {}", q.len(), model.len()));
            json_trip(&mut rep, "quota", &q, &json!(model));
        }
        rep.eval(&format!("{history} {text}"), adds > 0);
        // plain text, as used for types
        let mut words: Vec<String> = vec![r.hostile(4)];
        let mut q = Quota::One(words[0].clone());
        for _ in 0..r.below(4) {
            json_trip(&mut rep, "text-quota", &q, &if words.len() == 1 { json!(words[0]) } else { json!(words) });
            let w = r.hostile(4);
            q.add(w.clone());
            words.push(w);
            rep.check(q == Quota::Many(words.clone()), "text-quota", || format!("{q:?} {words:?}"));
        }
        // combined, as used for contexts and subjects
        let mix: Vec<Kind<Thing>> = (0..r.below(4))
            .map(|_| if r.chance(1, 2) { Kind::String(r.hostile(3)) } else { Kind::Object(thing(&mut r)) })
            .collect();
        let want: Vec<Value> = mix
            .iter()
            .map(|k| match k {
                Kind::String(s) => json!(s),
                Kind::Object(o) => json!(o),
            })
            .collect();
        json_trip(&mut rep, "mixed-many", &Quota::Many(mix.clone()), &json!(want));
        if let (Some(m), Some(w)) = (mix.first(), want.first()) {
            json_trip(&mut rep, "mixed-one", &Quota::One(m.clone()), w);
        }
    }
    rep.require("json_round_trips", 10_000);
    rep.finish(
        "random strings/objects and histories of additions to a one-or-many value, mirrored by a plain list; \
         non-trivial = at least one addition. Oracles: list model, and the JSON each shape must have and be read from",
        &[],
    )
}

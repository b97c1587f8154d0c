"""Monitor for the request macros (crates/macros).

P09  generated programs use the real macros against the real issuer crate; each
     prints the JSON of the request it built, which must equal the literal.
P10  generated programs with one wrong thing per invocation; the compiler must
     report an error at every one of them (and at none of the right ones).

exit 0 held, 1 violation, 2 no answer."""
import json, os, random, re, shutil, subprocess, sys, time

ROOT = "/verif"
PRE = "urn:ietf:params:oauth:grant-type:pre-authorized_code"
WORK = f"{ROOT}/.work"


class Report:
    def __init__(self, prop, tier, seed, case=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, case
        self.evals = 0
        self.distinct, self.samples, self.counters = set(), [], {}
        self.violations = {}
        self.t0 = time.time()

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def eval(self, text):
        self.evals += 1
        if text not in self.distinct:
            self.distinct.add(text)
            if len(self.distinct) in (3, 50, 200):
                self.samples.append({"text": text[:600]})

    def violation(self, sig, case, detail):
        self.count("violating_observations")
        self.violations.setdefault(sig, (case, detail))

    def finish(self, rule, assumptions, require):
        known = {}
        try:
            for line in open(f"{ROOT}/known_findings.txt"):
                m = re.match(rf"known: property={self.prop} signature=(\S.*?) :: (.*)", line)
                if m:
                    known[m[1].strip()] = m[2].strip()
        except FileNotFoundError:
            pass
        fresh = []
        for sig, (case, detail) in sorted(self.violations.items()):
            if sig in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[sig]}")
            else:
                fresh.append((sig, case, detail))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": rule,
                "observed": self.counters, "samples": self.samples or [{"text": next(iter(self.distinct), "")}],
            },
            "wall_s": round(time.time() - self.t0, 3), "violations": len(fresh), "assumptions": assumptions,
        }
        os.makedirs(f"{ROOT}/evidence/replay", exist_ok=True)
        with open(f"{ROOT}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print(f"{self.prop}: {self.evals} evaluations, {len(self.distinct)} distinct, observed {json.dumps(self.counters)}")
        for k, (sig, case, detail) in enumerate(fresh):
            path = f"{ROOT}/evidence/replay/{self.prop}-{k}.json"
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "case": case,
                           "signature": sig, "detail": detail}, f, indent=1)
            print(f"  [{sig}] case {case}: {detail[:1500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if fresh:
            sys.exit(1)
        for what, n in require.items():
            if self.counters.get(what, 0) < n:
                print(f"INCONCLUSIVE property={self.prop}: observed {what} {self.counters.get(what, 0)} times, need {n}")
                sys.exit(2)
        sys.exit(0)


def inconclusive(msg):
    print(f"INCONCLUSIVE: {msg}")
    sys.exit(2)


# ------------------------------------------------------------------ literals

FRAGS = ["a", "b", "Z", "0", "-", "_", ".", "~", " ", "\"", "\\", "\n", "\t", "{", "}", "{key}", "#v", "#", "'", "é", "漢字",
         "🦀", "&", "=", "%20", "/", ":", "https://x.io/y?z=1", "$", "!", "\\n", "Some", "None", "//", "/*", "r#", "{}", "\0", "\r", ","]


# words that mean something elsewhere in a literal
WORDS = ["type", "format", "authorization_code", PRE, "openid_credential", "jwt_vc_json", "by_ref", "by_val", "SendType::ByRef", "code",
         "S256", "jwt", "null", "true", "false", "0", "-1", "credential_issuer", "credentialSubject", "client_id", "credential_identifier",
         "self", "Self", "fn", "vec![]", "Option", "String", "into()", "request", "map", "span", "é" * 130, "x" * 255, "y" * 1025]


def sizes(c, few):
    """mostly a few, once in a few literals as many as some limit may be"""
    if c.often and not c.large and c.r.random() < c.often:
        c.large = True
        return c.r.choice([33, 64, 65, 100, 129, 257])
    return c.r.choice(few)


def text(r, n=5, least=0):
    if r.random() < .004:
        n = r.choice([4095, 4097, 8192, 32767, 65537])
        return "".join(r.choice("ab é漢🦀\"\\{}") for _ in range(n))
    if r.random() < .08:
        return r.choice(WORDS)
    if r.random() < .05:
        return "".join(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0xa0, 0x2000), r.randrange(0x3000, 0xd800),
                                     r.randrange(0x10000, 0x1f000)])) for _ in range(r.randint(max(1, least), 40)))
    return "".join(r.choice(FRAGS) for _ in range(r.randint(least, n)))


def lit(r, s):
    """one of the ways Rust can write this string literal"""
    k = r.randrange(4)
    if k == 0 and "\r" not in s and "\0" not in s and '"#' not in s and not re.search('"#', s) and "##" not in s:
        return f'r##"{s}"##' if "\n" not in s else normal(s)
    if k == 1:
        return '"' + "".join(f"\\u{{{ord(c):x}}}" for c in s) + '"' if len(s) < 12 else normal(s)
    return normal(s)


def normal(s):
    out = ""
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif c == "\r":
            out += "\\r"
        elif c == "\0":
            out += "\\0"
        else:
            out += c
    return f'"{out}"'


class Case:
    """collects the items a literal refers to"""

    def __init__(self, r, n):
        self.r, self.n, self.pre, self.consts, self.k, self.calls = r, n, [], [], 0, 0
        # how readily a list of this literal is a long one
        self.large, self.often = False, (.5 if n % 23 == 0 else .02 if n % 7 == 0 else 0)

    def name(self):
        self.k += 1
        return f"v{self.k}"

    def s(self, value, form="into"):
        """an expression for text `value`; form: into (converted), own (must be a String)"""
        r = self.r
        k = r.randrange(12)
        if k <= 3:
            return r.choice(["", "", "", "&", "& "]) + lit(r, value)
        v = self.name()
        if k == 4:
            return f"String::from({normal(value)})"
        if k == 5:
            self.pre.append(f"let {v}: String = {normal(value)}.to_string();")
            return f"{v}.clone()"
        if k == 6 or k == 9:
            self.calls += 1
            return r.choice([f"helper::owned({normal(value)})", f"owned({normal(value)})", f"owned({normal(value)}).clone()",
                             f"Maker.make({normal(value)}).to_string()", f"helper::MAKER.make({normal(value)})"])
        if k == 10:
            # a part of something
            kind = r.randrange(4)
            own = f"String::from({normal(value)})"
            if kind == 0:
                self.pre.append(f"let {v} = ({own}, 5);")
                return f"{v}.0"
            if kind == 1:
                self.pre.append(f"let {v} = (1, ({own}, true));")
                return f"{v}.1.0"
            if kind == 2:
                self.pre.append(f"let {v} = Part {{ text: {own}, inner: ({own},) }};")
                return r.choice([f"{v}.text", f"{v}.inner.0", f"{v}.text.clone()", f"{v}.inner.0.clone()"])
            self.pre.append(f"let {v} = [{own}];")
            return r.choice([f"{v}.concat()", f"{v}.first().unwrap().clone()", f"{v}.iter().cloned().collect::<String>()"])
        if k == 11:
            # worked out on the spot
            self.pre.append(f"let {v}: &str = {normal(value)};")
            return r.choice([f"{v}.chars().collect::<String>()", f"{v}.to_owned() + \"\"", f"Some({v}).map(String::from).unwrap_or_default()",
                             f"{v}.replace(\"\\u{{10ffff}}\", \"no\")", f"std::string::ToString::to_string({v})", f"String::from({v})"])
        if form == "own":
            self.pre.append(f"let {v}: String = {normal(value)}.into();")
            return r.choice(["", "&"]) + v
        if k == 7:
            c = f"C{self.n}_{self.k}"
            self.consts.append(f"pub const {c}: &str = {normal(value)};")
            return r.choice([c, f"helper::{c}", f"&{c}"])
        self.pre.append(f"let {v} = {normal(value)};")
        return r.choice([v, "&" + v])


def key(r, k):
    return normal(k) if r.random() < .9 or not re.fullmatch(r"[a-z_-]+", k) else f'r"{k}"'


def obj(r, fields):
    fields = list(fields)
    r.shuffle(fields)
    sep = r.choice([", ", ","])
    body = sep.join(f"{key(r, k)}: {v}" for k, v in fields)
    if fields and r.random() < .3:
        body += ","
    return "{" + body + "}"


def arr(r, items):
    return "[" + ", ".join(items) + ("," if items and r.random() < .3 else "") + "]"


def claims(c, depth):
    r = c.r
    fields, want = [], {}
    n = sizes(c, [0, 1, 1, 2, 2, 3, 3, 7]) if depth < 5 else r.choice([1, 2])
    if n > 30:
        depth = min(depth, 1)
    for _ in range(n):
        k = text(r, 3, 1)
        if k in want:
            continue
        if depth and r.random() < (.4 if depth < 3 else .9):
            e, w = claims(c, depth - 1)
        else:
            e, w = "{}", {}
        fields.append((k, e))
        want[k] = w
    return obj(r, fields), want


def types(c):
    vals = [text(c.r) for _ in range(sizes(c, [0, 1, 2, 3, 3, 11]))]
    if c.r.random() < .15:
        v = c.name()
        c.pre.append(f"let {v}: Vec<String> = vec![{', '.join(normal(x) + '.to_string()' for x in vals)}];")
        return v, vals
    return arr(c.r, [c.s(x, "own") for x in vals]), vals


def definition(c, need_type, context=False):
    r = c.r
    fields, want = [], {}
    if need_type or r.random() < .6:
        e, w = types(c)
        fields.append(("type", e))
        want["type"] = w
    if context and r.random() < .4:
        vals = [text(r) for _ in range(r.randint(1, 2))]
        fields.append(("@context", arr(r, [c.s(x, "own") for x in vals])))
        want["@context"] = vals
    if r.random() < .6:
        e, w = claims(c, r.choice([2, 2, 2, 7]))
        fields.append(("credentialSubject", e))
        want["credentialSubject"] = w
    return obj(r, fields), want


def details(c, context=False, n=None):
    r = c.r
    items, want = [], []
    for _ in range(sizes(c, [0, 1, 1, 2, 3, 3, 9]) if n is None else n):
        f = [("type", '"openid_credential"')]
        w = {"type": "openid_credential"}
        if r.random() < .5:
            s = text(r)
            f.append(("credential_configuration_id", c.s(s, "own")))
            w["credential_configuration_id"] = s
            if r.random() < .6:
                e, d = definition(c, False, context)
                f.append(("credential_definition", e))
                w["credential_definition"] = d
        else:
            f.append(("format", '"jwt_vc_json"'))
            w["format"] = "jwt_vc_json"
            e, d = definition(c, True)
            f.append(("credential_definition", e))
            w["credential_definition"] = d
        items.append(obj(r, f))
        want.append(w)
    return arr(r, items), want


def put(c, fields, want, k, form="into", value=None, hide_empty=False):
    s = text(c.r) if value is None else value
    fields.append((k, c.s(s, form)))
    if not (hide_empty and s == ""):
        want[k] = s


def create_offer(c):
    r = c.r
    f, w = [], {"tx_code_required": False, "send_type": "ByVal"}
    put(c, f, w, "credential_issuer", hide_empty=True)
    ids = [text(r) for _ in range(sizes(c, [1, 1, 2, 3, 4, 17]))]
    f.append(("credential_configuration_ids", arr(r, [c.s(x, "own") for x in ids])))
    w["credential_configuration_ids"] = ids
    if r.random() < .5:
        put(c, f, w, "subject_id")
    if r.random() < .7:
        g = [r.choice([PRE, "authorization_code"]) for _ in range(sizes(c, [0, 1, 1, 2, 2, 3, 6]))]
        f.append(("grant_types", arr(r, [normal(x) for x in g])))
        w["grant_types"] = g
    if r.random() < .5:
        b = r.random() < .5
        e = "true" if b else "false"
        if r.random() < .3:
            v = c.name()
            c.pre.append(f"let {v} = {e};")
            e = v
        f.append(("tx_code_required", e))
        w["tx_code_required"] = b
    if r.random() < .7:
        e, t = r.choice([("SendType::ByVal", "ByVal"), ("SendType::ByRef", "ByRef"), ('"by_ref"', "ByRef"), ('"by_val"', "ByVal"),
                         ("vercre_issuer::SendType::ByRef", "ByRef")])
        f.append(("send_type", e))
        w["send_type"] = t
    return "create_offer_request", f, w


def authorization(c):
    r = c.r
    f, w = [], {}
    put(c, f, w, "credential_issuer", hide_empty=True)
    # enums convert from an owned string
    f += [("response_type", '"code"'), ("code_challenge_method", '"S256"')]
    w |= {"response_type": "code", "code_challenge_method": "S256"}
    put(c, f, w, "client_id")
    put(c, f, w, "code_challenge")
    put(c, f, w, "subject_id")
    for k in ["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"]:
        if r.random() < .4:
            put(c, f, w, k)
    if r.random() < .7:
        e, d = details(c)
        f.append(("authorization_details", e))
        w["authorization_details"] = d
    return "authorization_request", f, w


def token(c):
    r = c.r
    f, w = [], {}
    put(c, f, w, "credential_issuer", hide_empty=True)
    if r.random() < .6:
        put(c, f, w, "client_id")
    if r.random() < .5:
        f.append(("grant_type", normal(PRE)))
        w["grant_type"] = PRE
        put(c, f, w, "pre-authorized_code")
        if r.random() < .5:
            put(c, f, w, "tx_code")
    else:
        f.append(("grant_type", '"authorization_code"'))
        w["grant_type"] = "authorization_code"
        put(c, f, w, "code")
        put(c, f, w, "code_verifier")
        if r.random() < .5:
            put(c, f, w, "redirect_uri")
    if r.random() < .6:
        e, d = details(c, context=True)
        f.append(("authorization_details", e))
        w["authorization_details"] = d
    return "token_request", f, w


def credential(c):
    r = c.r
    f, w = [], {}
    put(c, f, w, "credential_issuer", hide_empty=True)
    put(c, f, w, "access_token", hide_empty=True)
    if r.random() < .5:
        put(c, f, w, "credential_identifier")
    else:
        f.append(("format", '"jwt_vc_json"'))
        w["format"] = "jwt_vc_json"
        e, d = definition(c, True)
        f.append(("credential_definition", e))
        w["credential_definition"] = d
    if r.random() < .7:
        s = text(r)
        f.append(("proof", obj(r, [("proof_type", '"jwt"'), ("jwt", c.s(s))])))
        w["proof"] = {"proof_type": "jwt", "jwt": s}
    if r.random() < .15:
        f.append(("credential_response_encryption", "helper::encryption()"))
        w["credential_response_encryption"] = "ENC"
    return "credential_request", f, w


KINDS = [create_offer, authorization, token, credential]

HELPER = """
#![allow(unused, non_upper_case_globals)]
use vercre_macros::*;
use vercre_issuer::SendType as SendTypeAlias;
// how often an expression of the literal was worked out
static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn owned(s: &str) -> String {
    CALLS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    s.to_string()
}
pub struct Maker;
impl Maker { pub fn make(&self, s: &str) -> String { owned(s) } }
pub struct Part { text: String, inner: (String,) }
mod helper {
    pub use super::owned;
    pub const MAKER: super::Maker = super::Maker;
    pub fn encryption() -> vercre_openid::issuer::CredentialResponseEncryption {
        vercre_openid::issuer::CredentialResponseEncryption { alg: "RSA-OAEP".into(), enc: "A256GCM".into(), ..Default::default() }
    }
"""


def program(cases, show=True):
    """one function per case; returns source and {case: (first, last) line}"""
    out = [HELPER]
    for c in cases:
        out += ["    " + k for k in c["consts"]]
    out += ["}", "use helper::*;"]
    src = "\n".join(out) + "\n"
    lines = {}
    for c in cases:
        first = src.count("\n") + 1
        # `SendType` is in scope only where the literal spells it, so that defaults have to resolve by themselves
        use = "use vercre_issuer::SendType;" if re.search(r"(?<!:)SendType::", c["literal"]) else ""
        src += f"fn c{c['n']}() -> serde_json::Value {{ {use} {' '.join(c['pre'])}\n"
        src += f"    let request = {c['macro']}!({c['literal']});\n"
        src += "    serde_json::to_value(&request).unwrap() }\n"
        lines[c["n"]] = (first, src.count("\n"))
    # requests of any size are built on a stack of their own
    src += "fn main() { std::thread::Builder::new().stack_size(1 << 29).spawn(all).unwrap().join().unwrap(); }\n"
    src += "fn all() {\n    std::panic::set_hook(Box::new(|_| {}));\n"
    for c in cases:
        n = c["n"]
        src += f'    match std::panic::catch_unwind(c{n}) {{ Ok(v) => println!("{n} {{}} {{v}}", CALLS.swap(0, std::sync::atomic::Ordering::SeqCst)), Err(_) => println!("{n} PANIC") }}\n'
    src += "}\n"
    return src, lines


def cargo(d, *args):
    return subprocess.run(["bash", f"{ROOT}/tools/cargo.sh", *args, "--manifest-path", f"{d}/Cargo.toml"],
                          capture_output=True, text=True, timeout=1500)


def prepare(prop):
    d = f"{WORK}/macros-{prop}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/src")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(f"{ROOT}/harness/macros/{f}", d)
    return d


def errors(out, lines):
    """compiler errors per case, and those belonging to none"""
    per, stray = {}, []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        if msg["message"].startswith("aborting due to") or m.get("target", {}).get("name") != "macro-cases":
            if not msg["message"].startswith("aborting"):
                stray.append(msg["message"])
            continue
        spans = [s for s in msg["spans"]]
        todo, at = list(spans), None
        while todo and at is None:
            s = todo.pop(0)
            if s["file_name"].endswith("main.rs"):
                for n, (a, b) in lines.items():
                    if a <= s["line_start"] <= b:
                        at = n
            if s.get("expansion"):
                todo.append(s["expansion"]["span"])
        if at is None:
            stray.append(msg["message"])
        else:
            per.setdefault(at, []).append(msg["message"])
    return per, stray


def build_deps(d):
    """everything but the generated program; a failure here is not a verdict"""
    with open(f"{d}/src/main.rs", "w") as f:
        f.write("use vercre_macros as _; use vercre_issuer as _; use vercre_openid as _; fn main() {}\n")
    p = cargo(d, "build")
    if p.returncode:
        print(p.stderr[-3000:])
        inconclusive("the macro harness's dependencies did not build")


ENC = None


def compare(got, want):
    if isinstance(want, dict) and want.get("credential_response_encryption") == "ENC":
        got = dict(got)
        e = got.pop("credential_response_encryption", {})
        want = {k: v for k, v in want.items() if k != "credential_response_encryption"}
        if not (isinstance(e, dict) and e.get("alg") == "RSA-OAEP" and e.get("enc") == "A256GCM"):
            return False
    return got == want


def fidelity(rep):
    n = 1000 if rep.tier == "quick" else 4000
    cases = []
    for i in range(n):
        if rep.only is not None and i != rep.only:
            continue
        r = random.Random(f"{rep.seed}/P09/{i}")
        c = Case(r, i)
        macro, fields, want = KINDS[i % 4](c)
        cases.append({"n": i, "macro": macro, "literal": obj(r, fields), "want": want, "pre": c.pre, "consts": c.consts,
                      "large": c.large, "calls": c.calls})
    d = prepare("P09")
    build_deps(d)
    for lo in range(0, len(cases), 500):
        chunk = cases[lo:lo + 500]
        for attempt in range(6):
            src, lines = program(chunk)
            with open(f"{d}/src/main.rs", "w") as f:
                f.write(src)
            p = cargo(d, "build", "--message-format=json")
            if p.returncode == 0:
                break
            per, stray = errors(p.stdout, lines)
            if not per:
                print("\n".join(stray[:5]) or p.stderr[-2000:])
                inconclusive("the generated program did not build, for a reason no macro use explains")
            for c in chunk:
                if c["n"] in per:
                    rep.eval(f"{c['macro']}!({c['literal']})")
                    rep.violation(f"valid-literal-refused/{c['macro']}", c["n"],
                                  f"{c['macro']}!({c['literal']}): {per[c['n']][0]}")
            chunk = [c for c in chunk if c["n"] not in per]
        else:
            inconclusive("the generated program did not build")
        run = subprocess.run([f"{WORK}/target/debug/macro-cases"], capture_output=True, text=True, timeout=300)
        seen = {}
        for line in run.stdout.splitlines():
            k, _, v = line.partition(" ")
            seen[int(k)] = v
        for c in chunk:
            text_ = f"{c['macro']}!({c['literal']})"
            rep.eval(text_)
            rep.count(f"built_{c['macro']}")
            rep.count("large_literals", int(c["large"]))
            if c["n"] not in seen:
                inconclusive(f"the generated program stopped at case {c['n']}: {run.stderr[-500:]}")
            if seen[c["n"]] == "PANIC":
                rep.violation(f"request-panics/{c['macro']}", c["n"], text_)
                continue
            calls, _, got = seen[c["n"]].partition(" ")
            got = json.loads(got)
            rep.count("expressions_counted", c["calls"])
            if int(calls) != c["calls"]:
                rep.violation(f"expression-not-once/{c['macro']}", c["n"],
                              f"{text_}: its {c['calls']} calls were made {calls} times")
            rep.count("requests_compared")
            rep.count("fields_compared", len(c["want"]))
            if not compare(got, c["want"]):
                diff = sorted(k for k in set(got) | set(c["want"]) if got.get(k, "absent") != c["want"].get(k, "absent"))
                rep.violation(f"request-differs/{c['macro']}/{','.join(diff)}", c["n"],
                              f"{text_} with {c['pre']} built {json.dumps(got, ensure_ascii=False)}, "
                              f"expected {json.dumps(c['want'], ensure_ascii=False)}")
    rep.finish(
        "random request literals for the four macros: every optional field present or absent, fields in any order, trailing "
        "commas, text written as plain/escaped/raw literals, constants, paths, variables, references, calls, method calls and parts "
        "of tuples and structs, "
        "nested details, definitions and claims; non-trivial = each distinct literal. Oracle: the JSON of the built request "
        "equals the literal plus the documented defaults, and each expression was worked out once",
        ["the macros expand against the real issuer crate, built with stand-ins for third-party crates that are not installed"],
        {} if rep.only is not None else {"requests_compared": 100, "large_literals": 10})


# ---------------------------------------------------------------- refusals

class Nth:
    """Picks the n-th of whatever it is offered, and says whether there was one."""

    def __init__(self, n):
        self.n, self.past = n, False

    def choice(self, options):
        self.past = self.n >= len(options)
        return options[self.n % len(options)]


BAD_CLAIMS = ['"x"', "5", "true", "[]", '["a"]', '""', "false", "0", "[{}]"]


def bad_claims(r):
    """claims of some size and depth, one of which is not an object"""
    def tree(depth):
        return {f"c{k}": tree(depth - 1) if depth and r.random() < .4 else {} for k in range(r.choice([1, 2, 3, 5, 9]))}
    t = tree(r.choice([0, 1, 2, 3]))
    at = t
    while True:
        k = r.choice(sorted(at))
        if not at[k] or r.random() < .3:
            at[k] = r.choice(BAD_CLAIMS)
            break
        at = at[k]
    show = lambda t: t if isinstance(t, str) else "{" + ", ".join(f'"{k}": {show(v)}' for k, v in t.items()) + "}"
    return show(t)


def bad_details(r):
    """some right authorization details and a wrong one among them"""
    ty = '"type": "openid_credential"'
    by_id = '"credential_configuration_id": "x"'
    defn = '"credential_definition": {"type": ["A"]}'
    good = ["{" + ty + ", " + by_id + "}", "{" + by_id + ", " + ty + ", " + '"credential_definition": {"credentialSubject": {"a": {}, "b": {"c": {}}}}}',
            "{" + ty + ', "format": "jwt_vc_json", ' + defn + "}"]
    claims = bad_claims(r)
    fmt = r.choice(['"ldp_vc"', '"jwt_vc_json-ld"', '"vc+sd-jwt"', '"mso_mdoc"', '"jwt_vc_json "', '"Jwt_vc_json"', "true", "[]", "{}"])
    kind = r.choice(['"openid_credentials"', '"openid"', '"credential"', '" openid_credential"', "1", '["openid_credential"]', "false", '"OPENID_CREDENTIAL"'])
    bad = r.choice([
        "{" + by_id + "}", "{" + ty + "}", "{}", '"x"', "[]", "5", "true",
        '{"type": ' + kind + ", " + by_id + "}", '{"type": ' + kind + ', "format": "jwt_vc_json", ' + defn + "}",
        "{" + ty + ', "format": ' + fmt + ", " + defn + "}",
        "{" + ty + ', "format": "jwt_vc_json"}', "{" + ty + ", " + defn + "}",
        "{" + ty + ", " + by_id + ', "credential_definition": ' + r.choice(['"x"', "5", "[]", "true", '[{"type": ["A"]}]']) + "}",
        "{" + ty + ', "format": "jwt_vc_json", "credential_definition": ' + r.choice(['"x"', "5", "[]", "{}", '{"types": ["A"]}', '{"credentialSubject": {}}']) + "}",
        "{" + ty + ", " + by_id + ', "credential_definition": {"credentialSubject": ' + claims + "}}",
        "{" + ty + ", " + by_id + ', "credential_definition": {"type": ["A", "B"], "credentialSubject": ' + claims + "}}",
        "{" + ty + ', "format": "jwt_vc_json", "credential_definition": {"type": ["A"], "credentialSubject": ' + claims + "}}",
    ])
    all_ = [r.choice(good) for _ in range(r.choice([0, 1, 2, 5]))]
    all_.insert(r.randint(0, len(all_)), bad)
    return "[" + ", ".join(all_) + "]"


def wrong(r, i, rep_kind, pick=None, variant=None):
    """(macro, literal fields, what is wrong, names the message must mention, stage)"""
    pick = pick or r
    c = Case(r, i)
    c.s_orig = c.s
    # plain literals keep the attribution of errors simple
    c.s = lambda value, form="into": normal(value)
    FR = FRAGS[:]
    kind = KINDS[i % 4]
    while True:
        # which of its two shapes a token or credential request has
        macro, f, w = kind(c)
        shape = w.get("grant_type") == PRE or "credential_identifier" in w
        if variant is None or variant == shape or macro in ("create_offer_request", "authorization_request"):
            break
    f = dict(f)
    required = {
        "create_offer_request": ["credential_issuer", "credential_configuration_ids"],
        "authorization_request": ["credential_issuer", "response_type", "client_id", "code_challenge", "code_challenge_method", "subject_id"],
        "token_request": ["credential_issuer", "grant_type"] + (["pre-authorized_code"] if w.get("grant_type") == PRE else ["code", "code_verifier"]),
        "credential_request": ["credential_issuer", "access_token"] + (["credential_identifier"] if "credential_identifier" in w else ["format", "credential_definition"]),
    }[macro]
    allowed = {
        "create_offer_request": {"subject_id", "grant_types", "tx_code_required", "send_type"},
        "authorization_request": {"redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state", "authorization_details"},
        "token_request": {"client_id", "authorization_details"} | ({"tx_code"} if w.get("grant_type") == PRE else {"redirect_uri"}),
        "credential_request": {"proof", "credential_response_encryption"},
    }[macro] | set(required)
    choice = rep_kind
    mention = []
    if choice == "missing":
        k = pick.choice(required)
        if macro == "credential_request" and k in ("credential_identifier", "format"):
            f.pop("credential_definition", None)
            mention = ["credential_identifier"]
        else:
            mention = [k]
        f.pop(k)
        what = f"`{k}` missing"
    elif choice == "unknown":
        near = r.choice(sorted(allowed))
        spelled = [near.upper(), near.capitalize(), "_" + near, "x-" + near, "x_" + near, "$" + near, "@" + near, "#" + near, "//" + near,
                   " " + near, near + " ", near + "\n", near + "s", near[:-1], near[1:], near.replace("_", "-"), near.replace("_", ""),
                   near.replace("-", "_"), near + "[]", near + "?", near + "#0", near + ":", "vercre:" + near, near + "." + near,
                   near[0] + near, near.replace("i", "\u0131", 1), near + "\u200b", "\ufeff" + near, near * 20, "default_" + near, near + "_default"]
        odd = ["", "_", "__proto__", "$schema", "$comment", "_comment", "//", "#", "*", "...", "..", ".", "type", "@context", "@type", "id", "_id", "self",
               "None", "null", "locations", "credentialSubject", "jwt", "proof_type", "0", "-1", "x-extension", "X-Trace", "ext", "meta", "metadata",
               "request", "request_uri", "nonce", "c_nonce", "aud", "iss", "client_assertion", "credential_response_encryptions", "\u00e9", "\t"]
        plain = r.choice(["credential_isuer", "subjectId", "Client_id", "scopes", "tx_code_requiredd", "extra", "", "code ", "grant_type ",
                      "access_tokens", "proofs", "redirect_url", "user_hints", "x"])
        k = pick.choice(spelled + odd) if pick is not r else r.choice([plain, r.choice(spelled), r.choice(odd)])
        while k in f or k in allowed:
            k += "_"
        f[k] = r.choice(['"v"', "true", "5", "[]", "{}", '["a"]', '{"a": "b"}'])
        # control and invisible characters may be shown escaped
        mention = [k] if k.strip() and k.isascii() and k.isprintable() else []
        if r.random() < 0.3:
            # more than one
            for m in r.sample(odd, r.randint(1, 3)):
                if m not in f and m not in allowed:
                    f[m] = '"v"'
        what = f"unknown field `{k}`"
    elif choice == "foreign":
        # a field that belongs to another kind of request or grant
        every = ["credential_configuration_ids", "grant_types", "tx_code_required", "send_type", "response_type", "code_challenge",
                 "state", "grant_type", "pre-authorized_code", "tx_code", "code", "code_verifier", "redirect_uri", "access_token",
                 "credential_identifier", "format", "proof", "scope", "authorization_details", "subject_id", "client_id",
                 "credential_definition", "credential_response_encryption", "code_challenge_method", "resource", "wallet_issuer",
                 "user_hint", "issuer_state", "credential_configuration_id", "credential_identifiers"]
        opts = [k for k in every if k not in allowed and k not in f]
        k = pick.choice(opts)
        f[k] = '"jwt_vc_json"' if k == "format" else '{"type": ["A"]}' if k == "credential_definition" else '"v"'
        if macro == "credential_request" and k == "credential_identifier":
            # then `format` is the unexpected one
            mention = []
        else:
            mention = [k]
        what = f"`{k}` does not belong"
    elif choice == "invalid":
        opts = []
        if macro == "create_offer_request":
            opts = [("grant_types", '["implicit"]'), ("grant_types", '["Authorization_code"]'), ("grant_types", '["authorization_code", ""]'),
                    ("grant_types", f'["{PRE}", "password"]'), ("grant_types", '"authorization_code"'), ("grant_types", "[1]"),
                    ("grant_types", "[" + '"authorization_code", ' * r.choice([7, 20, 40]) + '"implicit"]'),
                    ("grant_types", "true"), ("grant_types", "{}"), ("grant_types", '["authorization_code", true]'), ("grant_types", "[[]]"),
                    ("credential_configuration_ids", "[]"), ("credential_configuration_ids", "5"), ("credential_configuration_ids", '"id"'), ("credential_configuration_ids", '{"a": "b"}')]
        elif macro in ("authorization_request", "token_request"):
            ok = '"credential_configuration_id": "x"'
            opts = [("authorization_details", v) for v in [
                '"x"', "{}", '["x"]', '[{' + ok + '}]', '[{"type": "openid", ' + ok + '}]', '[{"type": "openid_credential"}]',
                '[{"type": "openid_credential", ' + ok + '}, {"type": "OpenID_credential", ' + ok + '}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json"}]',
                '[{"type": "openid_credential", "format": "jwt_vc", "credential_definition": {"type": ["A"]}}]',
                '[{"type": "openid_credential", "format": "mso_mdoc", "credential_definition": {"type": ["A"]}}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {}}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"a": {}}}}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": "x"}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["A"], "credentialSubject": "x"}}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": []}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": {"credentialSubject": ["a"]}}]',
                '[{"type": "openid_credential", ' + ok + '}, "x"]',
                '[{"type": "openid_credential", ' + ok + '}, {' + ok + '}]',
                '[{"type": 5, ' + ok + '}]', '[{"type": true, ' + ok + '}]', '[{"type": ["openid_credential"], ' + ok + '}]',
                '[{"type": {}, ' + ok + '}]', '[{"type": "", ' + ok + '}]', '[{"type": "openid_credential ", ' + ok + '}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": "x"}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": {"credentialSubject": {"a": "x"}}}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": {"credentialSubject": {"a": {"b": {}, "c": 5}}}}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": {"credentialSubject": {"a": []}}}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": {"credentialSubject": {"a": {"b": {"c": {"d": true}}}}}}]',
                '[{"type": "openid_credential", ' + ok + ', "credential_definition": {"credentialSubject": 5}}]',
                '[{"type": "openid_credential", "format": 5, "credential_definition": {"type": ["A"]}}]',
                '[{"type": "openid_credential", "format": "", "credential_definition": {"type": ["A"]}}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["A"], "credentialSubject": {"a": "x"}}}]',
                '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["A"], "credentialSubject": []}}]',
                '[{"type": "openid_credential", "credential_definition": {"type": ["A"]}}]', "true", "5",
                # far down the list
                "[" + ('{"type": "openid_credential", ' + ok + '}, ') * r.choice([7, 20, 40]) + '{"type": "openid", ' + ok + '}]',
                "[" + ('{"type": "openid_credential", ' + ok + '}, ') * r.choice([7, 20, 40]) + '"x"]',
                "[" + ('{"type": "openid_credential", ' + ok + '}, ') * r.choice([7, 20, 40]) + '{"type": "openid_credential"}]',
            ]]
            # the same at any place, size and depth
            opts += [("authorization_details", bad_details(r)) for _ in range(60)]
            if macro == "token_request":
                opts += [("grant_type", '"implicit"'), ("grant_type", '"Authorization_code"'), ("grant_type", "[]"), ("grant_type", '""'),
                         ("grant_type", '"pre-authorized_code"'), ("grant_type", "5"), ("grant_type", "{}"),
                         ("grant_type", f'"{PRE} "'), ("grant_type", f'" authorization_code"'), ("grant_type", f'["{PRE}"]')] * 2
        else:
            opts = [("proof", v) for v in ['"jwt"', "{}", '{"jwt": "x"}', '{"proof_type": "jwt"}', '{"proof_type": "ldp_vp", "jwt": "x"}',
                                           '{"proof_type": "JWT", "jwt": "x"}', '["x"]', "5", "true", "[]",
                                           '{"proof_type": "", "jwt": "x"}', '{"proof_type": 5, "jwt": "x"}', '{"proof_type": ["jwt"], "jwt": "x"}',
                                           '{"proof_type": "cwt", "cwt": "x"}', '{"proof_type": "jwt", "jwts": ["x"]}']]
            if "format" in f:
                opts += [("credential_definition", '{"type": ["A"], "credentialSubject": ' + bad_claims(r) + "}") for _ in range(30)]
                opts += [("format", '"jwt_vc"'), ("format", '"ldp_vc"'), ("format", '""'), ("credential_definition", '"x"'),
                         ("credential_definition", "{}"), ("credential_definition", '{"credentialSubject": {}}'),
                         ("format", "5"), ("format", '["jwt_vc_json"]'), ("format", '"mso_mdoc"'), ("format", '"jwt_vc_json-ld"'), ("format", '"JWT_VC_JSON"'),
                         ("credential_definition", "[]"), ("credential_definition", "5"),
                         ("credential_definition", '{"type": ["A"], "credentialSubject": "x"}'),
                         ("credential_definition", '{"type": ["A"], "credentialSubject": {"a": "x"}}'),
                         ("credential_definition", '{"type": ["A"], "credentialSubject": {"a": {"b": [], "c": {}}}}')]
        k, v = pick.choice(opts)
        f[k] = v
        what = f"`{k}` is {v}"
    elif choice == "syntax":
        good = obj(r, f.items())
        # spelled out, so that nothing inside a text is taken for syntax
        parts = [f"{normal(k)}: {v}" for k, v in f.items()]
        first = next(iter(f))
        whole = lambda ps, sep=", ": "{" + sep.join(ps) + "}"
        k, v = pick.choice([("no braces", good[1:-1]), ("array", f"[{good}]"),
                            ("no colon", whole([f"{normal(first)} {f[first]}"] + parts[1:])),
                            ("bare key", whole(parts[:-1] + [re.sub(r"\W", "_", list(f)[-1]) + f": {list(f.values())[-1]}"])),
                            ("no comma", whole([parts[0] + " " + parts[1]] + parts[2:])), ("nothing", ""), ("trailing", good + ", 1"),
                            ("double comma", whole([parts[0] + ",, " + parts[1]] + parts[2:])),
                            ("missing value", whole(parts[:-1] + [f"{normal(list(f)[-1])}:"]))])
        return macro, v, k, [], c
    else:  # "object", "type": the Rust compiler's own check of the built request
        texts = [k for k in sorted(allowed) if k not in required and k in ("subject_id", "redirect_uri", "state", "scope", "resource", "wallet_issuer",
                                                                           "user_hint", "issuer_state", "client_id", "tx_code", "credential_identifier")]
        if w.get("grant_type") or macro != "token_request":
            extra = [(k, v) for k in texts for v in (["5", "true", "[]"] if choice == "type" else ["{}", '{"a": "b"}'])]
        bad = ["5", "true", "[]"] if choice == "type" else ["{}"]
        if macro in ("authorization_request", "token_request"):
            for b in bad:
                extra.append(("authorization_details", '[{"type": "openid_credential", "credential_configuration_id": ' + b + '}]'))
            for b in (["5", "true", '"x"', "[5]", '["a", true]'] if choice == "type" else ["{}", "[{}]"]):
                extra.append(("authorization_details", '[{"type": "openid_credential", "credential_configuration_id": "x", "credential_definition": {"type": ' + b + '}}]'))
                extra.append(("authorization_details", '[{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ' + b + '}}]'))
        if macro == "credential_request":
            extra += [("proof", '{"proof_type": "jwt", "jwt": ' + b + '}') for b in bad]
            extra += [("credential_response_encryption", b) for b in (["5", '"x"', "[]"] if choice == "type" else ["{}"])]
        if macro == "create_offer_request":
            extra += [("tx_code_required", b) for b in (['"true"', "1", "[]"] if choice == "type" else ["{}"])]
            extra += [("send_type", b) for b in (["5", "true", "[]"] if choice == "type" else ["{}"])]
        k, v = pick.choice(extra + [(k, v) for k in required if k not in ("format", "credential_definition", "grant_type")
                         for v in (["5", "true", "[]"] if choice == "type" else ["{}", '{"a": "b"}'] if k != "credential_configuration_ids" else ["[5]", "[true]"] if choice == "type" else ["[{}]", '["a", {"b": "c"}]'])])
        f[k] = v
        what = f"`{k}` is {v}"
    return macro, obj(r, f.items()), what, mention, c


def refusals(rep):
    n = 400 if rep.tier == "quick" else 1600
    d = prepare("P10")
    build_deps(d)
    # errors of macro expansion hide those of type checking, so the two are separate programs
    for stage, kinds in (("expansion", ["missing", "unknown", "foreign", "invalid", "object", "syntax", "good"]), ("types", ["type"])):
        cases = []
        for i in range(n if stage == "expansion" else n // 4):
            idx = i if stage == "expansion" else 100000 + i
            r = random.Random(f"{rep.seed}/P10/{stage}/{i}")
            kind = kinds[(i // 4) % len(kinds)]
            if kind == "good":
                c = Case(r, i)
                c.s = lambda value, form="into": normal(value)
                macro, fields, _ = KINDS[i % 4](c)
                cases.append({"n": i, "macro": macro, "literal": obj(r, fields), "kind": kind, "what": "right", "mention": [],
                              "pre": c.pre, "consts": c.consts})
                continue
            macro, literal, what, mention, c = wrong(r, i, kind)
            cases.append({"n": i, "macro": macro, "literal": literal, "kind": kind, "what": what, "mention": mention,
                          "pre": c.pre, "consts": c.consts})
        # every mistake of every kind in every macro, in both shapes of the request
        for kind in kinds:
            if kind == "good":
                continue
            for k in range(4):
                for again in range(2):
                    if kind == "unknown" and again and k < 2:
                        continue
                    j = 0
                    while True:
                        pick = Nth(j)
                        r = random.Random(f"{rep.seed}/P10/{stage}/{kind}/{k}/{again}/{j}")
                        macro, literal, what, mention, c = wrong(r, 1000000 + 4 * len(cases) + k, kind, pick, again == 1)
                        if pick.past:
                            break
                        cases.append({"n": len(cases), "macro": macro, "literal": literal, "kind": kind, "what": what,
                                      "mention": mention, "pre": c.pre, "consts": c.consts})
                        j += 1
        src, lines = program(cases)
        with open(f"{d}/src/main.rs", "w") as f:
            f.write(src)
        p = cargo(d, "check", "--message-format=json")
        per, stray = errors(p.stdout, lines)
        if p.returncode == 0 or not per:
            if p.returncode != 0:
                print("\n".join(stray[:5]) or p.stderr[-2000:])
                inconclusive("the generated program was refused, for a reason no macro use explains")
        for c in cases:
            text_ = f"{c['macro']}!({c['literal']})"
            rep.eval(text_)
            got = per.get(c["n"], [])
            if c["kind"] == "good":
                rep.count("right_literals")
                if got:
                    rep.violation(f"valid-literal-refused/{c['macro']}", c["n"], f"{text_}: {got[0]}")
                continue
            rep.count("wrong_literals")
            rep.count(f"wrong_{c['kind']}")
            if not got:
                rep.violation(f"wrong-literal-accepted/{c['kind']}/{c['macro']}", c["n"], f"{c['what']}: {text_}")
                continue
            rep.count("refused_at_compile_time")
            if any("panicked" in g for g in got):
                rep.violation(f"macro-panics/{c['kind']}/{c['macro']}", c["n"], f"{c['what']}: {text_} refused with {got}")
            for m in c["mention"]:
                if m and not any(m in g for g in got):
                    rep.violation(f"refusal-does-not-name-field/{c['kind']}/{c['macro']}", c["n"],
                                  f"{c['what']}: {text_} refused with {got}")
    rep.finish(
        "random request literals made wrong in one way (mandatory field missing, unknown or misplaced field, unsupported grant, "
        "format, detail or proof, broken syntax, value of the wrong type), mixed with right ones; non-trivial = each distinct "
        "literal. Oracle: the compiler reports an error at exactly the wrong ones, naming a missing or unexpected field",
        ["the macros expand against the real issuer crate, built with stand-ins for third-party crates that are not installed",
         "unknown members inside nested objects are outside the property"],
        {"refused_at_compile_time": 80, "right_literals": 10})


def main():
    if sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        rep = Report(v["property"], v["tier"], v["seed"], v["case"] if v["property"] == "P09" else None)
    else:
        rep = Report(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    {"P09": fidelity, "P10": refusals}[rep.prop](rep)


try:
    main()
except subprocess.TimeoutExpired as e:
    inconclusive(f"timed out: {e}")

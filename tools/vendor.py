"""Lays out a cargo directory source from the crate archives already installed in ~/.cargo/registry/cache.

nightly-2024-10-18 (the toolchain of /opt/vp/env.sh) and the newer toolchains keep separate caches; the
harness needs the first one plus a few crates that only the second one has, so neither cache alone resolves.
Nothing is fetched: the archives are unpacked as they are."""
import glob, hashlib, json, os, shutil, sys, tarfile, tempfile

OLD = "index.crates.io-6f17d22bba15001f"
NEW = "index.crates.io-1949cf8c6b5b557f"
EXTRA = """bitvec-1.1.1 funty-2.0.0 radium-0.7.0 tap-1.0.1 wyz-0.5.1
flate2-1.1.1 crc32fast-1.5.0 miniz_oxide-0.8.9 adler2-2.0.1
ciborium-0.2.2 ciborium-io-0.2.2 ciborium-ll-0.2.2""".split()
#: stand-ins of our own: directory under shims/ -> directory in the source
SHIMS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims")


def main(dest):
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    cache = os.path.join(home, "registry/cache")
    crates = sorted(glob.glob(f"{cache}/{OLD}/*.crate"))
    for pat in EXTRA:
        hits = sorted(glob.glob(f"{cache}/{NEW}/{pat}.crate"))
        if not hits:
            sys.exit(f"vendor: {pat}.crate is not in {cache}/{NEW}")
        crates.append(hits[-1])
    shims = sorted(os.listdir(SHIMS))
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(SHIMS)):
        for f in sorted(files):
            with open(os.path.join(root, f), "rb") as fh:
                h.update(os.path.join(root, f).encode() + b"\0" + fh.read() + b"\0")
    stamp = "\n".join(crates + [h.hexdigest()])
    mark = os.path.join(dest, ".stamp")
    if os.path.exists(mark) and open(mark).read() == stamp:
        return
    shutil.rmtree(dest, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="vendor.", dir=os.path.dirname(dest))
    for c in crates:
        with open(c, "rb") as f:
            digest = hashlib.sha256(f.read()).hexdigest()
        with tarfile.open(c) as t:
            t.extractall(tmp, filter="tar")
        d = os.path.join(tmp, os.path.basename(c)[: -len(".crate")])
        with open(os.path.join(d, ".cargo-checksum.json"), "w") as f:
            json.dump({"files": {}, "package": digest}, f)
    for name in shims:
        d = os.path.join(tmp, f"shim-{name}")
        shutil.copytree(os.path.join(SHIMS, name), d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        git = name in ("infosec", "did")
        with open(os.path.join(d, ".cargo-checksum.json"), "w") as f:
            json.dump({"files": {}, "package": None if git else "0" * 64}, f)
    with open(os.path.join(tmp, ".stamp"), "w") as f:
        f.write(stamp)
    os.rename(tmp, dest)


main(os.path.abspath(sys.argv[1]))

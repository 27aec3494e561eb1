"""Builds the extractor and extracts facts from /repo's current working tree."""
import os, subprocess, json, tempfile, shutil, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
FLAGS = ["-Zmir-opt-level=0", "-Zub-checks=no", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"]
class BuildError(Exception): pass
def sysroot(): return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
def stamp():
    h = hashlib.sha256()
    for f in ("vdriver.rs", "facts.rs"): h.update(open(os.path.join(ROOT, "driver", f), "rb").read())
    h.update(subprocess.run(["rustc", "+nightly", "-vV"], capture_output=True).stdout)
    return h.hexdigest()
def driver():
    """path of the built extractor (built on demand)"""
    out = os.path.join(BUILD, "vdriver"); st = os.path.join(BUILD, "vdriver.stamp"); want = stamp()
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == want: return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", "vdriver.rs", "-o", tmp], cwd=os.path.join(ROOT, "driver"), capture_output=True, text=True)
    if r.returncode: raise BuildError("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    with open(st, "w") as f: f.write(want)
    return out
FEATURES = {"none": [], "std": ["use_std"], "ptr": ["experimental_pointer_ranges"], "full": ["use_std", "experimental_pointer_ranges"]}
def manifest():
    """edition and crate root as Cargo.toml declares them"""
    import tomllib
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f: t = tomllib.load(f)
    p = t.get("package", {})
    lib = t.get("lib", {})
    return {"edition": str(p.get("edition", "2015")), "name": lib.get("name", p.get("name", "indexing")).replace("-", "_"), "root": os.path.join(REPO, lib.get("path", "src/lib.rs")), "toml": t}
def extract(features, checked, scratch):
    """facts of the current tree; features: key of FEATURES, checked: debug assertions and overflow checks"""
    d = driver(); out = os.path.join(scratch, "facts-%s-%s.json" % (features, "on" if checked else "off"))
    m = manifest(); sw = "on" if checked else "off"
    env = dict(os.environ, VD_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"))
    cmd = [d, "--edition", m["edition"], "--crate-name", m["name"], "--crate-type", "lib", m["root"], "--cap-lints", "allow", "--out-dir", scratch]
    for f in FEATURES[features]: cmd += ["--cfg", 'feature="%s"' % f]
    cmd += FLAGS + ["-C", "debug-assertions=" + sw, "-C", "overflow-checks=" + sw]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=scratch, timeout=300)
    if not os.path.exists(out): raise BuildError("the crate does not compile with features %s:\n%s" % (features, r.stderr[-3000:]))
    with open(out) as f: return json.load(f)
def scratch():
    return tempfile.mkdtemp(prefix="verif-")
def drop(d): shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    print(driver())

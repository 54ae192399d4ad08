"""Builds the MIR driver and extracts the resolved MIR of /repo's current tree as JSON (cached by content hash)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
OWN = {"Cargo.toml", "Cargo.lock", "target", ".git"}
# name -> cargo features of the analysed build. `os-threads` always comes from the derived default features.
ALIAS = {}      # configuration to analyse instead of another (thorough runs)
CONFIGS = {
    "main": "dot,logging",
    "plain": "",
    "unbounded": "dot,logging,unbounded-channels",
    "cycle": "dot,logging,cycle-like",
    "mongo": "dot,log-mongo",
    "bare": "unbounded-channels,cycle-like",
    "all": "dot,log-mongo,unbounded-channels,cycle-like",
}
ENV = dict(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
           CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL="0", CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG="0",
           CARGO_PROFILE_DEV_BUILD_OVERRIDE_CODEGEN_UNITS="16", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
           CARGO_TERM_COLOR="never")


class BuildError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC"))}
    if "CARGO_HOME" in os.environ: e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e.update(ENV); e.update(kw)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def repo_hash():
    return tree_hash([os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "src"), os.path.join(REPO, "dam-macros")])


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver():
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "drv")
    h = tree_hash([os.path.join(src, "Cargo.toml"), os.path.join(src, "src")])
    stamp = os.path.join(tgt, "stamp")
    exe = os.path.join(tgt, "release", "mirdump")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        run(["cargo", "+nightly", "build", "--offline", "--release"], cwd=src, env=env(CARGO_TARGET_DIR=tgt))
        with open(stamp, "w") as f: f.write(h)
    return exe, h


def derive(text):
    text, n = re.subn(r"(?m)^may\s*=\s*\{[^}]*\bgit\b[^}]*\}[ \t]*\n", "", text)
    if n:
        text = re.sub(r'"dep:may"\s*,?\s*', "", text)
        text = re.sub(r"(?m)^(default\s*=\s*\[[^\]]*)\"coroutines\"", r'\1"os-threads"', text)
    return text


def workspace():
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    want = {e for e in os.listdir(REPO) if e not in OWN and not e.startswith(".")}
    for e in os.listdir(ws):
        if e not in OWN and e not in want: os.unlink(os.path.join(ws, e))
    for e in want:
        l = os.path.join(ws, e)
        if os.path.islink(l) and os.readlink(l) != os.path.join(REPO, e): os.unlink(l)
        if not os.path.islink(l): os.symlink(os.path.join(REPO, e), l)
    for name, text in (("Cargo.toml", derive(open(os.path.join(REPO, "Cargo.toml")).read())),
                       ("Cargo.lock", open(os.path.join(VERIF, "tools", "Cargo.lock")).read())):
        p = os.path.join(ws, name)
        if not os.path.exists(p) or open(p).read() != text:
            with open(p, "w") as f: f.write(text)
    return ws


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def extract(config):
    """Returns the path of the JSON dump of /repo's current tree in this configuration."""
    with lock():
        exe, dh = driver()
        rh = repo_hash()
        out_dir = os.path.join(BUILD, "facts")
        os.makedirs(out_dir, exist_ok=True)
        out = os.path.join(out_dir, "%s-%s-%s.json" % (config, rh, dh))
        tgt = target_dir(config)
        if os.path.exists(out): return out
        ws = workspace()
        for sub in (".fingerprint", "build"):      # never trust mtimes: always recompile the crate itself
            fp = os.path.join(tgt, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d in ("dam", "dam-macros") or d.startswith(("dam-", "dam_macros-")): shutil.rmtree(os.path.join(fp, d))
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "-p", "dam"]
        if CONFIGS[config]: cmd += ["--features", CONFIGS[config]]
        # debug assertions off: what only a debug build checks guarantees nothing
        run(cmd, cwd=ws, env=env(CARGO_TARGET_DIR=tgt, CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", RUSTC_WRAPPER=os.path.join(VERIF, "tools", "wrap.sh"),
            RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_CRATE="dam", MIRDUMP_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib")))
        if not os.path.exists(out): raise BuildError("the driver produced no output for configuration " + config)
        lib = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(tgt, "debug")) for f in fs if re.fullmatch(r"libdam-[0-9a-f]+\.rmeta", f)]
        if lib: shutil.copy(max(lib, key=os.path.getmtime), out[:-5] + ".rmeta")
        old = [f for f in os.listdir(out_dir) if f.startswith(config + "-") and not f.startswith(os.path.basename(out)[:-5])]
        for f in old: os.unlink(os.path.join(out_dir, f))
        return out


def target_dir(config):
    return os.path.join(BUILD, "t-mongo" if config == "mongo" else "t-main")


if __name__ == "__main__":
    for c in sys.argv[1:] or ["main"]:
        t = time.time()
        print(c, extract(c), "%.1fs" % (time.time() - t))

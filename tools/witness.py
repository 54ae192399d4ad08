"""Type-level witnesses: small client programs that must (or must not) compile against /repo's current tree."""
import json, os, shutil, subprocess, tempfile
import extract


def library(config="main", force=False):
    """The metadata of the analysed build of the crate, and where its dependencies are."""
    facts = extract.extract(config)
    keep = facts[:-5] + ".rmeta"
    if force or not os.path.exists(keep):
        os.unlink(facts)
        extract.extract(config)
    if not os.path.exists(keep): raise extract.BuildError("the extraction left no library metadata")
    deps = []
    for d, _, fs in os.walk(os.path.join(extract.target_dir(config), "debug")):
        if any(f.endswith((".rmeta", ".so")) and f.startswith("lib") for f in fs): deps.append(d)
    return keep, sorted(deps)


def compile(text, rmeta, deps):
    """(did it compile, set of error codes, first message)"""
    d = tempfile.mkdtemp(prefix="wit")
    try:
        src = os.path.join(d, "w.rs")
        with open(src, "w") as f: f.write(text)
        lib = os.path.join(d, "libdam.rmeta")
        os.symlink(rmeta, lib)
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit", "metadata", "--error-format", "json", "--cap-lints", "allow",
                            "--extern", "dam=" + lib, *[x for y in deps for x in ("-L", "dependency=" + y)], "-o", os.path.join(d, "w.rmeta"), src],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=extract.env())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    codes, first = set(), None
    for line in r.stderr.splitlines():
        try: m = json.loads(line)
        except ValueError: continue
        if m.get("level") != "error" or m.get("message", "").startswith("aborting"): continue
        codes.add((m.get("code") or {}).get("code"))
        first = first or m.get("message")
    return r.returncode == 0, codes, first


class Witnesses:
    def __init__(self, rep):
        self.rep = rep
        self.lib = library()
        ok, codes, first = compile("extern crate dam;\n", *self.lib)
        if not ok:
            self.lib = library(force=True)
            ok, codes, first = compile("extern crate dam;\n", *self.lib)
            if not ok: raise extract.BuildError("client programs cannot be compiled against the crate: %s" % first)
        self.n = 0

    def builds(self, text, key, msg):
        self.n += 1
        ok, codes, first = compile(text, *self.lib)
        self.rep.ok(ok, key, "%s (%s)" % (msg, first))
        return ok

    def rejected(self, text, codes, key, msg):
        """The program must not compile, and for the stated reason only."""
        self.n += 1
        ok, got, first = compile(text, *self.lib)
        if ok: self.rep.fail(key, msg); return False
        if not got <= set(codes): raise extract.BuildError("the witness for %s fails for another reason than it should (%s: %s)" % (key, ", ".join(map(str, got)), first))
        self.rep.ok(True, key, msg)
        return True

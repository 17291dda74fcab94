"""Builds the MIR dump of /repo (and of the witness crate that uses its macros) with the driver."""
import fcntl
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
REPO = "/repo"
OWN = ("ttgraph", "ttgraph_macros", "witness")


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def driver():
    path = os.path.join(VERIF, "driver", "target", "debug", "ttg-driver")
    rc, out = run(["cargo", "build", "--offline", "-q"], os.path.join(VERIF, "driver"))
    if rc != 0 or not os.path.exists(path):
        raise BuildError("driver does not build", out)
    return path


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = run(["rustc", "+nightly", "--print", "sysroot"], VERIF)
        _sysroot = out.strip()
    return _sysroot


def witness(name, source):
    """the crate that uses the macros, written from its declarations (see wit.py)"""
    d = os.path.join(CACHE, "witness-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(VERIF, "witness", f)
        if os.path.exists(p):
            shutil.copy(p, os.path.join(d, f))
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(source)
    return d


def dump(tag="default", features=True, assertions=False, name="fixed", source=None):
    """-> directory with ttgraph.json and witness.json for the current tree"""
    if source is None:
        import wit
        source = wit.source(*wit.fixed(), macros=True)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        out = os.path.join(CACHE, "out-" + tag + ("" if name == "fixed" else "-" + name))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        wdir = witness(name, source)
        tgt = os.path.join(CACHE, "target-" + ("default" if features else "nodebug") + ("-dev" if assertions else ""))
        env = {"LD_LIBRARY_PATH": sysroot() + "/lib", "RUSTC_WRAPPER": drv, "TTG_CRATES": "ttgraph,witness",
               "TTG_OUT": out, "CARGO_TARGET_DIR": tgt,
               # what is only asserted in debug builds does not count, unless asked for
               "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "true" if assertions else "false"}
        # forget the own crates, so that they are always read again whatever their time stamps say
        fp = os.path.join(tgt, "debug", ".fingerprint")
        for n in OWN:
            shutil.rmtree(os.path.join(tgt, "debug", "build", n), ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, "debug", "incremental"), ignore_errors=True)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.rsplit("-", 1)[0] in OWN:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
        if not features:
            cmd += ["--no-default-features"]
        rc, log = run(cmd, wdir, env)
        if rc != 0 and os.path.exists(os.path.join(out, "ttgraph.json")):
            # the crate itself compiles, code using its macros does not
            with open(os.path.join(out, "error"), "w") as f:
                f.write(log)
            return out
        if rc != 0:
            raise BuildError("the tree does not compile" + ("" if features else " without its default features"), log)
        for n in ("ttgraph", "witness"):
            if not os.path.exists(os.path.join(out, n + ".json")):
                raise BuildError("no dump of " + n, log)
        return out


if __name__ == "__main__":
    t = time.time()
    print(dump())
    print(dump("nodebug", False))
    print(time.time() - t)

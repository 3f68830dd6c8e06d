"""Builds the driver, type-checks the harness against /repo's working tree, dumps its MIR."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver():
    d = os.path.join(VERIF, "driver")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--quiet"], d, {"CARGO_TARGET_DIR": os.path.join(TARGET, "driver")})
    if rc:
        raise BuildError("the MIR driver does not build\n" + out)
    return os.path.join(TARGET, "driver", "debug", "mirfacts")


def tree_files(top, skip):
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def digest(crate):
    h = hashlib.sha256()
    for top in (REPO, os.path.join(VERIF, crate), os.path.join(VERIF, "driver")):
        for f in tree_files(top, ("target", ".git")):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:24]


STOPS = "opaque"


def facts(crate="harness"):
    """-> path of the facts of the current /repo, as instantiated by the crate in /verif/<crate>"""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return locked_facts(crate)


def locked_facts(crate):
    bin_ = driver()
    out = os.path.join(TARGET, f"facts-{crate}-{digest(crate)}.json")
    if os.path.exists(out):
        return out
    for f in os.listdir(TARGET):
        if f.startswith(f"facts-{crate}-"):
            os.unlink(os.path.join(TARGET, f))
    tmp = out + ".tmp"
    env = {
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
        "LD_LIBRARY_PATH": sysroot() + "/lib",
        "MIRFACTS_CRATE": "bmharness",
        "MIRFACTS_OUT": tmp,
        "MIRFACTS_STOP": STOPS,
        "RUSTC_WORKSPACE_WRAPPER": bin_,
        "CARGO_TARGET_DIR": os.path.join(TARGET, crate),
    }
    # cargo would skip the wrapper on a crate it thinks is fresh
    for sub in (".fingerprint", "build"):
        d = os.path.join(TARGET, crate, "debug", sub)
        for p in os.listdir(d) if os.path.isdir(d) else ():
            if p == "bm" or p.startswith(("bm-", "bm_", "bmharness")):
                shutil.rmtree(os.path.join(d, p))
    rc, log = run(["cargo", "+nightly", "check", "--offline", "--quiet"], os.path.join(VERIF, crate), env)
    if rc or not os.path.exists(tmp):
        raise BuildError(f"the {crate} crate does not type-check against /repo\n" + log[-6000:])
    os.rename(tmp, out)
    return out


if __name__ == "__main__":
    try:
        for c in sys.argv[1:] or ["harness", "wire"]:
            print(facts(c))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)

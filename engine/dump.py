"""Build the driver and the entry-point crate against /repo and load the MIR dump."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(ROOT, "driver")
ENTRY = os.path.join(ROOT, "entry")
UNITS = {"b": ENTRY, "s": os.path.join(ROOT, "entry_s")}     # builder side, serialisation side
WORK = os.path.join(ROOT, "work")


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"], ROOT)
    if rc:
        raise BuildError(o)
    return o.strip().splitlines()[-1]


def build_driver():
    rc, o = sh(["cargo", "+nightly", "build", "--release", "--offline"], DRIVER)
    if rc:
        raise BuildError("driver does not build:\n" + o[-4000:])
    return os.path.join(DRIVER, "target", "release", "mirdump")


def tree_hash(unit):
    """Hash of everything the dump depends on."""
    entry = UNITS[unit]
    h = hashlib.sha256()
    fs = []
    for base in ("/repo/src", os.path.join(entry, "src"), os.path.join(DRIVER, "src")):
        for d, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                fs.append(os.path.join(d, f))
    fs += ["/repo/Cargo.toml", os.path.join(entry, "Cargo.toml")]
    for f in fs:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


RUSTFLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on"


def make_dump(unit="b"):
    """Compile /repo and the entry points with the dumping compiler driver.

    The dump is a pure function of the hashed inputs; it is reused between the
    checks of one run only when the sources hash to the same value.
    """
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        th = tree_hash(unit)
        entry = UNITS[unit]
        out = os.path.join(WORK, "dump-%s-%s.json" % (unit, th[:32]))
        if os.path.exists(out):
            return out
        for f in os.listdir(WORK):
            if f.startswith("dump-%s-" % unit):
                os.unlink(os.path.join(WORK, f))
        drv = build_driver()
        sr = sysroot()
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        env = {
            "LD_LIBRARY_PATH": sr + "/lib",
            "RUSTFLAGS": RUSTFLAGS,
            "RUSTC_WORKSPACE_WRAPPER": drv,
            "MIRDUMP_OUT": tmp,
            "MIRDUMP_CRATE": "wot_entry" if unit == "b" else "wot_entry_" + unit,
            "MIRDUMP_TARGET": "wot_td",
            "MIRDUMP_SYSROOT": sr,
            "CARGO_TARGET_DIR": os.path.join(ENTRY, "target"),
            "MIRDUMP_OPEN": {"b": "", "s": "serde,serde_core,serde_with"}[unit],
        }
        # cargo decides freshness by mtime; the entry crate is always re-analysed,
        # and the analysed crate is re-checked when its content hash is new.
        sh(["cargo", "+nightly", "clean", "--offline", "-p", "wot_entry" if unit == "b" else "wot_entry_" + unit, "-p", "wot-td"], entry, env)
        rc, o = sh(["cargo", "+nightly", "check", "--offline"], entry, env)
        if rc or not os.path.exists(tmp):
            raise BuildError("the analysed crate or the entry points do not compile:\n" + o[-6000:])
        os.rename(tmp, out)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def load(unit="b"):
    with open(make_dump(unit)) as f:
        return json.load(f)

"""Builds the MIR driver and dumps the resolved program from /repo's current tree."""
import fcntl
import hashlib
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver():
    src = os.path.join(ROOT, "driver", "jjdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "jjdump-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        run(["rustc", "+nightly", "--edition", "2024", src, "-o", tmp], cwd=BUILD)
        os.rename(tmp, exe)
    return exe


def dump(out):
    """Dump the program reachable from the harness roots into the file `out`."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTC_WRAPPER"] = exe
        env["JJ_DUMP_CRATE"] = "jj_roots"
        env["JJ_DUMP_OUT"] = out
        env["JJ_MODELS"] = os.path.join(ROOT, "harness", "models.txt")
        env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0"
        # one target directory per working tree path: cargo's freshness is never relied on
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        if os.path.exists(out):
            os.remove(out)
        os.utime(os.path.join(ROOT, "harness", "src", "lib.rs"))
        # the crate under analysis is always compiled again
        run(["cargo", "+nightly", "clean", "--offline", "-p", "justjson", "-p", "jj_roots"], env=env, cwd=os.path.join(ROOT, "harness"))
        run(["cargo", "+nightly", "check", "--offline"], env=env, cwd=os.path.join(ROOT, "harness"))
        if not os.path.exists(out):
            raise BuildError("the driver produced no dump")
    return out

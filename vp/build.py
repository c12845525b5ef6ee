"""Builds the server under observation from /repo's working tree, plus the shim and fake shell."""
import fcntl, hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CFG = ["--cfg", "vp_hooks", "-Aunexpected_cfgs"]


class BuildError(Exception):
    pass


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        if d == root:
            ds[:] = [x for x in ds if x not in (".git", "target")]
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, env=None, timeout=850):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout.decode("utf8", "replace")[-6000:]))
    return r.stdout.decode("utf8", "replace")


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    return e


def seed_target(dst):
    """Reuse the dependencies /opt/vp/build.sh already compiled, if they are there."""
    src = os.path.join("/repo", "target", "debug")
    if os.path.exists(os.path.join(dst, "debug")) or not os.path.isdir(src):
        return
    os.makedirs(os.path.join(dst, "debug"), exist_ok=True)
    for sub in ("deps", "build", ".fingerprint"):
        s = os.path.join(src, sub)
        if os.path.isdir(s):
            subprocess.run(["cp", "-a", s, os.path.join(dst, "debug", sub)], check=False)
    for f in (".cargo-lock", "CACHEDIR.TAG"):
        s = os.path.join(src, f)
        if os.path.exists(s):
            shutil.copy2(s, os.path.join(dst, "debug", f))


def ensure():
    """Returns dict(bin=..., shim=..., vpsh=...)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = {}
        sh = tree_hash(os.path.join(VERIF, "shim"))
        sd = os.path.join(BUILD, "shim-" + sh)
        if not os.path.exists(os.path.join(sd, "ok")):
            os.makedirs(sd, exist_ok=True)
            run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", sd + "/vpshim.so", VERIF + "/shim/vpshim.c", "-ldl"])
            run(["gcc", "-O2", "-static", "-w", "-o", sd + "/vpsh", VERIF + "/shim/vpsh.c"])
            run(["gcc", "-O2", "-c", "-fPIC", "-w", "-o", sd + "/atomics.o", VERIF + "/shim/atomics.c"])
            open(os.path.join(sd, "ok"), "w").close()
        out["shim"] = sd + "/vpshim.so"
        out["vpsh"] = sd + "/vpsh"
        h = tree_hash(REPO)
        bd = os.path.join(BUILD, "bin-" + h + "-" + sh[:8])
        b = os.path.join(bd, "pizauth")
        if not os.path.exists(b):
            tgt = os.path.join(BUILD, "target")
            seed_target(tgt)
            args = ["cargo", "rustc", "--offline", "--manifest-path", REPO + "/Cargo.toml", "--bin", "pizauth",
                    "--target-dir", tgt, "--"] + CFG + ["--cfg", 'vp_src="%s"' % h]
            # have the server's atomic operations call our own functions (see shim/atomics.c)
            atomics = ["-C", "passes=tsan", "-Z", "share-generics=no", "-C", "link-arg=" + sd + "/atomics.o"]
            lockf = os.path.join(REPO, "Cargo.lock")
            before = open(lockf, "rb").read() if os.path.exists(lockf) else None
            fine = True
            try:
                out["log"] = run(args + atomics, dict(env(), RUSTC_BOOTSTRAP="pizauth"))
            except BuildError:
                out["log"] = run(args, env())
                fine = False
            if before is not None and open(lockf, "rb").read() != before:
                with open(lockf, "wb") as fh:
                    fh.write(before)
            # keep only a few binaries around
            old = sorted((d for d in os.listdir(BUILD) if d.startswith("bin-")),
                         key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
            for d in old[:-6]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            os.makedirs(bd, exist_ok=True)
            if fine:
                open(os.path.join(bd, "atomics"), "w").close()
            shutil.copy2(os.path.join(tgt, "debug", "pizauth"), b + ".tmp")
            os.rename(b + ".tmp", b)
        out["bin"] = b
        out["atomics"] = os.path.exists(os.path.join(bd, "atomics"))
        out["hash"] = h
        return out


if __name__ == "__main__":
    try:
        r = ensure()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(r["bin"])

"""Detached servers, and what any server leaves behind in files, logs and children."""
import hashlib, json, os, random, re, signal, socket, stat, subprocess, threading, time
from base64 import urlsafe_b64encode
from urllib.parse import quote, unquote
from . import codec
from .core import scenario
from .world import *
from .scn_proc import listening


def mode(p):
    return stat.S_IMODE(os.stat(p).st_mode)


def binds(w):
    """[(mode of the socket's directory, mode of the directory above, path)] when sockets were bound."""
    o = []
    for l in w.opens():
        if l.startswith("BIND "):
            _, a, b, p = l.split(" ", 3)
            o.append((int(a, 8), int(b, 8), p))
    return o


@scenario(["C30", "C27", "C28"], n=30, nt=1000)
def detached(c):
    """A detached server, from its start through work, time, reload and shutdown."""
    r = c.rng
    w = c.world(verbose=0)
    w.default_policy = lambda q: w.grant(q, 10**7)
    A = [w.acct("alpha"), w.acct("beta")]
    glob = {"auth_notify_cmd": '"AN run"', "token_event_cmd": '"TE run"', "error_notify_cmd": '"EN run"', "refresh_at_least": "80d"}
    wd = os.path.join(w.dir, "wd")
    os.makedirs(os.path.join(wd, "sub"))
    k = r.choice(["default", "abs", "rel", "rel", "xdg"])
    env = w.spawn_env()
    if k == "default":
        args = []
    elif k == "abs":
        w.conf = os.path.join(w.dir, "abs.conf")
        args = ["-c", w.conf]
    elif k == "rel":
        w.conf = os.path.join(wd, "sub", "rel.conf")
        args = ["-c", r.choice(["sub/rel.conf", "./sub/../sub/rel.conf"])]
    else:
        env["XDG_CONFIG_HOME"] = os.path.join(w.dir, "xdgc")
        os.mkdir(env["XDG_CONFIG_HOME"])
        w.conf = os.path.join(env["XDG_CONFIG_HOME"], "pizauth.conf")
        args = []
    vs = r.choice([[], ["-v"], ["-vv"], ["-vvvv"], ["-v", "-v", "-v", "-v", "-v"]])
    rc, out = w.start_daemon(A, glob, args=args + vs, env=env, cwd=wd)
    # no grace period: the exit is the promise
    x = w.cli("info", "-j", "-c", w.conf)
    c.check(rc == 0 and out == "", ["C30", "C28"], "`pizauth server` exits with %s and says %r for a valid configuration" % (rc, out))
    c.check(x.rc == 0 and json.loads(x.out)["server_running"] is True and w.proc is not None, ["C30"], "no server can be reached right after `pizauth server` exited with 0: %s" % x)
    w.wait_up()
    # detached: own session, no terminal, none of our descriptors
    sid = os.getsid(w.proc.pid)
    c.check(sid != os.getsid(0), ["C30"], "the server did not leave our session")
    fds = {f: os.readlink("/proc/%d/fd/%d" % (w.proc.pid, f)) for f in (0, 1, 2)}
    c.check(set(fds.values()) == {"/dev/null"}, ["C30"], "descriptors %s" % fds)
    L = listening(w.proc.pid)
    c.check({x[2] for x in L} == set(w.ports.values()), ["C30", "C25"], "listening on %s, reported %s" % (L, w.ports))
    # works like any other
    w.settle()
    u = w.auth_url("alpha")
    w.settle()
    c.check([x.url for x in w.runs("AN")] == [u], ["C30", "C09"], "notifications %s" % w.runs("AN"))
    c.check(w.callback(u, code="k1") == 200, ["C30"], "callback")
    w.settle()
    c.check(w.token("alpha") == w.reqs[-1].issued["access"] and [(x.event, x.act) for x in w.runs("TE")] == [("token_new", "alpha")], ["C30", "C15"], "authorisation with a detached server: events %s" % w.runs("TE"))
    ub = w.auth_url("beta")
    w.settle()
    # children get the server's surroundings: no descriptors of its own, /dev/null as stdin
    # time: reminders and the socket file
    sp = os.path.join(w.run_dir, "pizauth", "pizauth.sock")
    t0 = last = w.now()
    os.utime(sp, (1, 1))
    # (the XDG specification goes by the access time)
    used = lambda: os.stat(sp).st_atime > 1000
    total = r.choice([1, 2, 3, 5]) * 6.01 * 3600 + r.randrange(3600)
    step = r.choice([600, 1800, 5000])
    while w.now() - t0 < total:
        w.advance(min(step, max(total - (w.now() - t0), 1)))
        if used():
            last = w.now()
            os.utime(sp, (1, 1))
        if w.now() - last > 6 * 3600 + step + 5 and w.confirm(lambda: not used()):
            c.fail(["C30"], "the socket file was not marked as used for %.1f h" % ((w.now() - last) / 3600))
    c.check(len(w.runs("AN", "beta")) >= 2, ["C30", "C09"], "no reminders from a detached server")
    c.case(("touch", int(total // 21600)))
    # reload finds the same file
    w.write_conf(A + [w.acct("gamma")], glob)
    x = w.cli("reload")
    c.check(x.rc == 0 and b"gamma: " in w.raw_sock(b"status:"), ["C30", "C20"], "reload of %s by a detached server: %s" % (args, x))
    c.check(w.callback(ub, code="k2") == 200, ["C30", "C04"], "callback after a reload")
    w.settle()
    c.check(w.token("beta"), ["C30"], "no token after a reload")
    # a second one, detached or not
    for a in ([], ["-d"]):
        x = w.cli("server", *a, env=env) if k != "rel" else w.cli("server", "-c", w.conf, *a, env=env)
        c.check(x.rc == 1 and "already running" in x.err and w.alive(), ["C27", "C30"], "a second server: %s" % x)
    m = [x for x in w.syslog.msgs if b"panicked" in x]
    c.check(not m, ["C22", "C30"], "syslog: %s" % m)
    if r.random() < .3:
        w.proc.kill()
        w.killed = w.proc
        w.proc.wait(10)
    else:
        w.killed = w.proc
        x = w.cli("shutdown")
        c.check(x.rc == 0, ["C28"], "shutdown: %s" % x)
        try:
            w.proc.wait(20)
        except subprocess.TimeoutExpired:
            c.fail(["C27", "C30"], "a detached server does not shut down")
    rc, out = w.start_daemon(args=args, env=env, cwd=wd)
    x = w.cli("status")
    c.check(rc == 0 and x.rc == 0 and x.out.count("No access token") == 3, ["C27", "C30"], "restart of a detached server: %s %s %s" % (rc, out, x))
    c.case(("detached", k, len(vs)))


@scenario(["C30", "C21", "C28"], n=12, nt=400)
def not_ready(c):
    """What keeps a server from starting is reported before it detaches."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("a")]
    ks = ["invalid", "missing", "nosyslog", "busy", "badaddr", "nolistener", "socketdir", "ok"]
    r.shuffle(ks)
    for k in ks[:5]:
        w.write_conf(A, {})
        args, env = ["-c", w.conf], w.spawn_env()
        blk = None
        if k == "invalid":
            w.write_conf(text="account \"x\" { auth_uri = 1; }")
        elif k == "missing":
            args = ["-c", "/nonexistent.conf"]
        elif k == "nosyslog":
            env["VPSHIM_SYSLOG"] = os.path.join(w.dir, "no-such-socket")
        elif k == "busy":
            blk = socket.socket()
            blk.bind(("127.0.0.1", 0))
            blk.listen(1)
            w.write_conf(A, {r.choice(["http_listen", "https_listen"]): '"127.0.0.1:%d"' % blk.getsockname()[1]})
        elif k == "badaddr":
            w.write_conf(A, {r.choice(["http_listen", "https_listen"]): '"nonsense"'})
        elif k == "nolistener":
            w.write_conf(A, {"http_listen": "none"})
        elif k == "socketdir":
            # something that cannot be replaced stands where the socket should be
            sp = os.path.join(w.run_dir, "pizauth", "pizauth.sock")
            if os.path.lexists(sp):
                os.unlink(sp)
            os.makedirs(os.path.join(sp, "x"))
        rc, out = w.start_daemon(args=args, env=env)
        x = w.cli("status")
        if k == "ok":
            c.check(rc == 0 and w.proc and x.rc == 0, ["C30"], "start: %s %r, status %s" % (rc, out, x))
            w.kill()
        else:
            c.check(rc != 0 and rc is not None and out.strip() and "panicked" not in out, ["C30", "C21", "C28"], "%s: `pizauth server` exits with %s and says %r" % (k, rc, out))
            c.check(w.proc is None and x.rc == 1, ["C30"], "%s: a server runs although `pizauth server` failed (status: %s)" % (k, x))
        if k == "socketdir":
            os.rmdir(os.path.join(w.run_dir, "pizauth", "pizauth.sock", "x"))
            os.rmdir(os.path.join(w.run_dir, "pizauth", "pizauth.sock"))
        if blk:
            blk.close()
        w.proc = None
        c.case(("notready", k))


# --------------------------------------------------------------------------- C26
@scenario(["C26"], n=30, nt=1000)
def private_dirs(c):
    """The socket's directories are private by the time there is a socket, whatever they were before."""
    r = c.rng
    w = c.world(verbose=0)
    w.write_conf([w.acct("a")], {})
    for i in range(3):
        base = os.path.join(w.dir, "d%d" % i)
        os.mkdir(base, 0o755)
        um = r.choice([0, 0, 0o022, 0o077, 0o002, 0o777 & ~0o700])
        env = dict(w.spawn_env())
        del env["XDG_RUNTIME_DIR"]
        route = r.choice(["xdg", "xdg", "tmpdir"])
        if route == "xdg":
            top = os.path.join(base, "rt")
            env["XDG_RUNTIME_DIR"] = top
        else:
            env["TMPDIR"] = base
            top = os.path.join(base, "runtime-root")
        sub = os.path.join(top, "pizauth")
        ms = []
        for p in (top, sub):
            if r.random() < .6 and os.path.exists(os.path.dirname(p)):
                os.mkdir(p)
                m = r.choice([0o777, 0o755, 0o700, 0o711, 0o1777, 0o770, 0o500, 0o000, 0o2755])
                os.chmod(p, m)
                ms.append(oct(m))
            else:
                ms.append(None)
        det = r.random() < .5
        k = len(binds(w))
        if det:
            rc, out = w.start_daemon(args=["-c", w.conf], env=env, umask=um)
            c.check(rc == 0 and w.proc, ["C30", "C26"], "server does not start: %s %s" % (rc, out))
        else:
            w.err_f = open(w.errlog, "ab")
            w.proc = subprocess.Popen([w.built["bin"], "server", "-d", "-c", w.conf], env=env, stdin=subprocess.DEVNULL, stdout=w.err_f, stderr=w.err_f, cwd=w.dir, umask=um)
            t0 = time.monotonic()
            while not os.path.exists(os.path.join(sub, "pizauth.sock")):
                time.sleep(.003)
                if time.monotonic() - t0 > 15 or w.proc.poll() is not None:
                    raise Inconclusive("no socket: %s" % w.err_text()[-500:])
        b = [x for x in binds(w)[k:] if x[2] == os.path.join(sub, "pizauth.sock")]
        c.check(len(b) == 1, ["C26"], "sockets bound: %s, expected one in %s" % (binds(w)[k:], sub))
        c.check(b[0][0] == 0o700 and b[0][1] == 0o700, ["C26"], "when the socket was bound its directories had modes %o and %o (before: %s, umask %o)" % (b[0][1], b[0][0], ms, um))
        for p in (top, sub):
            c.check(mode(p) == 0o700 and os.stat(p).st_uid == os.getuid(), ["C26"], "%s has mode %o (before: %s, umask %o)" % (p, mode(p), ms, um))
        # and clients put them right again
        os.chmod(r.choice([top, sub]), 0o755)
        e = {x: y for x, y in env.items() if x not in ("LD_PRELOAD",)}
        x = w.cli("status", env=e)
        c.check(x.rc == 0, ["C28"], "status: %s" % x)
        c.check(mode(top) == 0o700 and mode(sub) == 0o700, ["C26"], "after a client ran: modes %o, %o" % (mode(top), mode(sub)))
        c.case(("dirs", route, ms[0], ms[1], um, det))
        w.kill()
        w.proc = None


def b64(b):
    return urlsafe_b64encode(b).rstrip(b"=").decode()


def leaks(c, w, v, codes, det):
    """Search every place the server could have written to for every secret of this world. Returns how much was logged."""
    secret = {}
    for t, (a, kind) in w.issued.items():
        secret[re.match(r"\s*([\w-]+)", t, re.A).group(1)] = secret[t] = "a token of kind %s" % kind
    for q in w.reqs:
        if q.f("code_verifier"):
            secret[q.f("code_verifier")] = "a verifier"
    for x in codes:
        secret[x] = "a code"
    for a in w.accts:
        if a.client_secret:
            secret[a.client_secret] = "a client secret"
    forms = {}
    for t, what in secret.items():
        for f in (t, quote(t, safe=""), json.dumps(t)[1:-1], t.encode().hex(), b64(t.encode())[:-1]):
            forms[f] = what

    def clean(where, text):
        for f, what in forms.items():
            if f in text:
                i = text.index(f)
                c.fail(["C26"], "%s is in %s: ...%s..." % (what, where, text[max(0, i - 200):i + 100]))

    clean("the log (verbosity %d)" % v, w.err_text())
    logged = len(w.err_text())
    if det:
        t = b"\n".join(w.syslog.msgs).decode("utf8", "replace")
        clean("the system log (verbosity %d)" % v, t)
        logged += len(t)
    for x in w.sh.runs:
        clean("the arguments of a child", "\0".join(x.argv))
        clean("the environment of a child", "\0".join(x.envl))
    wr = [l.split(" ", 2)[2] for l in w.opens() if not l.startswith(("BIND", "PANIC"))]
    wr = [x for x in wr if x not in ("/dev/null", "/dev/tty", "/dev/urandom", "/dev/random")]
    c.check(not wr, ["C26"], "the server opened files for writing: %s" % wr)
    for top in (w.run_dir, w.home, os.path.join(w.dir)):
        for dp, ds, fs in os.walk(top):
            for f in fs:
                p = os.path.join(dp, f)
                # the configuration holds the client secrets; the rest is the harness's own
                if os.path.isfile(p) and p not in (w.conf, w.ctlpath, w.conf + ".new"):
                    clean("file " + p, open(p, "rb").read().decode("utf8", "replace"))
    return logged


@scenario(["C26"], n=30, nt=1200, limit=200)
def secrets(c):
    """A server through all that can happen to accounts, at any verbosity: which files, logs and children saw a secret?"""
    r = c.rng
    det = r.random() < .4
    v = r.choice([0, 1, 2, 3, 4, 4, 4, 6])
    w = c.world(verbose=v)
    mode_of = {}

    def policy(q):
        m = mode_of.get(q.act, "grant")
        if m == "grant":
            return w.grant(q, r.choice([100, 600, 3600, 10**7]), scope="a b", **({"id_token": w.mint(q.act, "ID")} if r.random() < .5 else {}))
        if m == "bad":
            return J({"error": "invalid_grant", "error_description": "no"}, 400, "Bad Request")
        if m == "junk":
            # a token reply that is not quite right, with secrets in it
            at, rt = w.mint(q.act, "AT"), w.mint(q.act, "RT")
            return r.choice([J({"access_token": at, "refresh_token": rt, "token_type": "Bearer"}), J({"access_token": at, "refresh_token": rt, "expires_in": 100, "token_type": "mac"}),
                             J({"access_token": at, "refresh_token": rt, "expires_in": "soon", "token_type": "Bearer"}), J(('{"access_token":"%s","refresh_token":"%s"' % (at, rt)).encode()),
                             J({"access_token": at, "refresh_token": rt, "expires_in": 2**64 - 1, "token_type": "Bearer"}), J({"access_token": at, "refresh_token": rt, "expires_in": -5, "token_type": "Bearer"})])
        if m == "cut":
            # an answer that breaks off, or never quite arrives
            at, rt = w.mint(q.act, "AT"), w.mint(q.act, "RT")
            b = json.dumps({"access_token": at, "refresh_token": rt, "token_type": "Bearer", "expires_in": 1000}).encode()
            full = b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (len(b) + r.choice([0, 0, 5])) + b
            return ("raw", [full[:r.randrange(1, len(full))] if r.random() < .6 else r.choice([b"\0" * 50, b"HTTP/1.1 xx\r\n\r\n", full.replace(b"OK", b"OK\r\nTransfer-Encoding: chunked")])]) + (("reset",) if r.random() < .4 else ())
        if m == "redirect":
            return ("reply", 302, "Found", [("Location", w.servers[q.act].uri("/elsewhere"))], b"")
        if m == "close":
            return r.choice([CLOSE, RESET])
        return J({}, 500, "Oops")

    w.default_policy = policy
    A = [w.acct("a%d" % i, client_secret="sEcReT-%d-%s" % (i, r.choice(["x y", "\"q\\", "plain", "é+/="]))) for i in range(3)]
    glob = {k: v2 for k, v2 in CMDS.items() if r.random() < .8}
    glob.update(refresh_at_least=r.choice(["100s", "1h", "90m"]), refresh_before_expiry="10s", refresh_retry="37s")
    w.sh.policy = lambda run: r.choice([0, 0, 0, 1]) if run.kind != "TR" else 0
    if det:
        rc, out = w.start_daemon(A, glob, args=["-v"] * v)
        c.check(rc == 0, ["C30"], "start: %s" % out)
        w.wait_up()
    else:
        w.start(A, glob)
    urls, codes, dumps = {}, [], []
    for i in range(40 if c.tier == "quick" else 90):
        a = r.choice(A)
        o = r.randrange(14)
        if o == 0:
            mode_of[a.name] = r.choice(["grant", "grant", "bad", "junk", "close", "cut", "500", "redirect"])
        elif o <= 2:
            x = w.cli(r.choice(["show", "refresh"]), a.name)
            if w.url_of(x):
                urls[a.name] = w.url_of(x)
        elif o <= 6 and urls.get(a.name):
            code = "cOdE-%d-%d" % (i, r.randrange(10**12))
            codes.append(code)
            k = r.random()
            w.callback(urls[a.name], code=code, state="wrong" if k < .1 else None, host="elsewhere:1" if k > .95 else None, method="POST" if .9 < k < .95 else "GET")
        elif o == 7:
            w.cli("revoke", a.name)
        elif o == 8:
            x = w.cli("dump", text=False)
            if x.rc == 0:
                dumps.append(x.out)
        elif o == 9 and dumps:
            d = r.choice(dumps)
            w.cli("restore", input=d if r.random() < .6 else d[:-3])
        elif o == 10:
            B = [x.copy(scopes=["s%d" % r.randrange(3)]) if r.random() < .3 else x for x in A]
            if r.random() < .3:
                w.write_conf(text=conf_text(B, glob) + "oops")
            else:
                w.write_conf(B, glob)
            w.cli("reload")
        elif o == 11:
            # broken requests, some with secrets in them
            s = r.choice(["codes-are-%s" % (codes[-1] if codes else "none"), "showtoken:x", "frobnicate:", "showtoken:withurl nobody", ":", "refresh:a"])
            if not codes or codes[-1] not in s:
                w.raw_sock(s.encode())
        elif o == 12:
            w.advance(r.choice([5, 40, 100, 600, 4000]))
        else:
            mode_of[a.name] = "grant"
            x = w.cli("show", a.name)
            if w.url_of(x):
                code = "cOdE-%d-%d" % (i, r.randrange(10**12))
                codes.append(code)
                w.callback(w.url_of(x), code=code)
        if r.random() < .7:
            w.settle()
    w.advance(4000)
    logged = leaks(c, w, v, codes, det)
    sp = os.path.join(w.run_dir, "pizauth")
    c.check(os.listdir(sp) == ["pizauth.sock"] and mode(sp) == 0o700 and mode(w.run_dir) == 0o700, ["C26"], "runtime directory: %s" % os.listdir(sp))
    for d in dumps:
        for t in w.issued:
            c.check(t.strip().encode() not in d, ["C26", "C19"], "a dump contains the token %s" % t)
    c.case(("secrets", v, det, len(w.issued) > 3, len(codes) > 2, logged > 0), len(w.issued) > 1)


def tokreply(w, q):
    """A good reply, as a dict of secrets."""
    return {"access_token": w.mint(q.act, "AT"), "refresh_token": w.mint(q.act, "RT"), "id_token": w.mint(q.act, "ID"), "expires_in": 3600, "token_type": "Bearer"}


def without(d, *ks, **kw):
    d = {k: x for k, x in d.items() if k not in ks}
    d.update(kw)
    return d


def raw200(body, *, cl=None, hd=b""):
    return ("raw", [b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n%sConnection: close\r\n\r\n" % (len(body) if cl is None else cl, hd) + body])


def jb(d):
    return json.dumps(d).encode()


# replies that are not what they should be, with secrets in them
SPOILT = {
    "no expires_in": lambda d: J(without(d, "expires_in")), "no token_type": lambda d: J(without(d, "token_type")), "no access_token": lambda d: J(without(d, "access_token")),
    "mac": lambda d: J(without(d, token_type="mac")), "bearer": lambda d: J(without(d, token_type="bearer")), "soon": lambda d: J(without(d, expires_in="3600")), "minus": lambda d: J(without(d, expires_in=-1)),
    "float": lambda d: J(without(d, expires_in=3.5)), "null": lambda d: J(without(d, expires_in=None)), "huge": lambda d: J(without(d, expires_in=2**64 - 1)), "bigger": lambda d: J(without(d, expires_in=2**64)),
    "list": lambda d: J([d]), "nested": lambda d: J({"token": d}), "text": lambda d: J(json.dumps(d)), "html": lambda d: J(b"<html>" + jb(d) + b"</html>"), "form": lambda d: J("&".join("%s=%s" % x for x in d.items()).encode()),
    "cut json": lambda d: J(jb(d)[:-1]), "cut sooner": lambda d: J(jb(d)[:-25]), "two": lambda d: J(jb(d) + jb(d)), "comma": lambda d: J(jb(d).replace(b'"expires_in"', b'"expires_in')), "nul": lambda d: J(jb(d) + b"\0"),
    "escape": lambda d: J(jb(d).replace(b"token_type", b"\\q")), "latin1": lambda d: J(jb(d)[:-1] + b', "x": "\xe9\xff"}'), "control": lambda d: J(jb(d)[:-1] + b', "x": "\n"}'),
    "error": lambda d: J(without(d, error="invalid_grant")), "error type": lambda d: J(without(d, "token_type", error=7)), "access list": lambda d: J(without(d, access_token=[d["access_token"]])),
    "cut body": lambda d: raw200(jb(d), cl=len(jb(d)) + 9), "cut chunk": lambda d: ("raw", [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % (len(jb(d)) + 5) + jb(d)]),
    "odd header": lambda d: raw200(jb(d), hd=b"Set-Cookie\r\n"), "gzip": lambda d: raw200(jb(d), hd=b"Content-Encoding: gzip\r\n"), "no status": lambda d: ("raw", [jb(d)]), "odd status": lambda d: ("raw", [b"HTTP/1.1 OK\r\n\r\n" + jb(d)]),
    "204": lambda d: ("reply", 204, "No Content", [], b""), "302": lambda d: ("reply", 302, "Found", [("Location", "/x")], jb(d)), "401": lambda d: J({"error": "invalid_client"}, 401, "Unauthorized"), "close": lambda d: CLOSE, "reset": lambda d: RESET,
}


@scenario(["C26"], n=40, nt=1200, limit=200)
def spoilt(c):
    """Exchanges and refreshes answered in every way that is not quite right, at high verbosity: is the reply (or the request) quoted anywhere?"""
    r = c.rng
    det = r.random() < .3
    v = r.choice([1, 2, 3, 4, 4, 6])
    w = c.world(verbose=v)
    how = {}

    def policy(q):
        k = how.get(q.act)
        return w.grant(q, 10**6) if k is None else SPOILT[k](tokreply(w, q))

    w.default_policy = policy
    A = [w.acct("a%d" % i, client_secret="sEcReT-%d-x y" % i) for i in range(8)]
    glob = {"refresh_at_least": "1000d", "refresh_before_expiry": "1s", "refresh_retry": "999d"}
    if r.random() < .6:
        glob.update(CMDS)
    ks = sorted(SPOILT)
    j = (c.idx if c.idx is not None else r.randrange(99)) * 4
    pick = [ks[(j + i) % len(ks)] for i in range(4)]
    if det:
        rc, out = w.start_daemon(A, glob, args=["-v"] * v)
        c.check(rc == 0, ["C30"], "start: %s" % out)
        w.wait_up()
    else:
        w.start(A, glob)
    codes = []

    def auth(a):
        codes.append("cOdE-%s-%d" % (a.name, r.randrange(10**12)))
        w.callback(w.auth_url(a.name), code=codes[-1])
        w.settle()

    for i, k in enumerate(pick):
        ex, rf = A[2 * i], A[2 * i + 1]
        how[ex.name] = k
        auth(ex)
        auth(rf)
        how[rf.name] = k
        w.cli("refresh", rf.name)
        w.settle()
        if r.random() < .3:
            # however often it happens
            w.advance(r.choice([7, 31, 70]))
            w.cli("refresh", rf.name)
            w.settle()
    w.advance(400)
    w.settle()
    logged = leaks(c, w, v, codes, det)
    for k in pick:
        c.case(("spoilt", k, v, det), logged > 0 or v == 0)

"""Processes: what `info` says, second servers, crashes, the command line, detached servers, private directories."""
import json, os, random, re, shutil, signal, socket, ssl, stat, subprocess, threading, time
from . import codec
from .core import scenario
from .world import *
from .scn_http import acct_snapshot, rtext
from .scn_conf import try_server


# --------------------------------------------------------------------------- C25
def sock_inodes(pid):
    o = set()
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            l = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError:
            continue
        if l.startswith("socket:["):
            o.add(l[8:-1])
    return o


def listening(pid):
    """{(family, address, port)} of the TCP sockets a process listens on."""
    ino = sock_inodes(pid)
    o = set()
    for fam, f in ((4, "tcp"), (6, "tcp6")):
        for l in open("/proc/%d/net/%s" % (pid, f)).read().splitlines()[1:]:
            x = l.split()
            if x[3] == "0A" and x[9] in ino:
                a, p = x[1].split(":")
                b = bytes.fromhex(a)
                b = b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))
                o.add((fam, socket.inet_ntop(socket.AF_INET if fam == 4 else socket.AF_INET6, b), int(p, 16)))
    return o


def tls_cert(addr, port):
    cx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    cx.check_hostname = False
    cx.verify_mode = ssl.CERT_NONE
    with socket.create_connection((addr, port), timeout=20) as s, cx.wrap_socket(s, server_hostname="localhost") as t:
        return t.getpeercert(True)


def spki_keys(der):
    """Candidate public keys: the BIT STRING contents in a certificate."""
    o = []

    def walk(b, depth):
        i = 0
        while i + 2 <= len(b):
            t, n = b[i], b[i + 1]
            i += 2
            if n & 0x80:
                k = n & 0x7f
                n = int.from_bytes(b[i:i + k], "big")
                i += k
            v = b[i:i + n]
            i += n
            if t == 3 and depth == 3:
                o.append(v[1:])
            elif t & 0x20:
                walk(v, depth + 1)

    walk(der, 0)
    return o


def plain_http(addr, port):
    with socket.create_connection((addr, port), timeout=20) as s:
        s.sendall(b"GET /nothing HTTP/1.1\r\nHost: localhost\r\n\r\n")
        b = b""
        while True:
            try:
                d = s.recv(65536)
            except ConnectionResetError:
                break
            if not d:
                return b
            b += d
        return b


def free_port(addr):
    with socket.socket(socket.AF_INET6 if ":" in addr else socket.AF_INET) as s:
        s.bind((addr, 0))
        return s.getsockname()[1]


def have6():
    try:
        free_port("::1")
        return True
    except OSError:
        return False


def rlisten(r, w):
    """-> (configured value or None if omitted, address or None if off, port or None if any)"""
    k = r.choice(["omit", "omit", "none", "any", "addr", "port", "v6", "name"])
    if k == "omit":
        return None, "127.0.0.1", None
    if k == "none":
        return "none", None, None
    if k == "any":
        return '"127.0.0.1:0"', "127.0.0.1", None
    if k == "addr":
        a = "127.0.%d.%d" % (r.randrange(1, 250), r.randrange(1, 250))
        return '"%s:0"' % a, a, None
    if k == "v6" and have6():
        return '"[::1]:0"', "::1", None
    if k == "name":
        return '"localhost:0"', None, None
    a = "127.%d.%d.%d" % (r.randrange(1, 250), r.randrange(1, 250), r.randrange(1, 250))
    p = free_port(a)
    w.fixed_ports = True
    return '"%s:%d"' % (a, p), a, p


@scenario(["C25", "C20"], n=40, nt=1500)
def info_truth(c):
    """What info says against the sockets the process really has and the certificate it really presents."""
    r = c.rng
    w = c.world(verbose=0)
    while True:
        h, s = rlisten(r, w), rlisten(r, w)
        if not (h[0] == "none" and s[0] == "none"):
            break
    glob = {}
    if h[0]:
        glob["http_listen"] = h[0]
    if s[0]:
        glob["https_listen"] = s[0]
    red = "http" if s[0] == "none" or (h[0] != "none" and r.random() < .5) else "https"
    a = w.acct("a", redirect_uri=red + "://localhost/x")
    args = []
    if r.random() < .4:
        p = os.path.join(w.dir, r.choice(["c.conf", "some dir/é.conf", "x=y"]))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        args = ["-c", p]
        w.conf, dflt = p, w.conf
        w.write_conf([w.acct("a")], {}) if r.random() < .5 else None
        w.conf = p
    # before there is a server
    w.write_conf([a], glob)
    x = w.cli("info", "-j", *args)
    d = json.loads(x.out)
    c.check(x.rc == 0 and d["server_running"] is False and "server_info" not in d, ["C25"], "info -j without a server: %s" % x)
    x = w.cli("info", *args)
    c.check(x.rc == 0 and "server not running" in x.out and "server running" not in x.out, ["C25"], "info without a server: %s" % x)
    keys = []
    for life in range(r.choice([1, 2, 3])):
        w.start(args=args)
        w.settle()
        for y in listening(w.proc.pid):
            w.addrs[{w.ports[n + "_port"]: n for n in ("http", "https")}.get(y[2])] = y[1]
        if r.random() < .5:
            w.authorise("a")
        for rep in range(2):
            x = w.cli("info", "-j", *args)
            d = json.loads(x.out)
            i = d["server_info"]
            c.check(x.rc == 0 and d["server_running"] is True and d["config_file"] == w.conf and d["cache_directory"] == os.path.join(w.run_dir, "pizauth") and d["info_format_version"] == 2
                    and d["executed_as"] == "pizauth", ["C25"], "info -j: %s" % x.out)
            ver = re.search(r'^version = "(.*)"', open(os.path.join(os.environ.get("VP_REPO", "/repo"), "Cargo.toml")).read(), re.M).group(1)
            c.check(d["pizauth_version"] == ver, ["C25"], "version %s" % d["pizauth_version"])
            L = listening(w.proc.pid)
            c.check(len(L) == (h[0] != "none") + (s[0] != "none"), ["C25"], "listening on %s with %s" % (L, glob))
            for n, cfg in (("http", h), ("https", s)):
                got = i[n + "_port"]
                if cfg[0] == "none":
                    c.check(got == "none", ["C25"], "%s is off but reported on port %s" % (n, got))
                    continue
                port = int(got)
                on = [y for y in L if y[2] == port and (cfg[1] is None or y[1] == cfg[1])]
                c.check(len(on) == 1 and (cfg[2] in (None, port)), ["C25", "C20"], "%s: configured %s, reported port %s, listening on %s" % (n, cfg[0], got, L))
                if n == "http":
                    b = plain_http(on[0][1], port)
                    c.check(b.startswith(b"HTTP/1.1 4"), ["C25"], "the HTTP port answers %r" % b[:100])
                else:
                    ks = spki_keys(tls_cert(on[0][1], port))
                    pk = i.get("https_pub_key")
                    c.check(pk and bytes.fromhex(pk.replace(":", "")) in ks and len(pk.replace(":", "")) >= 64 and re.fullmatch("[0-9A-F]{2}(:[0-9A-F]{2})+", pk), ["C25"], "reported key %s, presented %s" % (pk, [k.hex() for k in ks]))
                    c.check(pk not in keys, ["C25"], "the key of an earlier server is used again")
                    key = pk
            if s[0] == "none":
                c.check("https_pub_key" not in i, ["C25"], "a public key is reported without an HTTPS listener")
                key = None
            x = w.cli("info", *args)
            for want in ["  cache directory: %s\n" % os.path.join(w.run_dir, "pizauth"), "  config file: %s\n" % w.conf, "server running:\n", "  HTTP port: %s\n" % i["http_port"], "  HTTPS port: %s\n" % i["https_port"]] + (["  HTTPS public key: %s\n" % key] if key else []):
                c.check(want in x.out, ["C25"], "plain info lacks %r: %s" % (want, x.out))
            c.check(x.rc == 0 and (key is not None) == ("public key" in x.out), ["C25"], "plain info: %s" % x)
            u = w.auth_url("a", cmd="refresh") if not w.token("a") else None
            if u:
                pt = re.search("localhost%%3A(%s)%%2Fx" % i[red + "_port"], u)
                c.check(pt is not None, ["C25", "C05"], "URL %s, but the %s port is %s" % (u, red, i[red + "_port"]))
            if rep == 0:
                # a reload changes none of this, and asking for help from elsewhere does not either
                w.write_conf([a.copy(scopes=["z%d" % life])], dict(glob, auth_notify_interval="9m"))
                c.check(w.cli("reload").rc == 0, ["C20"], "reload")
        if key:
            keys.append(key)
        c.case(("info", h[0] and h[0].split(":")[0], s[0] and s[0].split(":")[0], bool(args), life))
        if r.random() < .5:
            w.kill()
        else:
            w.killed = w.proc
            c.check(w.cli("shutdown").rc == 0, ["C28"], "shutdown")
            w.proc.wait(20)
            w.kill()
        x = w.cli("info", "-j", *args)
        c.check(x.rc == 0 and json.loads(x.out)["server_running"] is False, ["C25"], "info -j after the server is gone: %s" % x)


# --------------------------------------------------------------------------- C27
@scenario(["C27", "C28"], n=24, nt=800)
def second_server(c):
    """A second server for the same directory is refused and the first is unharmed."""
    r = c.rng
    w = c.world(verbose=0)
    w.default_policy = lambda q: w.grant(q, 10**6) if not w.__dict__.get("holding") else HOLD
    A = [w.acct("alpha"), w.acct("beta"), w.acct("gamma")]
    glob = {"auth_notify_cmd": '"AN run"', "token_event_cmd": '"TE run"', "error_notify_cmd": '"EN run"'}
    w.start(A, glob)
    w.authorise("alpha")
    ub = w.auth_url("beta")
    w.holding = True
    ug = w.auth_url("gamma")
    w.callback(ug, code="c-gamma")
    w.settle()
    tok = w.token("alpha")
    sp = os.path.join(w.run_dir, "pizauth", "pizauth.sock")
    ino = os.stat(sp).st_ino
    info = w.raw_sock(b"info:")
    snap = acct_snapshot(w)
    L = listening(w.proc.pid)
    nrun, nreq = len(w.sh.runs), len(w.reqs)
    other = os.path.join(w.dir, "other.conf")
    for i in range(r.randrange(1, 5)):
        k = r.choice(["same", "other", "invalid", "missing", "detach", "many", "verbose"])
        args = ["-d"]
        conf = w.conf
        n = 1
        if k == "other":
            with open(other, "w") as fh:
                fh.write(conf_text([w.acct("delta")], {"https_listen": "none"}))
            conf = other
        elif k == "invalid":
            with open(other, "w") as fh:
                fh.write("nonsense")
            conf = other
        elif k == "missing":
            conf = "/nonexistent/x.conf"
        elif k == "detach":
            args = []
        elif k == "many":
            n = 6
        elif k == "verbose":
            args = ["-dvvvv"]
        # the running one may be too busy (or too swapped out) to answer just now
        busy = r.choice(["no", "no", "stopped", "client"])
        if busy == "stopped":
            os.kill(w.proc.pid, signal.SIGSTOP)
        elif busy == "client":
            cl = socket.socket(socket.AF_UNIX)
            cl.connect(sp)
            cl.sendall(b"sta")
        ps = [subprocess.Popen([w.built["bin"], "server", "-c", conf] + args, env=w.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w.dir) for _ in range(n)]
        outs = []
        for p in ps:
            try:
                outs.append((p, *p.communicate(timeout=15)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                outs.append((p, None, None))
        if busy == "stopped":
            os.kill(w.proc.pid, signal.SIGCONT)
        elif busy == "client":
            cl.close()
        for p, o, e in outs:
            if o is None:
                c.fail(["C27"], "a second server (%s) keeps running" % k)
            c.check(p.returncode == 1 and e.strip() and not o, ["C27", "C28"], "a second server (%s): exit code %s, %r %r" % (k, p.returncode, o, e))
            if k not in ("invalid", "missing"):
                c.check(b"already running" in e, ["C27"], "a second server (%s) says %r" % (k, e))
        w.settle()
        c.check(w.alive() and os.path.exists(sp) and os.stat(sp).st_ino == ino, ["C27"], "a second server (%s) disturbed the socket" % k)
        c.check(w.raw_sock(b"info:") == info and listening(w.proc.pid) == L and acct_snapshot(w) == snap and w.token("alpha") == tok, ["C27"], "a second server (%s) changed the running one" % k)
        c.check(w.raw_sock(b"showtoken:withurl beta") == b"pending:" + ub.encode(), ["C27"], "a second server (%s) cost a pending request" % k)
        c.check(len(w.sh.runs) == nrun and len(w.reqs) == nreq, ["C27"], "a second server (%s) caused commands or requests" % k)
        c.case(("second", k, busy))
    w.holding = False
    w.held("gamma")[0].release(w.grant(w.held("gamma")[0]))
    c.check(w.callback(ub, code="cb") == 200, ["C27", "C06"], "a URL from before is refused")
    w.settle()
    c.check(w.token("gamma") and w.token("beta"), ["C27", "C07"], "authorisations were lost to a second server")


@scenario(["C27", "C28", "C26"], racy=True, n=24, nt=800)
def starts_at_once(c):
    """Several servers and clients started at the same moment, with nothing there or after a crash: exactly one server remains, and it is the one that answers."""
    r = c.rng
    w = c.world(verbose=0, frozen=False, chaos=(r.choice([100, 400, 900]), r.choice([500, 5000, 30000])))
    w.write_conf([w.acct("a"), w.acct("b")], {})
    d = os.path.join(w.run_dir, "pizauth")
    sp = os.path.join(d, "pizauth.sock")
    rounds = 0
    ps = []
    try:
        for life in range(3):
            k = r.choice([2, 2, 3, 5])
            fresh = not os.path.exists(d)
            cl = []
            for i in range(k + r.randrange(4)):
                if i < k:
                    ps.append(subprocess.Popen([w.built["bin"], "server", "-d", "-c", w.conf], env=w.spawn_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w.dir))
                else:
                    cl.append(subprocess.Popen([w.built["bin"]] + r.choice([["status"], ["show", "-u", "a"], ["info"], ["dump"]]), env=dict(w.env, XDG_CONFIG_HOME=w.dir), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w.dir))
                if r.random() < .5:
                    time.sleep(r.random() * r.choice([.002, .01, .03]))
            for p in cl:
                o, e = p.communicate(timeout=20)
                c.check(p.returncode in (0, 1) and b"panicked" not in e and b"File exists" not in e, ["C28"], "a client while servers are starting: exit code %s, %r %r" % (p.returncode, o, e))
            end = time.monotonic() + 15
            while time.monotonic() < end and len([p for p in ps if p.poll() is None]) > 1:
                time.sleep(.01)
            time.sleep(.05)
            live = [p for p in ps if p.poll() is None]
            outs = [(p.returncode, p.communicate()) for p in ps if p.returncode is not None]
            c.check(len(live) == 1, ["C27"], "%d servers were started at once in %s directory: %d are running; the others said %s" % (k, "a new" if fresh else "an old", len(live), outs))
            for rc, (o, e) in outs:
                c.check(rc == 1 and not o and (b"already running" in e or b"Address already in use" in e), ["C27", "C28"], "one of %d servers started at once: exit code %s, %r %r" % (k, rc, o, e))
            c.check(os.stat(d).st_mode & 0o777 == 0o700, ["C26"], "runtime directory mode %o" % os.stat(d).st_mode)
            end = time.monotonic() + 15
            x = w.cli("status")
            while x.rc and time.monotonic() < end:
                time.sleep(.05)
                x = w.cli("status")
            c.check(x.rc == 0 and live[0].poll() is None, ["C27"], "the one server running out of %d started at once cannot be reached: %s" % (k, x))
            rounds += 1
            c.case(("at once", k, fresh, len(cl) > 0))
            if r.random() < .5:
                x = w.cli("shutdown")
                c.check(x.rc == 0, ["C27", "C28"], "shutdown: %s" % x)
                try:
                    live[0].wait(20)
                except subprocess.TimeoutExpired:
                    c.fail(["C27"], "another server than the one running was reached")
            else:
                live[0].send_signal(r.choice([signal.SIGKILL, signal.SIGTERM]))
                live[0].wait(20)
            ps = []
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.communicate()


@scenario(["C27"], racy=True, n=24, nt=1200)
def crash_restart(c):
    """Kill servers at random moments under load; the next one starts at once, with nothing."""
    r = c.rng
    w = c.world(verbose=0, frozen=False, chaos=r.choice([None, (150, 800)]))
    w.default_policy = lambda q: w.grant(q, r.choice([3600, 10**6]))
    A = [w.acct("a%d" % i) for i in range(3)]
    glob = {"auth_notify_cmd": '"AN run"', "token_event_cmd": '"TE run"'}
    w.write_conf(A, glob)
    sp = os.path.join(w.run_dir, "pizauth", "pizauth.sock")
    old_urls, old_tokens = [], set()
    dumps = []
    for life in range(5 if c.tier == "quick" else 12):
        early = r.random() < .3
        w.start(wait=False)
        if early:
            # at some moment of starting up
            time.sleep(r.random() * .03)
        else:
            w.wait_up()
            st = w.raw_sock(b"status:").decode()
            d = codec.decode(w.raw_sock(b"dump:"))
            c.check(all(v[1] is None for v in d.values()) and st == "ok:" + "\n".join("a%d: No access token" % i for i in range(3)), ["C27"], "a new server has tokens: %s %s" % (st, d))
            for u in old_urls[-3:]:
                q = dict(x.split("=", 1) for x in u.split("?", 1)[1].split("&"))
                b = w.http_raw(("GET /?state=%s&code=x HTTP/1.1\r\nHost: localhost:%d\r\n\r\n" % (q["state"], w.ports["http_port"])).encode())
                c.check(b"processing" not in b and b"fresh token" in b or not b.startswith(b"HTTP/1.1 200"), ["C27", "C06"], "a URL of an earlier server is accepted: %r %s" % (b, u))
            if dumps and r.random() < .5:
                x = w.cli("restore", input=dumps[-1])
                c.check(x.rc == 0, ["C27", "C17"], "restore after a crash: %s" % x)
            stop = threading.Event()

            def load(k):
                rr = random.Random(r.random())
                while not stop.is_set():
                    n = "a%d" % rr.randrange(3)
                    try:
                        o = rr.randrange(6)
                        if o < 3:
                            b = w.raw_sock(b"showtoken:withurl " + n.encode()).decode()
                            if b.startswith("pending:") and rr.random() < .7:
                                old_urls.append(b[8:])
                                w.callback(b[8:], code="k%d" % rr.randrange(10**9))
                        elif o == 3:
                            w.raw_sock(b"refresh:withurl " + n.encode())
                        elif o == 4:
                            w.raw_sock(b"revoke:" + n.encode())
                        else:
                            b = w.raw_sock(b"dump:")
                            if b:
                                dumps.append(b)
                    except (OSError, Violation):
                        time.sleep(.002)

            ts = [threading.Thread(target=load, args=(k,), daemon=True) for k in range(4)]
            for t in ts:
                t.start()
            time.sleep(r.choice([.005, .05, .2, .5]) * r.random())
        how = r.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGSEGV, "shutdown"])
        if how == "shutdown" and not early:
            w.killed = w.proc
            x = w.cli("shutdown")
            c.check(x.rc == 0, ["C28", "C27"], "shutdown: %s" % x)
            try:
                w.proc.wait(20)
            except subprocess.TimeoutExpired:
                c.fail(["C27", "C28"], "the server is still running 20 s after a shutdown")
            w.kill()
        else:
            w.killed = w.proc
            w.kill(signal.SIGKILL if how == "shutdown" else how)
        if not early:
            stop.set()
            for t in ts:
                t.join(40)
        c.case(("kill", str(how), early, os.path.exists(sp)))
    w.start()
    w.settle() if w.frozen else None
    st = w.raw_sock(b"status:")
    c.check(st == b"ok:" + "\n".join("a%d: No access token" % i for i in range(3)).encode(), ["C27"], "a new server has tokens: %s" % st)
    u = w.auth_url("a0")
    c.check(w.callback(u, code="final") == 200, ["C27"], "a restarted server refuses redirects")
    for _ in range(400):
        if w.token("a0"):
            break
        time.sleep(.02)
    else:
        raise Inconclusive("no token after restart")


# --------------------------------------------------------------------------- C30, listeners that cannot be had
@scenario(["C30", "C25", "C27"], n=20, nt=700)
def cannot_listen(c):
    """Listen addresses that are taken or impossible: refused with a message, nothing left behind."""
    r = c.rng
    w = c.world(verbose=0)
    a = w.acct("a", redirect_uri=None)
    for i in range(4):
        which = r.choice(["http_listen", "https_listen"])
        k = r.choice(["busy", "busy", "bad", "foreign", "privileged-host"])
        blk = None
        if k == "busy":
            addr = r.choice(["127.0.0.1", "127.3.2.%d" % r.randrange(1, 250)])
            blk = socket.socket()
            blk.bind((addr, 0))
            blk.listen(1)
            v = "%s:%d" % (addr, blk.getsockname()[1])
        elif k == "bad":
            v = r.choice(["nonsense", "127.0.0.1", "127.0.0.1:", "127.0.0.1:x", "127.0.0.1:99999", ":", "256.0.0.1:0", "[::1", "", " ", "127.0.0.1:-1", "http://127.0.0.1:0"])
        elif k == "foreign":
            v = r.choice(["192.0.2.7:0", "198.51.100.1:80", "[2001:db8::1]:0"])
        else:
            v = "no-such-host.invalid:0"
        glob = {which: cstr(v)}
        w.write_conf([a], glob)
        det = r.random() < .5
        sp = os.path.join(w.run_dir, "pizauth", "pizauth.sock")
        if det:
            rc, out = w.start_daemon(args=["-c", w.conf])
            c.check(w.proc is None, ["C30"], "%s = %r: a detached server stays behind" % (which, v))
        else:
            p = subprocess.Popen([w.built["bin"], "server", "-d", "-c", w.conf], env=w.spawn_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w.dir)
            try:
                out, _ = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                c.fail(["C30", "C25"], "%s = %r is not refused" % (which, v))
            rc, out = p.returncode, out.decode("utf8", "replace")
        c.check(rc not in (0, None) and rc > 0 and out.strip() and "panicked" not in out, ["C30", "C21"], "%s = %r (%s): exit code %s, output %r" % (which, v, "detaching" if det else "foreground", rc, out))
        x = w.cli("status")
        c.check(x.rc == 1, ["C30"], "%s = %r: status says %s" % (which, v, x))
        w.proc = None
        if blk:
            blk.close()
            # now it can be had
            w.fixed_ports = True
            w.start()
            c.check(w.info[which.split("_")[0] + "_port"] == v.split(":")[-1], ["C25"], "%s configured, %s reported" % (v, w.info))
            w.kill()
            w.proc = None
        c.case(("listen", k, det))


# --------------------------------------------------------------------------- C28
def usage_ok(c, x, args):
    c.check(x.rc == 1 and not x.out and x.err.startswith("Usage:"), ["C28"], "misuse %s: %s" % (args, x))


@scenario(["C28"], n=20, nt=600)
def no_server(c):
    """Every command when no server runs."""
    r = c.rng
    w = c.world(verbose=0)
    w.write_conf([w.acct("a")], {})
    st = r.choice(["nothing", "stale", "dir"])
    d = os.path.join(w.run_dir, "pizauth")
    if st == "stale":
        w.start()
        w.kill()
    elif st == "dir":
        os.mkdir(d)
    for cmd in [("show", "a"), ("show", "-u", "a"), ("show", "nobody"), ("refresh", "a"), ("refresh", "-u", "a"), ("revoke", "a"), ("reload",), ("dump",), ("status",), ("shutdown",), ("restore",), ("show", "-v", "a"), ("status", "-vv")]:
        x = w.cli(*cmd, input=b"x" * r.choice([0, 1, 100000]) if cmd[0] == "restore" else None)
        c.check(x.rc == 1 and not x.out and x.err.strip() and "panicked" not in x.err, ["C28"], "%s without a server (%s): %s" % (cmd, st, x))
        c.case(("noserver", cmd[0], st))
    x = w.cli("info")
    c.check(x.rc == 0 and not x.err, ["C28", "C25"], "info without a server: %s" % x)
    # no configuration file: info and server say so
    os.unlink(w.conf)
    for cmd in [("info",), ("info", "-j"), ("server",), ("server", "-d")]:
        x = w.cli(*cmd)
        c.check(x.rc == 1 and not x.out and "config" in x.err, ["C28"], "%s without a configuration: %s" % (cmd, x))
    e = dict(w.env)
    del e["HOME"]
    x = w.cli("info", env=e)
    c.check(x.rc == 1 and not x.out and "HOME" in x.err, ["C28"], "info without $HOME: %s" % x)
    # $XDG_CONFIG_HOME beats $HOME/.config; -c beats both
    xd = os.path.join(w.dir, "xdg")
    os.mkdir(xd)
    w.write_conf([w.acct("a")], {})
    shutil.copy(w.conf, os.path.join(xd, "pizauth.conf"))
    e = dict(w.env, XDG_CONFIG_HOME=xd)
    c.check(json.loads(w.cli("info", "-j", env=e).out)["config_file"] == os.path.join(xd, "pizauth.conf"), ["C25"], "config_file with XDG_CONFIG_HOME")
    c.check(json.loads(w.cli("info", "-j", "-c", "/x/y", env=e).out)["config_file"] == "/x/y", ["C25"], "config_file with -c")


@scenario(["C28"], n=16, nt=500)
def misuse(c):
    """Wrong command lines: usage, exit code 1, no effect."""
    r = c.rng
    w = c.world(verbose=0)
    w.default_policy = lambda q: w.grant(q, 10**6)
    A = [w.acct("alpha"), w.acct("beta")]
    w.start(A, {"auth_notify_cmd": '"AN run"', "token_event_cmd": '"TE run"'})
    w.authorise("alpha")
    w.auth_url("beta")
    w.settle()
    snap = acct_snapshot(w)
    nrun, nreq = len(w.sh.runs), len(w.reqs)
    cmds = ["dump", "info", "refresh", "restore", "reload", "revoke", "show", "shutdown", "status", "server"]
    bad = [(), ("",), ("frobnicate",), ("SHOW", "alpha"), ("-h",), ("--help",), ("help",), ("-v",), ("-u", "show", "alpha"), ("alpha",), ("show",), ("refresh",), ("revoke",), ("show", "alpha", "beta"), ("refresh", "alpha", "beta"),
           ("revoke", "alpha", "beta"), ("show", "-u"), ("revoke", "-u", "alpha"), ("dump", "x"), ("restore", "x"), ("reload", "x"), ("shutdown", "x"), ("shutdown", "alpha"), ("status", "x"), ("status", "alpha"), ("info", "x"), ("info", "-x"),
           ("server", "x"), ("server", "-z"), ("server", "-d", "x"), ("server", "-u"), ("show", "-x", "alpha"), ("dump", "-j"), ("status", "-j"), ("refresh", "--url", "alpha"), ("reload", "-c", "x"), ("revoke", "-h", "alpha"), ("shutdown", "-f")]
    bad += [(k, "-h") for k in cmds] + [(k, "--help") for k in cmds] + [(k, "-Q") for k in cmds] + [("shutdown", "--", "x"), ("revoke", "alpha", "-u")]
    bad += [(k, "alpha", "-h") for k in ("show", "refresh", "revoke")] + [("xdump",), ("dumpx",), ("statu",), ("show alpha",), ("rev", "alpha")]
    r.shuffle(bad)
    for b in bad:
        x = w.cli(*b, input=b"" if b[:1] == ("restore",) else None)
        usage_ok(c, x, b)
        c.case(("misuse", b))
    w.settle()
    c.check(w.alive() and acct_snapshot(w) == snap and len(w.sh.runs) == nrun and len(w.reqs) == nreq, ["C28"], "a wrong command line had an effect: %s -> %s" % (snap, acct_snapshot(w) if w.alive() else "server gone"))


@scenario(["C28", "C01"], n=24, nt=800)
def contract(c):
    """Right command lines, in every state an account can be in."""
    r = c.rng
    w = c.world(verbose=0)
    hold = set()
    w.default_policy = lambda q: HOLD if q.act in hold else w.grant(q, 1000)
    names = [rtext(r).lstrip("-") + "%d" % i if r.random() < .5 else "acct%d" % i for i in range(4)]
    if r.random() < .3:
        names = r.sample(["acct", "Acct", "ACCT", "acct ", "acct.", "acc", "ａｃｃｔ"], 4)
    A = [w.acct(n) for n in names]
    w.start(A, {"auth_notify_cmd": '"AN run"', "error_notify_cmd": '"EN run"', "refresh_at_least": "80d"})
    N, P, T, X = names   # nothing, pending, token, expired
    fl = r.choice([[], ["-v"], ["-vv"], ["-vvvv"], ["-v", "-v"]])

    def unavailable(x, url, cmd):
        c.check(x.rc == 1 and x.out == "" and "unavailable" in x.err and len(x.err.strip().splitlines()) == 1, ["C28"], "%s without a token: %s" % (cmd, x))
        got = w.url_of(x)
        c.check((got is not None) == url and ("https://" in x.err) == url, ["C28"], "%s without a token: URL %s wanted, got %s" % (cmd, "" if url else "not", x))
        return got

    for rep in range(2):
        unavailable(w.cli("show", *fl, "-u", P), False, "show -u")
        u1 = unavailable(w.cli("show", *fl, P), True, "show")
        u2 = unavailable(w.cli("show", P, *fl), True, "show")
        c.check(u1 == u2, ["C28", "C05"], "show changed the pending URL")
        c.check(w.url_of(w.cli("refresh", *fl, P)) != u1, ["C28", "C05"], "refresh of a pending account gives the old URL")
        unavailable(w.cli("refresh", *fl, "-u", P), False, "refresh -u")
    w.authorise(T)
    w.authorise(X)
    w.settle()
    nreq = len(w.reqs)
    for u in ([], ["-u"]):
        x = w.cli("show", *u, *fl, T)
        c.check(x.rc == 0 and x.err == "" and x.out == w.reqs[[q.act for q in w.reqs].index(T)].issued["access"] + "\n", ["C28", "C01"], "show: %s" % x)
        x = w.cli("refresh", *u, *fl, X)
        c.check(x.rc == 0 and x.out == "" and x.err == "", ["C28"], "refresh: %s" % x)
        w.settle()
    x = w.cli("status", *fl)
    c.check(x.rc == 0 and x.err == "" and len(x.out.splitlines()) >= 4, ["C28", "C29"], "status: %s" % x)
    x = w.cli("reload", *fl)
    c.check(x.rc == 0 and x.out == "" and x.err == "", ["C28"], "reload: %s" % x)
    x = w.cli("dump", *fl, text=False)
    c.check(x.rc == 0 and x.err == "" and x.out and codec.decode(x.out), ["C28", "C19"], "dump: %s" % x)
    d = x.out
    x = w.cli("restore", *fl, input=d)
    c.check(x.rc == 0 and x.out == "" and x.err == "", ["C28"], "restore: %s" % x)
    x = w.cli("restore", *fl, input=d[:-1])
    c.check(x.rc == 1 and x.out == "" and x.err.strip(), ["C28", "C19"], "restore of a truncated dump: %s" % x)
    # a dump that cannot be written is no success
    for f in ("/dev/full", "closed pipe"):
        if f == "/dev/full":
            o = open(f, "wb")
        else:
            a, b = os.pipe()
            os.close(a)
            o = os.fdopen(b, "wb", buffering=0)
        p = subprocess.run([w.built["bin"], "dump"], env=w.env, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.PIPE, timeout=20)
        try:
            o.close()
        except OSError:
            pass
        c.check(p.returncode == 1 and p.stderr.strip() and b"panicked" not in p.stderr, ["C28", "C17"], "a dump to %s: exit code %s, %r" % (f, p.returncode, p.stderr))
        p = subprocess.run([w.built["bin"], "show", T], env=w.env, stdin=subprocess.DEVNULL, stdout=open("/dev/full", "wb"), stderr=subprocess.PIPE, timeout=20)
        c.check(p.returncode != 0, ["C28"], "a token that can't be printed: exit code %s" % p.returncode)
    # expired
    hold.add(X)
    w.advance(1200)
    x = w.cli("show", *fl, X)
    c.check(x.rc == 1 and x.out == "" and "expired" in x.err, ["C28"], "show of an expired token: %s" % x)
    x = w.cli("show", "-u", *fl, X)
    c.check(x.rc == 1 and x.out == "" and "expired" in x.err, ["C28"], "show of an expired token: %s" % x)
    # unknown accounts
    for n in (r.choice(["nobody", "", " ", names[0] + "x", names[0][:-1], "a b", "é", T + "\n", " " + T, T + " ", T.swapcase(), T.upper(), P.swapcase(), X.title(), "withurl " + T, "%s", "x" * 5000, T + ":", ":"]) for _ in range(5)):
        if n in names or n.startswith("-"):
            continue
        for k in ("show", "refresh", "revoke"):
            x = w.cli(k, *fl, n)
            c.check(x.rc == 1 and x.out == "" and x.err.strip() and "panicked" not in x.err, ["C28"], "%s of an unknown account %r: %s" % (k, n, x))
    c.check(w.token(T) is None or True, [], "")
    for n in names:
        x = w.cli("revoke", *fl, n)
        c.check(x.rc == 0 and x.out == "" and x.err == "", ["C28", "C02"], "revoke: %s" % x)
    x = w.cli("status")
    c.check(x.out.count("No access token") == 4, ["C28", "C02"], "status after revoking everything: %s" % x)
    for u in ([], ["-u"]):
        unavailable(w.cli("show", *u, N), not u, "show %s" % u)
        c.check(w.cli("revoke", N).rc == 0, ["C28"], "revoke of a pending account")
        unavailable(w.cli("refresh", *u, N), not u, "refresh %s" % u)
        c.check(w.cli("revoke", N).rc == 0, ["C28"], "revoke of a pending account")
    c.case(("contract", tuple(fl), any(not n.isascii() for n in names), any(" " in n for n in names)))
    # reload without a configuration file
    os.unlink(w.conf)
    x = w.cli("reload", *fl)
    c.check(x.rc == 1 and x.out == "" and x.err.strip(), ["C28", "C21"], "reload without a file: %s" % x)
    w.expect_exit = True
    x = w.cli("shutdown", *fl)
    c.check(x.rc == 0 and x.out == "" and x.err == "", ["C28"], "shutdown: %s" % x)
    try:
        w.proc.wait(20)
    except subprocess.TimeoutExpired:
        c.fail(["C28", "C27"], "shutdown does not end the server")
    x = w.cli("status")
    c.check(x.rc == 1 and x.err.strip(), ["C28"], "status after a shutdown: %s" % x)


@scenario(["C28"], n=12, nt=300)
def odd_servers(c):
    """Clients against something that is not (or no longer) a sane server: never a false success."""
    r = c.rng
    w = c.world(verbose=0)
    w.write_conf([w.acct("a")], {})
    d = os.path.join(w.run_dir, "pizauth")
    os.mkdir(d)
    ans = [b""]
    s = socket.socket(socket.AF_UNIX)
    s.bind(os.path.join(d, "pizauth.sock"))
    s.listen(8)
    s.settimeout(.2)

    def serve():
        while not w.closed:
            try:
                q, _ = s.accept()
            except TimeoutError:
                continue
            except OSError:
                return
            try:
                q.settimeout(5)
                while q.recv(65536):
                    pass
                q.sendall(ans[0])
            except OSError:
                pass
            q.close()
        s.close()

    threading.Thread(target=serve, daemon=True).start()
    for a in [b"", b"\xff\xfe", b"garbage", b"error:", b"error:some reason", b"ok", b"access_token", b":", b"pending", b"\0" * 10, b"scheduled", b"scheduled:junk", b"scheduled:error:x", b"ok:junk", b"ok:error:x", b"okay:", b" ok:", b"error", b"errors:x", b"Error:x", b"access_token=x", b"pending", b"token:x"]:
        ans[0] = a
        for cmd in [("show", "a"), ("refresh", "a"), ("revoke", "a"), ("reload",), ("status",), ("restore",), ("dump",)]:
            if cmd[0] == "dump" and a or cmd[0] == "status" and a.startswith(b"ok:"):
                continue
            x = w.cli(*cmd, input=b"x" if cmd[0] == "restore" else None)
            c.check(x.rc == 1 and not x.out and "panicked" not in x.err, ["C28"], "%s answered %r by the server: %s" % (cmd, a, x))
            if a != b"error:":
                c.check(x.err.strip() != "", ["C28"], "%s answered %r by the server: no message" % (cmd, a))
            if a == b"error:some reason" and cmd[0] != "dump":
                c.check("some reason" in x.err, ["C28"], "%s: the reason is lost: %s" % (cmd, x))
        x = w.cli("info", "-j")
        c.check(x.rc == 0 and json.loads(x.out)["server_running"] is False, ["C28", "C25"], "info answered %r: %s" % (a, x))
        c.case(("odd", a))
    ans[0] = b"access_token:a:b:c"
    c.check(w.cli("show", "a").out == "a:b:c\n", ["C28", "C01"], "a token with colons")
    for t in (" lead", "trail ", "\ttabs\t", "é😀", "a b", "x" * 70000, "%s%n", "\\", "a\x1bb", " ", "pending:x", "error:x", "0"):
        ans[0] = b"access_token:" + t.encode()
        for u in ([], ["-u"]):
            x = w.cli("show", *u, "a")
            c.check(x.rc == 0 and x.out == t + "\n" and not x.err, ["C28", "C01"], "token %r: %s" % (t[:100], x))

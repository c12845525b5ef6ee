"""Scarcity and crowds: no file descriptors left, many accounts at once, nobody reading the log."""
import resource, socket, time
from urllib.parse import parse_qsl, unquote, urlsplit
from . import codec
from .core import scenario
from .world import *

GLOB = {"token_event_cmd": '"TE run"', "error_notify_cmd": '"EN run"', "auth_notify_cmd": '"AN run"', "auth_notify_interval": "300d", "transient_error_if_cmd": '"TR run"'}


def nfds(pid):
    try:
        return len([x for x in os.listdir("/proc/%d/fd" % pid) if int(x) < 800])  # (the shim's own are above)
    except OSError:
        return 0


def wait_for(f, secs):
    t0 = time.monotonic()
    while time.monotonic() - t0 < secs:
        if f():
            return True
        time.sleep(.02)
    return bool(f())


@scenario(["C22", "C23", "C12"], racy=True, n=8, nt=400, limit=240)
def no_descriptors(c):
    """The server runs out of file descriptors in the middle of whatever it does. When there are some again it must be as before."""
    r = c.rng
    w = c.world(verbose=r.choice([0, 0, 2]), frozen=False)
    A = [w.acct(n) for n in ("keep", "life", "ask", "exch")]
    life = {"keep": 10**7, "life": 6, "ask": 10**7, "exch": 10**7}
    w.default_policy = lambda q: w.grant(q, life[q.act])
    w.sh.policy = lambda run: 0
    w.start(A, dict(GLOB, refresh_before_expiry="2s", refresh_at_least="100d", refresh_retry="1s"))
    if r.random() < .5:
        w.authorise("ask", settle=False)
        w.cli("revoke", "ask")
    for n in ("keep", "life"):
        w.authorise(n, settle=False)
        if not wait_for(lambda: w.token(n) is not None, 10):
            raise Inconclusive("no token for %s" % n)
    url = w.auth_url("exch")
    keep, held = w.token("keep"), []
    pid = w.proc.pid
    lim = nfds(pid) + r.choice([0, 1, 2, 3, 5, 8, 20])
    resource.prlimit(pid, resource.RLIMIT_NOFILE, (lim, lim + 500))
    what = r.choice(["http", "https", "both", "silent"])
    hold = None
    if what == "silent":
        life["keep"] = 10**7
    try:
        for i in range(lim + 8):
            s = socket.socket()
            s.settimeout(2)
            k = "http_port" if what in ("http", "silent") or what == "both" and i % 2 else "https_port"
            try:
                s.connect(("127.0.0.1", w.ports[k]))
                if what != "silent":
                    s.sendall(b"GET /?state=" if k == "http_port" else b"\x16\x03\x01")
            except OSError:
                s.close()
                break
            held.append(s)
        full = wait_for(lambda: nfds(pid) >= lim - 4, 3)
        # redirects, refreshes and commands that arrive now must wait or fail, but do no harm
        extra = []
        for i in range(3):
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(.3)
            try:
                s.connect(os.path.join(w.run_dir, "pizauth", "pizauth.sock"))
                s.sendall(r.choice([b"showtoken:withurl ask", b"status:", b"refresh:withurl keep", b"dump:", b"reload:"]))
                s.shutdown(socket.SHUT_WR)
                extra.append(s)
            except OSError:
                s.close()
        cb = r.random() < .7
        if cb:
            st = dict(parse_qsl(urlsplit(url).query))["state"]
            s = socket.socket()
            s.settimeout(.3)
            try:
                s.connect(("127.0.0.1", w.ports["http_port"]))
                s.sendall(("GET /?state=%s&code=abc HTTP/1.1\r\nHost: localhost:%d\r\n\r\n" % (st, w.ports["http_port"])).encode())
                extra.append(s)
            except OSError:
                s.close()
        if r.random() < .5 and held:
            # something is let in, so that it gets to where it needs descriptors of its own
            for s in held[:r.choice([1, 2, 3])]:
                s.close()
        time.sleep(r.choice([1.5, 3, 5]))
        if w.proc.poll() is not None:
            c.fail(["C22"], "out of descriptors (%d), the server exited with %s: %s" % (lim, w.proc.returncode, w.err_text()[-600:]))
    finally:
        for s in held:
            s.close()
    resource.prlimit(pid, resource.RLIMIT_NOFILE, (lim + 500, lim + 500))
    if w.panics():
        c.fail(["C22"], "out of descriptors (%d): %s" % (lim, w.panics()[:3]))
    if not wait_for(lambda: nfds(pid) < lim + 12, 15):
        raise Inconclusive("still %d descriptors in use" % nfds(pid))
    for s in extra:
        s.close()
    if not wait_for(lambda: w.proc.poll() is None and w.raw_sock(b"info:", timeout=20), 25):
        c.fail(["C22", "C23"], "the server does not answer although there are descriptors again: exit code %s, %s" % (w.proc.poll(), w.err_text()[-600:]))
    c.check(wait_for(lambda: w.token("keep") is not None, 3), ["C22", "C12"], "keep lost its token: status %s, refreshes %s, %s" % (w.cli("status"), w.reqs, w.runs("TE")))
    # `life` is refreshed every 4 s: it must be so again (failures for want of descriptors are transient)
    n0 = len([q for q in w.reqs if q.act == "life"])
    if not wait_for(lambda: len([q for q in w.reqs if q.act == "life"]) > n0 + 1, 30):
        c.fail(["C12", "C22"], "life is not refreshed any more: status %s, events %s, %s" % (w.cli("status"), w.runs("TE", "life"), w.err_text()[-600:]))
    # listeners and commands run as before
    for sec in (False, True):
        x = w.http_raw(b"GET /favicon.ico HTTP/1.1\r\nHost: localhost\r\n\r\n", https=sec, timeout=20)
        c.check(x is not None and b"404" in x, ["C22", "C23"], "the %s listener answers %r" % ("HTTPS" if sec else "HTTP", x))
    n0 = len(w.runs("TE", "ask"))
    w.authorise("ask", settle=False)
    c.check(wait_for(lambda: w.token("ask") is not None, 10), ["C22", "C23"], "ask can't be authorised any more: %s" % w.err_text()[-600:])
    if not wait_for(lambda: len(w.runs("TE", "ask")) > n0, 60):
        c.fail(["C22", "C15"], "no event for ask's new token any more: %s %s" % (w.runs("TE"), w.err_text()[-600:]))
    c.case((what, full, cb, lim - 0 > 30))


@scenario(["C10", "C11", "C29", "C17", "C31", "C09"], n=6, nt=120, limit=300)
def crowd(c):
    """Hundreds of accounts, all due at the same moment."""
    r = c.rng
    w = c.world(verbose=0)
    n = r.choice([40, 90, 150])
    ts = [w.server_for("ts%d" % i) for i in range(4)]
    names = ["%s%d" % (r.choice(["a", "B", "c c", "é", "_"]), i) for i in range(n)]
    r.shuffle(names)
    A = [w.acct(nm, ts=ts[i % 4], refresh_at_least="%dm" % r.choice([10, 10, 10, 11, 20])) for i, nm in enumerate(names)]
    by = {a.name: a for a in A}

    def pol(q):
        q.act = unquote(q.path.split("/")[1])
        return w.grant(q, 10**6)

    w.default_policy = pol
    w.start(A, dict(GLOB))
    for nm in names:
        w.raw_sock(("showtoken:withurl " + nm).encode())
    w.settle(timeout=60)
    an = [x.act for x in w.runs("AN")]
    c.check(sorted(an) == sorted(names), ["C09"], "%d accounts, announced were %s" % (n, an))
    urls = {}
    for x in w.runs("AN"):
        c.check(x.url and x.url == w.raw_sock(("showtoken:withurl " + x.act).encode()).decode()[8:], ["C09"], "%s was announced with %s" % (x.act, x.url))
        urls[x.act] = x.url
    some = set(r.sample(names, n - r.choice([1, 5])))
    for nm in names:
        if nm in some:
            w.callback(urls[nm], code="c")
    w.settle(timeout=60)
    te = [x.act for x in w.runs("TE")]
    c.check(sorted(te) == sorted(some), ["C31", "C15"], "of %d accounts, token_new was raised for %s" % (len(some), te))
    t0 = w.now()
    w.write_conf(A, dict(GLOB))
    before = {q.act for q in w.reqs}
    c.check(before == some, ["C31", "C07"], "exchanges for %s" % (before ^ some))
    st = w.cli("status").out.splitlines()
    c.check([l.split(": ", 1)[0] for l in st] == [l.split(": ", 1)[0] for l in sorted(st, key=lambda l: l.encode())], ["C29"], "status is in the order %s" % st)
    c.check(sorted(l.split(": ", 1)[0] for l in st) == sorted(names), ["C29"], "status lists %s" % st)
    for l in st:
        nm, s = l.split(": ", 1)
        c.check(s.startswith("Active access token" if nm in some else "Access token pending"), ["C29"], l)
    d = codec.decode(w.raw_sock(b"dump:"))
    shown = {nm: w.raw_sock(("showtoken:withurl " + nm).encode()).decode() for nm in some}
    for nm in names:
        c.check((d[nm][1] is not None) == (nm in some), ["C17"], "dump of %s: %s" % (nm, d[nm]))
    at = {}
    for nm in some:
        at.setdefault(by[nm].kw["refresh_at_least"] if hasattr(by[nm], "kw") else by[nm].refresh_at_least, []).append(nm)
    last = t0
    for k in sorted(at, key=lambda x: int(x[:-1])):
        due = int(k[:-1]) * 60
        w.advance(t0 + due - 2 - w.now())
        w.settle(timeout=60)
        n0 = {}
        for q in w.reqs:
            if q.grant == "refresh_token":
                n0[q.act] = n0.get(q.act, 0) + 1
        for nm in at[k]:
            c.check(nm not in n0, ["C10"], "%s, due at %d s, was refreshed before %.0f s" % (nm, due, w.now() - t0))
        w.advance(4)
        w.settle(timeout=60)
        n1 = {}
        for q in w.reqs:
            if q.grant == "refresh_token":
                n1[q.act] = n1.get(q.act, 0) + 1
        for nm in at[k]:
            c.check(n1.get(nm, 0) == 1, ["C10", "C11"], "%s, due at %d s with %d others, was refreshed %d times by %.0f s" % (nm, due, len(at[k]) - 1, n1.get(nm, 0), w.now() - t0))
        c.case((n, k, len(at[k]) > 20))
        if due > 10 * 60 + 1:
            break
        if k == "10m" and "20m" in at and "11m" not in at:
            break
    c.check(len(w.runs("TE")) == len(some) + sum(1 for q in w.reqs if q.grant == "refresh_token"), ["C15", "C31"], "events: %d for %d authorisations and %d refreshes" % (len(w.runs("TE")), len(some), sum(1 for q in w.reqs if q.grant == "refresh_token")))
    # everything fits into a dump and back
    d1 = w.raw_sock(b"dump:")
    now = {nm: w.raw_sock(("showtoken:withurl " + nm).encode()) for nm in some}
    w.kill()
    w.start()
    c.check(w.raw_sock(b"restore:" + d1) == b"ok:", ["C17"], "restore of %d accounts" % n)
    for nm in some:
        c.check(w.raw_sock(("showtoken:withurl " + nm).encode()) == now[nm], ["C17"], "%s after the restore" % nm)


@scenario(["C22", "C23", "C07"], n=12, nt=300)
def deaf_log(c):
    """Nobody listens to what a foreground server logs (its stderr's reader has gone): it must carry on all the same."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct(n) for n in "abc"]
    w.write_conf(A, {"token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"', "auth_notify_interval": "1m"})
    rd, wr = os.pipe()
    how = r.choice(["gone", "gone", "full-disk"])
    if how == "full-disk":
        os.close(wr)
        wr = os.open("/dev/full", os.O_WRONLY)
    a = [w.built["bin"], "server", "-d"] + r.choice([[], ["-v"], ["-vvvv"]])
    w.sh.policy = lambda run: r.choice([0, 1, 7])
    w.proc = subprocess.Popen(a, env=w.spawn_env(), stdin=subprocess.DEVNULL, stdout=wr, stderr=wr, cwd=w.dir)
    os.close(rd)
    os.close(wr)
    w.ports = {}
    w.wait_up()
    for i in range(8):
        x = r.choice("abc")
        o = r.choice(["fail", "ok", "bad", "reload", "refresh", "http"])
        if o == "fail" and w.token(x) is None:
            w.callback(w.auth_url(x), error="denied")
        elif o == "ok" and w.token(x) is None:
            w.authorise(x)
        elif o == "bad":
            w.raw_sock(r.choice([b"nonsense", b"nonsense:", b"showtoken:\xff", b""]))
        elif o == "reload":
            w.write_conf(text=r.choice(["", "junk", 'account "a" {']))
            c.check(w.cli("reload").rc == 1, ["C21"], "reload of a broken configuration")
            w.write_conf()
        elif o == "refresh":
            if w.token(x):
                t = w.ts = w.server_for(x)
                w.down(t)
                w.cli("refresh", x)
                w.settle()
                w.up(t)
        elif o == "http":
            w.http_raw(b"GET / HTTP/1.1\r\n\r\n")
        w.settle()
        w.advance(r.choice([1, 61]))
        c.check(w.proc.poll() is None, ["C22"], "without a log (%s), the server exited with %s after %s" % (how, w.proc.poll(), o))
        c.check(w.cli("status").rc == 0, ["C22", "C23"], "without a log (%s), status fails after %s" % (how, o))
        c.case((how, o))
    for x in "abc":
        if w.token(x) is None:
            w.authorise(x)
        c.check(w.token(x) is not None, ["C22", "C07"], "without a log (%s), %s can't be authorised" % (how, x))
    if w.confirm(lambda: not w.runs("TE")):
        c.fail(["C22", "C15"], "without a log, no event command runs: %s" % w.sh.runs)

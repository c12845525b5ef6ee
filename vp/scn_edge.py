"""Edges: every HTTP status, unusual tokens and codes, times in all units, what status says of pending accounts."""
import random
from email.utils import parsedate_to_datetime
from urllib.parse import quote
from . import codec
from .core import scenario
from .world import *

STATUS = [400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 411, 412, 413, 415, 418, 421, 422, 425, 426, 428, 429, 429, 431, 451, 499,
          500, 500, 501, 502, 502, 503, 503, 503, 504, 504, 505, 507, 508, 511, 520, 521, 522, 524, 529, 530, 599]
GLOB = {"token_event_cmd": '"TE run"', "error_notify_cmd": '"EN run"', "auth_notify_cmd": '"AN run"', "auth_notify_interval": "300d", "transient_error_if_cmd": '"TR run"'}


def foreign(r):
    """Text no byte offset of which can be relied on to be a character's first."""
    return "x" * r.randrange(4) + r.choice(["é", "日", "😀", "日", "😀é", "e\u0301日"]) * r.choice([20, 45, 60, 90, 130, 180, 260, 500, 900, 1400, 6000])


def rejection(w, q, r):
    """-> (status, reply)"""
    st = r.choice(STATUS)
    good = w.grant(q, 10**7)  # never to be accepted
    body = r.choice([b"", b"<html>busy</html>", b"{}", b'{"error":"temporarily_unavailable"}', b'{"error":"slow_down","error_description":"wait"}', b'{"error":"server_error"}', good[4],
                     foreign(r).encode(), foreign(r).encode(), b"x" * r.choice([70000, 131000, 140000, 3 * 10**6, 11 * 10**6]), b"\xff\xfe\x00", b"\x00", b"a\x00b", b'{"error":42}', b'{"error": "invalid_grant"}'])
    hd = r.sample([("Retry-After", "1"), ("Retry-After", "Fri, 31 Dec 1999 23:59:59 GMT"), ("WWW-Authenticate", 'Bearer error="invalid_token"'), ("X-RateLimit-Remaining", "0"),
                   ("Content-Type", "text/html"), ("Cache-Control", "no-store")], r.choice([0, 0, 1, 2]))
    return st, ("reply", st, r.choice(["Error", "", "Service Unavailable", "OK"]), hd, body)


PIECES = ["\n", "\r\n", "\t", " ", "  ", ":", "::", "ok:", "error:", "access_token:", '"', "'", "\\", "\\n", "+", "&", "=", "%", "%20", "%0A", "#", "?", "/", ";", ",", "<", ">", "|", "`", "$HOME", "$(x)", "\x7f", "\x01",
          "\u00a0", "\u2028", "é", "e\u0301", "日本", "😀", "\ufeff", "~", "^", "{}", "[", "\x1b[31m", "-u", "--", "pending:", "\0"]


def odd(r, core):
    """core with unusual text before, in or after it."""
    s = core
    for _ in range(r.choice([1, 1, 2, 4, 9])):
        i = r.choice([0, len(s), r.randrange(len(s) + 1)])
        s = s[:i] + r.choice(PIECES) + s[i:]
    if r.random() < .08:
        s = s * r.choice([50, 400, 3000])
    elif r.random() < .1:
        s = foreign(r) + s + foreign(r)
    return s


@scenario(["C07", "C13", "C22"], n=48, nt=1600)
def statuses(c):
    """Every HTTP error status, with every kind of body, as the answer to an exchange or a refresh."""
    r = c.rng
    w = c.world(verbose=0)
    n = 8
    A = [w.acct("s%d" % i, refresh_retry=r.choice([None, "5s"])) for i in range(n)]
    phase = {a.name: r.choice(["exchange", "exchange", "oauth", "denied", "refresh", "refresh", "due"]) for a in A}
    said = {}
    rs = {a.name: random.Random(r.random()) for a in A}   # (they come in any order)

    def pol(q):
        r = rs[q.act]
        if phase[q.act] in ("exchange", "oauth") or q.grant == "refresh_token":
            if q.act not in said:
                if phase[q.act] == "oauth" or r.random() < .1:
                    said[q.act] = odd(r, "oauth-error") + r.choice(["", "", foreign(r), "y" * r.choice([5000, 131000, 140000, 10**6])])
                    b = {"error": said[q.act], "access_token": "no", "token_type": "Bearer", "expires_in": 5}
                    return ("reply", 200, "OK", [], json.dumps(b, ensure_ascii=r.random() < .5).encode())
                said[q.act], rep = rejection(w, q, r)
                return rep
            # it asks again: the answer would be welcome
            return w.grant(q, 10**7)
        return w.grant(q, 600 if phase[q.act] == "due" else 10**7)

    w.default_policy = pol
    w.start(A, dict(GLOB, refresh_at_least="100d"))
    for a in A:
        if phase[a.name] == "denied":
            said[a.name] = odd(r, "access_denied")
            if len(quote(said[a.name], safe="")) > 11000:
                said[a.name] = said[a.name][:900]
            w.callback(w.auth_url(a.name), error=said[a.name])
        else:
            w.authorise(a.name, settle=False)
    w.settle()
    for a in A:
        if phase[a.name] == "refresh":
            x = w.cli("refresh", a.name)
            c.check(x.rc == 0, ["C11"], "refresh: %s" % x)
    w.settle()
    w.advance(520)
    for dt in (1, 7, 60, 400):
        for a in A:
            nm, ph = a.name, phase[a.name]
            if nm not in said:
                raise Inconclusive("%s %s was never answered with an error" % (ph, nm))
            qs = [q for q in w.reqs if q.act == nm]
            what = "%s (%s answered with %s)" % (nm, ph, repr(said[nm])[:200])
            first = ph in ("exchange", "oauth", "denied")
            ps = ["C07"] if first else ["C13"]
            if w.confirm(lambda: len([q for q in w.reqs if q.act == nm]) != (0 if ph == "denied" else 1 if first else 2)):
                c.fail(ps, "%s: %d requests, %s" % (what, len(qs), qs))
            en, te = w.runs("EN", nm), [x.event for x in w.runs("TE", nm)]
            if first:
                if w.confirm(lambda: len(w.runs("EN", nm)) != 1):
                    c.fail(ps, "%s: %d error reports: %s" % (what, len(en), en))
                m = w.runs("EN", nm)[0].msg or ""
                k = str(said[nm]).replace("\0", "")
                c.check(nm in m and (k in m or k[:50] in m and len(k) > 1000), ps, "%s was reported as %r" % (what, m[:1000]))
                c.check(te == [], ["C15", "C07"], "%s: events %s" % (what, te))
            else:
                if w.confirm(lambda: [x.event for x in w.runs("TE", nm)] != ["token_new", "token_invalidated"]):
                    c.fail(ps, "%s: events %s" % (what, te))
            c.case((ph, said[nm] if isinstance(said[nm], int) else "", dt))
        st = w.cli("status").out.splitlines()
        c.check(st == ["%s: No access token" % a.name for a in A], ["C07", "C13"], "after errors %s (%s) status is %s" % (said, phase, st))
        d = codec.decode(w.raw_sock(b"dump:"))
        c.check(all(d[a.name][1] is None for a in A), ["C07", "C13"], "after errors %s the dump has %s" % (said, d))
        c.check(not w.runs("TR"), ["C12", "C13"], "transient_error_if_cmd ran though the server answered: %s" % w.runs("TR"))
        w.advance(dt)
    # and each can be authorised anew
    a = r.choice(A).name
    phase[a] = ""
    w.authorise(a)
    c.check(w.token(a) is not None, ["C07"], "%s can't be authorised after %r" % (a, said[a]))


@scenario(["C01", "C08", "C28", "C17"], n=48, nt=1600)
def odd_tokens(c):
    """Access tokens, refresh tokens and codes made of anything: shown, sent, dumped and restored to the byte."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("o%d" % i) for i in range(4)]
    cur = {}

    def pol(q):
        at, rt = odd(r, w.mint(q.act)), odd(r, w.mint(q.act, "RT"))
        d = {"access_token": at, "token_type": "Bearer", "expires_in": 10**6}
        if q.grant == "refresh_token" and r.random() < .4:
            rt = cur[q.act][1]
            if r.random() < .5:
                d["refresh_token"] = rt
        else:
            d["refresh_token"] = rt
        cur[q.act] = (at, rt)
        b = json.dumps(d, ensure_ascii=r.random() < .5, indent=r.choice([None, 2])).encode()
        return ("reply", 200, "OK", [], b)

    w.default_policy = pol
    w.start(A, {"refresh_at_least": "100d", "token_event_cmd": '"TE run"'})

    def look(why):
        for a in A:
            n = a.name
            at, rt = cur[n]
            x = w.cli("show", *r.choice([(n,), ("-u", n)]), text=False)
            c.check(x.rc == 0 and x.out == at.encode() + b"\n", ["C01", "C28"] + (["C17"] if why == "restored" else []), "%s: %s's token is %r, show printed %r (exit code %d)" % (why, n, at[:300], x.out[:300], x.rc))
            c.check(not x.err.strip(), ["C28"], "show printed %r" % x.err)
            c.case((why, "show", "\n" in at, at.strip() != at, at.isascii(), ":" in at, len(at) > 1000))
        b = w.cli("dump", text=False)
        d = codec.decode(b.out)
        for a in A:
            e = d[a.name][1]
            c.check(e and (e["access"], e["refresh"]) == cur[a.name], ["C17", "C01"], "%s: dump holds %s, token server issued %s" % (why, e, cur[a.name]))
        return b.out

    for a in A:
        code = odd(r, "code-%s" % a.name) if r.random() < .8 else "plain"
        if len(quote(code, safe="")) > 11000:
            code = code[:900]
        u = w.auth_url(a.name)
        st = w.callback(u, code=code)
        c.check(st == 200, ["C06", "C24"], "a redirect with code %r was answered %s" % (code, st))
        w.settle()
        qs = [q for q in w.reqs if q.act == a.name]
        c.check(len(qs) == 1 and qs[0].f("code") == code, ["C08"], "code %r was exchanged as %s" % (code, qs))
        c.case(("code", code.isascii(), len(code) > 1000, "\n" in code))
    look("new")
    for k in range(3):
        for a in r.sample(A, 3):
            rt = cur[a.name][1]
            k0 = len(w.reqs)
            w.cli("refresh", a.name)
            w.settle()
            qs = [q for q in w.reqs[k0:] if q.act == a.name]
            c.check(len(qs) == 1 and qs[0].f("refresh_token") == rt, ["C08"], "refresh token %r was sent as %s" % (rt[:300], [q.f("refresh_token")[:300] if q.f("refresh_token") else None for q in qs]))
            c.case(("rt", rt.isascii(), len(rt) > 1000, "\n" in rt))
        b = look("refreshed")
        if k == 1:
            w.kill()
            w.start()
            x = w.cli("restore", input=b)
            c.check(x.rc == 0, ["C17"], "restore: %s" % x)
            w.settle()
            look("restored")
    c.check({x.act for x in w.runs("TE")} == {a.name for a in A}, ["C15"], "events: %s" % w.runs("TE"))


NUMS = [1, 2, 9, 10, 11, 23, 24, 25, 26, 30, 31, 47, 48, 49, 59, 60, 61, 90, 99, 100, 101, 119, 120, 121, 127, 128, 129, 180, 200, 255, 256, 257, 300, 365, 366, 400, 500, 999, 1000, 1001, 1023, 1024, 1440, 1441, 3599, 3600, 3601, 7200,
        9999, 32767, 32768, 65535, 65536, 65537, 86399, 86400, 86401, 99999, 100000, 604800]
UNIT = {"s": 1, "m": 60, "h": 3600, "d": 86400}


def rtime(r, lo, hi):
    """-> (text, seconds)"""
    while True:
        n, u = r.choice(NUMS) if r.random() < .7 else r.randrange(1, 2000), r.choice("smhdhd")
        if lo <= n * UNIT[u] <= hi:
            return "%d%s" % (n, u), n * UNIT[u]


@scenario(["C20", "C10"], n=40, nt=1300)
def time_units(c):
    """refresh_at_least and refresh_before_expiry in all units, global or per account, zero included: due to the second."""
    r = c.rng
    w = c.world(verbose=0)
    HI = 3000 * 86400
    glob = {}
    gal, gbe = 90 * 60, 90
    if r.random() < .6:
        glob["refresh_at_least"], gal = rtime(r, 30, HI)
    if r.random() < .6:
        glob["refresh_before_expiry"], gbe = r.choice([rtime(r, 1, HI), rtime(r, 1, HI), rtime(r, 1, 86400), ("0" + r.choice("smhd"), 0)])
    A, due, life = [], {}, {}
    for i in range(9):
        n = "u%d" % i
        kw = {}
        al, be = gal, gbe
        if r.random() < .7:
            kw["refresh_at_least"], al = rtime(r, 30, HI) if r.random() < .9 else ("0" + r.choice("smhd"), 0)
        if r.random() < .6:
            kw["refresh_before_expiry"], be = r.choice([rtime(r, 1, HI), rtime(r, 1, 90000), ("0" + r.choice("smhd"), 0), ("0" + r.choice("smhd"), 0)])
        # which of the two comes first?
        L = be + al + r.choice([-20, -1, 0, 1, 20, 4000]) if r.random() < .3 else max(0, be) + r.randrange(40, max(41, al)) if r.random() < .7 else be + al + r.randrange(50, 10**8)
        life[n] = max(30, L)
        due[n] = max(min(al, life[n] - be), 0)
        if due[n] < 30:
            life[n] = be + 40
            due[n] = min(al, 40)
        A.append(w.acct(n, **kw))
    t0 = {}

    def pol(q):
        if q.grant == "refresh_token":
            return HOLD
        t0[q.act] = w.now()
        return w.grant(q, life[q.act])

    w.default_policy = pol
    w.start(A, glob)
    what = lambda n: "%s, lifetime %d s, global %s: due after %d s" % (next(a for a in A if a.name == n).text().split("\n  ")[4:], life[n], glob, due[n])
    for a in A:
        w.authorise(a.name, settle=False)
    w.settle()
    got = lambda n: [q for q in w.reqs if q.act == n and q.grant == "refresh_token"]
    names = sorted(due, key=lambda n: due[n])
    if max(t0.values()) - min(t0.values()) > .5:
        raise Inconclusive("obtained at %s" % t0)
    for n in names:
        t = t0[n] + due[n]
        if t - 1 > w.now():
            w.advance(t - 1 - w.now())
        for m in names:
            if t0[m] + due[m] > w.now() + .1:
                c.check(not got(m), ["C10", "C20"], "%s (%s) was refreshed %.1f s after it was obtained" % (m, what(m), w.now() - t0[m]))
        if t + .7 > w.now():
            w.advance(t + .7 - w.now())
        if w.confirm(lambda: len(got(n)) != 1):
            c.fail(["C10", "C20"], "%s (%s) had %d refreshes %.1f s after it was obtained" % (n, what(n), len(got(n)), w.now() - t0[n]))
        for q in got(n):
            q.release(w.grant(q, 10**9))
        w.settle()
        c.case((next(a for a in A if a.name == n).refresh_at_least, next(a for a in A if a.name == n).refresh_before_expiry, due[n]))


@scenario(["C20", "C12", "C09"], n=32, nt=1000)
def retry_units(c):
    """refresh_retry and auth_notify_interval in all units: the next attempt, the next reminder, to the second."""
    r = c.rng
    w = c.world(verbose=0)
    HI = 3000 * 86400
    iv, ivs = rtime(r, 2, HI)
    glob = {"auth_notify_cmd": '"AN run"', "auth_notify_interval": iv, "refresh_at_least": "90000d"}
    grt = 40
    if r.random() < .6:
        glob["refresh_retry"], grt = rtime(r, 2, HI)
    A, rt = [], {}
    for i in range(5):
        n = "r%d" % i
        kw = {}
        rt[n] = grt
        if r.random() < .7:
            kw["refresh_retry"], rt[n] = rtime(r, 2, HI)
        A.append(w.acct(n, **kw))
    P = w.acct("p")
    # no delay at all, whatever the global value
    Z = w.acct("z", refresh_retry=r.choice(["0s", "0m", "0d"]))
    zs = []

    def pol(q):
        if q.grant != "refresh_token":
            return w.grant(q, 10**10)
        if q.act == "z":
            zs.append(q)
            return CLOSE if len(zs) < 3 else HOLD
        return CLOSE

    w.default_policy = pol
    w.start(A + [P, Z], glob)
    w.authorise("z")
    w.cli("refresh", "z")
    w.settle()
    if w.confirm(lambda: len(zs) < 3):
        c.fail(["C20", "C12"], "refresh_retry %s (global %s): %d attempts at once" % (Z.refresh_retry, glob.get("refresh_retry"), len(zs)))
    zs[2].release(w.grant(zs[2], 10**10))
    w.settle()
    c.check(len(zs) == 3, ["C12"], "refreshed again after success: %s" % zs)
    for a in A:
        w.authorise(a.name)
    w.auth_url("p")
    w.settle()
    c.check(len(w.runs("AN", "p")) == 1, ["C09"], "announced %s" % w.runs("AN", "p"))
    last = {}
    for a in A:
        w.cli("refresh", a.name)
        w.settle()
        last[a.name] = w.now()
    rq = lambda n: [q for q in w.reqs if q.act == n and q.grant == "refresh_token"]
    for a in A:
        c.check(len(rq(a.name)) == 1, ["C11"], "%s requests" % rq(a.name))
    ev = sorted([(rq(n)[0].t_recv + rt[n], n) for n in rt] + [(w.runs("AN", "p")[0].t_start + ivs, "p")])
    for t, n in ev:
        seen = lambda: len(w.runs("AN", "p")) if n == "p" else len(rq(n))
        what = "reminder (interval %s)" % iv if n == "p" else "%s (refresh_retry %s, global %s)" % (n, next(a for a in A if a.name == n).refresh_retry, glob.get("refresh_retry"))
        ps = ["C20", "C09"] if n == "p" else ["C20", "C12"]
        if t - 1.2 > w.now():
            w.advance(t - 1.2 - w.now())
            # (it may have been woken before: what matters is the first time)
            c.check(seen() == 1, ps, "%s: %d by %.1f s before it is due" % (what, seen(), t - w.now()))
        elif seen() == 1 and t + .8 <= w.now():
            pass
        if t + .8 > w.now():
            w.advance(t + .8 - w.now())
        if w.confirm(lambda: seen() < 2):
            c.fail(ps, "%s: none by %.1f s after it was due" % (what, w.now() - t))
        c.case((n == "p", iv if n == "p" else rt[n]))


@scenario(["C29", "C09"], n=32, nt=1000)
def announced(c):
    """When status says an account was last announced: at the last run of auth_notify_cmd or not at all, whatever is configured by now."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("n%d" % i) for i in range(4)]
    w.default_policy = lambda q: w.grant(q, 10**7)
    on = {"auth_notify_cmd": '"AN run"', "auth_notify_interval": "%dm" % r.choice([1, 10, 100])}
    glob = dict(on) if r.random() < .7 else {}
    w.start(A, glob)
    pend = set()
    t_req = {}
    off = [] if glob else [0]  # (without a command, a reminder that falls due is deemed given)
    for step in range(14):
        o = r.choice(["ask", "ask", "wait", "wait", "toggle", "interval", "revoke", "authorise"])
        a = r.choice(A).name
        if o == "ask":
            w.raw_sock(("showtoken:%s %s" % (r.choice(["withurl", "withouturl"]), a)).encode())
            st = w.cli("status").out
            if "%s: Access token pending" % a in st and a not in pend:
                pend.add(a)
                t_req[a] = len(w.sh.runs)
        elif o == "wait":
            w.advance(r.choice([3, 61, 700, 7000]))
        elif o == "toggle":
            glob = {} if glob else dict(on)
            off.append(w.now())
            w.write_conf(A, glob)
            c.check(w.cli("reload").rc == 0, ["C20"], "reload")
        elif o == "interval" and glob:
            glob["auth_notify_interval"] = "%dm" % r.choice([1, 10, 100, 1000])
            w.write_conf(A, glob)
            c.check(w.cli("reload").rc == 0, ["C20"], "reload")
        elif o == "revoke":
            w.cli("revoke", a)
            pend.discard(a)
        elif o == "authorise" and a in pend:
            w.raw_sock(("revoke:" + a).encode())
            pend.discard(a)
            w.authorise(a)
        w.settle()
        n0 = len(w.sh.runs)
        st = {l.split(": ", 1)[0]: l.split(": ", 1)[1] for l in w.cli("status").out.splitlines()}
        for a in pend:
            runs = [x for x in w.sh.runs[t_req[a]:n0] if x.kind == "AN" and x.act == a]
            if not runs:
                continue
            # one run of a previous request may still be among these: the last is this request's if it shows its URL
            last = runs[-1]
            s = st[a]
            c.check(s.startswith("Access token pending"), ["C29"], "%s is pending, status: %s" % (a, s))
            m = re.search(r"last notification (.*)\)", s)
            c.check(m, ["C29"], "%s was announced %.0f s ago, status: %s (configured: %s)" % (a, w.now() - last.t_start, s, glob))
            if m:
                t = parsedate_to_datetime(m.group(1)).timestamp()
                said = w.now() - (w.real_now() - t)
                silent = any(x >= last.t_start - 1 for x in off)
                c.check(abs(said - last.t_start) < 2.5 or (silent and last.t_start < said < w.now() + 2), ["C29"], "%s was announced %.0f s ago, status: %s, now %s" % (a, w.now() - last.t_start, s, w.real_now()))
            c.case((o, bool(glob), len(runs) > 1))


@scenario(["C29", "C12"], n=12, nt=300)
def attempted(c):
    """Of an expired token, status tells when its refresh was last attempted: that's when the attempt in flight began, or when the last one failed."""
    r = c.rng
    w = c.world(verbose=0)
    retry = r.choice([20, 100, 1000])
    a = w.acct("x", refresh_retry="%ds" % retry, refresh_before_expiry="1s", refresh_at_least="100d")
    first = r.choice([5, 100])
    w.default_policy = lambda q: w.grant(q, first)
    w.start([a], {})
    w.authorise("x")
    # told to be gone by something transient, some of the time after a while
    w.default_policy = lambda q: HOLD
    if r.random() < .3:
        w.down(a.ts, 111)
    w.advance(first + 1)
    w.settle()
    t, n = w.now(), 0

    def say(what):
        s = w.raw_sock(b"status:").decode()
        m = re.search(r"Access token expired \(last refresh attempt (.*)\)$", s)
        c.check(m, ["C29"], "%s, status: %r" % (what, s))
        said = w.now() - (w.real_now() - parsedate_to_datetime(m.group(1)).timestamp())
        c.check(abs(said - t) < 2.5, ["C29"], "%s: that was %.0f s ago, but status says %.0f s (%r)" % (what, w.now() - t, w.now() - said, s))

    for i in range(6):
        h = w.held("x")
        if h:
            wait = r.choice([0, 4, 12, 20])
            t = h[-1].t if hasattr(h[-1], "t") else t
            if wait:
                w.advance(wait)
            say("the refresh in flight (no. %d) began" % (i + 1))
            h[-1].release(r.choice([CLOSE, RESET]))
            w.settle()
            t = w.now()
            say("a refresh (no. %d) failed" % (i + 1))
        else:
            say("a refresh (no. %d) failed as nobody listens" % (i + 1))
        w.advance(r.choice([3, 10]))
        say("a while after refresh no. %d failed, which" % (i + 1))
        if r.random() < .4:
            t = w.now()
            w.raw_sock(b"refresh:withouturl x")
            w.settle()
        else:
            w.advance(retry - (w.now() - t) + .5)
            t = w.now()
        if r.random() < .3:
            w.up(a.ts)
        c.case((bool(h), i, retry), True)

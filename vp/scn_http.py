"""Directed scenarios for the listeners and for authorisation URLs."""
import base64, hashlib, os, random, re, socket, ssl, threading, time
from urllib.parse import parse_qsl, urlsplit, quote, unquote
from . import codec
from .core import scenario
from .world import *

TXT = ["a", "Zz09", "x y", "a+b", "é", "日本", "a&b=c", "100%", "#frag", "?q", "/p/", "\"q\"", "~-._", "a;b", "😀", "%41", "<tag>", "'", "\\", "[]{}|^`", "=", "&&"]


def rtext(r, n=4):
    return "".join(r.choice(TXT) for _ in range(r.randrange(1, n + 1)))


def enc(r, s, space_plus=True):
    """Percent-encode like some user agent would: everything that must be, and some that need not be."""
    o = []
    for ch in s:
        if ch == " " and space_plus and r.random() < .5:
            o.append("+")
        elif ch.isascii() and (ch.isalnum() or ch in "-._~") and r.random() < .9:
            o.append(ch)
        elif ch in "/:@!$'()*,;?" and ch != "'" and r.random() < .3 and ch not in ";":
            o.append(ch)
        else:
            o += [("%%%02x" if r.random() < .5 else "%%%02X") % b for b in ch.encode()]
    return "".join(o)


def acct_snapshot(w):
    """Everything observable about the accounts without changing it."""
    d = codec.decode(w.raw_sock(b"dump:"))
    st = w.raw_sock(b"status:")
    return {k: (v[1] and (v[1]["access"], v[1]["refresh"])) for k, v in d.items()}, st


def request_bytes(r, pq, host, big=0):
    """A GET request as some browser, proxy or library might write it."""
    hs = []
    name = r.choice(["Host", "host", "HOST", "hOsT"])
    sep = r.choice([": ", ":", ":  ", ":\t", ": \t "])
    tail = r.choice(["", "", " ", "\t"])
    k = r.random()
    if k < .12:
        hline = "%s:\r\n %s%s" % (name, host, tail)
    elif k < .2:
        hline = "%s: \r\n\t%s%s" % (name, host, tail)
    else:
        hline = name + sep + host + tail
    pool = ["User-Agent: Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36", "Accept: text/html,*/*;q=0.8", "Accept-Language: en-GB,en;q=0.5", "Connection: keep-alive",
            "Upgrade-Insecure-Requests: 1", "Sec-Fetch-Dest: document", "X-Host: evil.example.com", "X-Forwarded-Host: evil.example.com:99", "Hosting: nope", "Referer: https://login.example.com/?host:=x",
            "Cookie: a=b; host=zzz; c=\"d:e\"", "Cookie: second=1", "DNT: 1", "Folded: one\r\n two\r\n\tthree: four", "Cache-Control:no-cache", "X-Empty:", "Accept-Encoding: gzip, deflate, br",
            "X-Folded-Trap: x\r\n Host: evil.example.com", "NoColonHere", "Pragma: no-cache", "X-Utf8: é日本"]
    hs = r.sample(pool, r.randrange(0, len(pool)))
    if big:
        left = big
        while left > 0:
            n = min(left, r.randrange(50, 4000))
            hs.append("X-Pad-%d: %s" % (left, "p" * n))
            left -= n
    hs.insert(r.randrange(len(hs) + 1), hline)
    if hs[0].startswith((" ", "\t")):
        hs.insert(0, "A: b")
    return ("GET %s %s\r\n" % (pq, r.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])) + "".join(h + "\r\n" for h in hs) + "\r\n").encode("utf8")


def split(r, data):
    k = r.random()
    if k < .25:
        return [data]
    if k < .35:
        cut = [data.index(b"\r\n") + 1]
    elif k < .45:
        return [data[i:i + 1] for i in range(min(len(data), 300))] + [data[300:]] if len(data) > 300 else [data[i:i + 1] for i in range(len(data))]
    else:
        cut = sorted(r.randrange(1, len(data)) for _ in range(r.randrange(1, 8)))
    out, p = [], 0
    for x in cut + [len(data)]:
        if x > p:
            out.append(data[p:x])
            p = x
    return out


def send(w, https, pieces, delay=0.0, timeout=20, port=None, tls={}):
    port = port or w.ports["https_port" if https else "http_port"]
    s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
    try:
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if https:
            s = tls_client(s, **tls)
        for p in pieces:
            s.sendall(p)
            if delay:
                time.sleep(delay)
        b = b""
        while True:
            try:
                d = s.recv(65536)
            except (ssl.SSLError, ConnectionResetError):
                break
            if not d:
                break
            b += d
            if https and b"\r\n\r\n" in b and (b.endswith(b"</html>") or b.startswith(b"HTTP/1.1 4")):
                break
        STATS.add("http_requests")
        return b
    finally:
        s.close()


@scenario(["C24", "C07", "C06", "C08"], n=24, nt=500)
def browser_forms(c):
    """Genuine redirects in all the ways user agents write them."""
    r = c.rng
    w = c.world(verbose=r.choice([0, 4]))
    w.default_policy = lambda q: HOLD
    accts = []
    for i in range(4):
        ru = r.choice([None, "http://localhost/", "http://127.0.0.1/", "http://localhost/cb/x", "http://localhost:1234/", "https://localhost/", "https://127.0.0.1/q", "http://LocalHost/Cb", "http://localhost/p?fixed=1"])
        accts.append(w.acct("f%d" % i, redirect_uri=ru))
    w.start(accts, {"error_notify_cmd": '"EN run"'})
    for a in accts:
        for rep in range(3):
            u = w.auth_url(a.name, cmd="refresh")
            q = dict(parse_qsl(urlsplit(u).query))
            ru = urlsplit(q["redirect_uri"])
            https = ru.scheme == "https"
            want = "https" if (a.redirect_uri or "").startswith("https") else "http"
            c.check(ru.scheme == want and ru.port == w.ports[want + "_port"], ["C05", "C24"], "redirect URI %s for configured %s; listeners %s" % (q["redirect_uri"], a.redirect_uri, w.ports))
            code = rtext(r)
            ps = [("code", code), ("state", q["state"])] + r.sample([("scope", "a b c"), ("session_state", "x-1"), ("iss", "https://is.example.com/"), ("authuser", "0"), ("prompt", "none"), ("é", "ü"), ("flag", "")], r.randrange(0, 5))
            r.shuffle(ps)
            qs = "&".join("%s=%s" % (enc(r, k) if r.random() < .2 else quote(k), enc(r, v)) for k, v in ps)
            pq = (ru.path or "/") + "?" + (ru.query + "&" if ru.query else "") + qs
            host = ru.netloc
            if r.random() < .2:
                host = host.upper()
            data = request_bytes(r, pq, host, big=r.choice([0, 0, 0, 3000, 9000, 11500, 15300, 15700]))
            if len(data) > 16383:
                continue
            pieces = split(r, data)
            n = len(w.reqs)
            tls = {"alpn": r.choice([("h2", "http/1.1"), ("http/1.1",), ("http/1.1", "http/1.0", "h2c"), None]), "tls": r.choice([None, None, ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3]), "sni": r.choice(["localhost", "localhost", None])}
            b = send(w, https, pieces, delay=r.choice([0, 0, .002]) if len(pieces) < 40 else 0, tls=tls)
            w.settle()
            c.check(b.startswith(b"HTTP/1.1 200") and b"processing" in b, ["C24", "C07", "C06"], "a genuine redirect was answered %r; request (%d bytes in %d pieces): %r" % (b[:200], len(data), len(pieces), data[:1500]))
            if w.confirm(lambda: len(w.reqs) != n + 1):
                c.fail(["C24", "C07", "C06"], "a genuine redirect caused %d exchanges: %r" % (len(w.reqs) - n, data[:1500]))
            x = w.reqs[-1]
            c.check(x.act == a.name and x.f("code") == code, ["C24", "C08", "C07"], "redirected code %r, exchanged code %r (%s); request %r" % (code, x.f("code"), x.act, data[:1500]))
            c.check(x.f("redirect_uri") == q["redirect_uri"], ["C08"], "the exchange says redirect_uri %r, the URL said %r" % (x.f("redirect_uri"), q["redirect_uri"]))
            x.release(w.grant(x, 10**6))
            w.settle()
            c.check(w.token(a.name) == x.issued["access"], ["C07", "C24"], "the token did not become available")
            w.raw_sock(b"revoke:" + a.name.encode())
            c.case(("browser", https, len(pieces) > 1, len(pieces) > 40, len(data) // 4000, b"\r\n " in data, host.isupper()), True)


def rss(w):
    with open("/proc/%d/status" % w.proc.pid) as fh:
        t = fh.read()
    return int(re.search(r"VmHWM:\s+(\d+)", t).group(1)), int(re.search(r"VmRSS:\s+(\d+)", t).group(1))


@scenario(["C24", "C22", "C06"], n=20, nt=300)
def oversized(c):
    """Requests around and far beyond 16 KiB, in whatever part; memory must not follow them."""
    r = c.rng
    w = c.world(verbose=0)
    w.default_policy = lambda q: HOLD
    a, b = w.acct("plain"), w.acct("tls", redirect_uri="https://localhost/")
    w.start([a, b], {"error_notify_cmd": '"EN run"'})
    urls = {x.name: w.auth_url(x.name) for x in (a, b)}
    w.settle()
    base = rss(w)[0]
    for i in range(6):
        x = r.choice([a, a, b])
        https = x is b
        q = dict(parse_qsl(urlsplit(urls[x.name]).query))
        ru = urlsplit(q["redirect_uri"])
        good = "GET /?state=%s&code=OVER HTTP/1.1\r\n" % q["state"]
        host = "Host: %s\r\n" % ru.netloc
        tot = r.choice([16384 + 1, 16384 + 2, 16384 + 200, 20000, 70000, 10**6, 30 * 10**6 if not https else 4 * 10**6])
        part = r.choice(["line", "path", "header", "headers", "folds", "nonl", "lfs", "hostfold", "afterhost"])
        if part == "line":
            head = "GET /" + "a" * (tot // 2) + "?state=%s&code=OVER" % q["state"] + "&z=" + "b" * (tot // 2) + " HTTP/1.1\r\n" + host + "\r\n"
        elif part == "path":
            head = "GET /?state=%s&code=OVER&pad=" % q["state"] + "b" * tot + " HTTP/1.1\r\n" + host + "\r\n"
        elif part == "header":
            head = good + host + "X: " + "y" * tot + "\r\n\r\n"
        elif part == "headers":
            n = tot // 40 + 1
            head = good + "".join("X-%d: %s\r\n" % (k, "v" * 30) for k in range(n)) + host + "\r\n"
        elif part == "folds":
            head = good + "F: x\r\n" + " folded line\r\n" * (tot // 14 + 1) + host + "\r\n"
        elif part == "hostfold":
            head = good + host + " \r\n" * 0 + "F: x\r\n" + "\tq\r\n" * (tot // 4 + 1) + "\r\n"
        elif part == "nonl":
            head = good + host + "Z" * tot
        elif part == "lfs":
            head = good + "A:b\n" * (tot // 4 + 1) + host + "\r\n"
        else:
            head = good + host + "Y: " + "w" * (tot - len(good) - len(host) - 7 + 20) + "\r\n\r\n"
        data = head.encode()
        if len(data) <= 16384:
            continue
        got = b""
        try:
            got = send(w, https, [data[k:k + 65536] for k in range(0, len(data), 65536)])
        except (OSError, ssl.SSLError):
            pass
        w.settle()
        c.check(not got.startswith(b"HTTP/1.1 200") and not w.reqs, ["C24", "C06"], "a request of %d bytes (%s) was accepted: %r, %s" % (len(data), part, got[:100], w.reqs))
        for y in (a, b):
            c.check(w.auth_url(y.name) == urls[y.name], ["C06", "C24"], "an oversized request disturbed %s" % y.name)
        c.case(("oversized", part, https, len(data) > 10**5), True)
    hw = rss(w)[0]
    c.check(hw - base < 12 * 1024, ["C24"], "the server's memory grew by %d KiB on oversized requests" % (hw - base))
    # several at once that never finish
    hold = []
    big = r.choice([4, 16])
    for k in range(6):
        s = socket.create_connection(("127.0.0.1", w.ports["http_port"]), timeout=10)
        s.settimeout(3)
        hold.append(s)
        try:
            s.sendall(r.choice([b"GET /?", b"GET / HTTP/1.1\r\nHost: x\r\nA: ", b""]))
            for _ in range(big):
                s.sendall(b"q" * (1 << 20))
        except OSError:
            pass
    w.settle()
    hw = rss(w)[0]
    c.check(hw - base < 16 * 1024, ["C24"], "the server's memory grew by %d KiB while oversized requests were being sent (6 x %d MiB)" % (hw - base, big))
    for s in hold:
        s.close()
    w.settle()
    # just below the limit is fine
    for x in (a, b):
        https = x is b
        q = dict(parse_qsl(urlsplit(urls[x.name]).query))
        ru = urlsplit(q["redirect_uri"])
        fix = "GET /?state=%s&code=fits HTTP/1.1\r\nHost: %s\r\nPad: " % (q["state"], ru.netloc)
        size = r.choice([8000, 12000, 15000, 16000])
        n = len(w.reqs)
        got = send(w, https, [(fix + "p" * (size - len(fix) - 4) + "\r\n\r\n").encode()])
        w.settle()
        c.check(got.startswith(b"HTTP/1.1 200") and not w.confirm(lambda: len(w.reqs) != n + 1), ["C24", "C07"], "a request of %d bytes was not accepted: %r" % (size, got[:100]))
        c.case(("fits", size, https))


@scenario(["C06", "C07", "C02", "C22"], n=24, nt=500)
def strangers(c):
    """Requests that match nothing, thrown at accounts in every state."""
    r = c.rng
    w = c.world(verbose=0)
    w.default_policy = lambda q: HOLD
    A = {"empty": w.acct("empty"), "pend": w.acct("pend"), "flight": w.acct("flight"), "have": w.acct("have"), "refr": w.acct("refr"), "tls": w.acct("tls", redirect_uri="https://localhost/"),
         "ip": w.acct("ip", redirect_uri="http://127.0.0.1/")}
    w.start(list(A.values()), {"error_notify_cmd": '"EN run"', "token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"'})
    st, url, old = {}, {}, []
    for n in A:
        if n == "empty":
            continue
        u = w.auth_url(n)
        if r.random() < .5:
            old.append(u)
            u = w.auth_url(n, cmd="refresh")
        url[n] = u
        if n in ("flight", "have", "refr"):
            w.callback(u, code="code-" + n)
            w.settle()
        if n in ("have", "refr"):
            q = w.held(n)[0]
            q.release(w.grant(q, 10**6))
            w.settle()
            old.append(u)
    w.cli("refresh", "refr")
    w.settle()
    c.check(len(w.held()) == 2, ["C11", "C07"], "preparation: outstanding requests %s" % w.held())

    def stof(u):
        return dict(parse_qsl(urlsplit(u).query))["state"]

    u = w.auth_url("empty")
    old.append(u)
    w.raw_sock(b"revoke:empty")
    w.settle()
    pend = {n: url[n] for n in ("pend", "flight", "tls", "ip")}
    snap = acct_snapshot(w)
    nreq, nrun = len(w.reqs), len(w.sh.runs)
    hp, sp = w.ports["http_port"], w.ports["https_port"]
    for i in range(r.choice([20, 30])):
        n = r.choice(sorted(pend))
        s = stof(pend[n])
        ru = urlsplit(dict(parse_qsl(urlsplit(pend[n]).query))["redirect_uri"])
        https = ru.scheme == "https"
        host = ru.netloc
        meth, state, code, ver = "GET", s, "&code=EVIL", "HTTP/1.1"
        hdrs = None
        kind = r.choice(["method", "state", "oldstate", "nostate", "scheme", "host", "port", "nocode", "nohost", "twohosts", "rawline", "body", "fragment", "wrongsock"])
        path = "/"
        if kind == "method":
            meth = r.choice(["POST", "HEAD", "PUT", "get", "GETX", "DELETE", "OPTIONS", "PATCH", "", "CONNECT", "G ET"])
        elif kind == "state":
            state = r.choice([s[:-1], s + "A", s.swapcase() if s.swapcase() != s else s + "x", s + "=", "%00" + s, s[::-1] if s[::-1] != s else "q", "", " " + s, s + "%20", "x" * 11, s + "%00", s[:4],
                              r.choice("-_=.~+/ A0") + s, s + r.choice("-_.~+/%0A"), s[1:], s[:5] + r.choice("-_=.") + s[5:], s + "," + s])
        elif kind == "oldstate":
            state = stof(r.choice(old))
        elif kind == "nostate":
            state = None
        elif kind == "scheme":
            https = not https
            host = ru.hostname + ":%d" % r.choice([hp, sp])
        elif kind == "host":
            host = r.choice(["evil.example.com:%d" % ru.port, "localhost.evil:%d" % ru.port, "xlocalhost:%d" % ru.port, "127.0.0.2:%d" % ru.port, "[::1]:%d" % ru.port, "local:%d" % ru.port] +
                            (["127.0.0.1:%d" % ru.port] if ru.hostname == "localhost" else ["localhost:%d" % ru.port]))
        elif kind == "port":
            host = r.choice([ru.hostname, ru.hostname + ":%d" % (ru.port + 1), ru.hostname + ":%d" % (sp if not https else hp), ru.hostname + ":80", ru.hostname + ":443"])
        elif kind == "wrongsock":
            # the right Host, but arriving at the other listener
            https = not https
        elif kind == "nocode":
            code = r.choice(["", "&Code=EVIL", "&code%20=EVIL", "&xcode=EVIL", "&c=1"])
        elif kind == "nohost":
            hdrs = ["User-Agent: x"]
        elif kind == "twohosts":
            hdrs = ["Host: " + host, "Host: " + host]
        elif kind == "body":
            meth = "POST"
            code = ""
        if code == "&code=EVIL" and kind in ("state", "oldstate", "nostate", "scheme", "host", "port", "wrongsock", "method", "twohosts") and r.random() < .3:
            code = r.choice(["&error=access_denied", "&error=x&code=EVIL", "&code=EVIL&error=x", "&error="])
        if kind == "rawline":
            ln = r.choice(["GET", "GET /?state=%s&code=EVIL" % s, "GET  /?state=%s&code=EVIL HTTP/1.1" % s, "GET /?state=%s&code=EVIL HTTP/1.1 x" % s, "/?state=%s&code=EVIL" % s, "GET\t/?state=%s&code=EVIL\tHTTP/1.1" % s,
                           "\r\nGET /?state=%s&code=EVIL HTTP/1.1" % s, "GET ?state=%s HTTP/1.1" % s])
        else:
            if kind == "fragment":
                pq = path + "?x=1#state=%s%s" % (state, code)
            else:
                pq = path + "?" + ("state=" + state if state is not None else "z=1") + code
            ln = "%s %s %s" % (meth, pq, ver)
        raw = ln + "\r\n" + "".join(h + "\r\n" for h in (hdrs if hdrs is not None else ["Host: " + host, "A: b"])) + "\r\n"
        if kind == "body":
            raw += "code=EVIL&state=" + s
        got = b""
        try:
            got = send(w, https, [raw.encode()])
        except OSError:
            pass
        w.settle()
        c.check(len(w.reqs) == nreq, ["C06"], "a %s request (%r over %s) made pizauth contact a token server: %r" % (kind, raw, "https" if https else "http", w.reqs[nreq:]))
        c.check(len(w.sh.runs) == nrun, ["C06", "C15", "C09"], "a %s request (%r) ran a command: %r" % (kind, raw, w.sh.runs[nrun:]))
        c.check(b"processing" not in got, ["C06"], "a %s request (%r) was answered %r" % (kind, raw, got))
        now = acct_snapshot(w)
        c.check(now == snap, ["C06", "C22"], "a %s request (%r) changed the state from %s to %s" % (kind, raw, snap, now))
        if r.random() < .4:
            for m, v in pend.items():
                c.check(w.auth_url(m) == v, ["C06"], "a %s request (%r) changed %s's pending URL" % (kind, raw, m))
        c.case(("stranger", kind, n, https))
    # the in-flight work is untouched as well
    for n in ("flight", "refr"):
        q = w.held(n)[0]
        q.release(w.grant(q, 10**6))
        w.settle()
        c.check(w.token(n) == q.issued["access"], ["C06", "C07", "C11"], "%s's in-flight request was lost" % n)
    # an error redirect ends exactly its own request
    n = r.choice(["pend", "tls", "ip"])
    stt = w.callback(pend[n], error=r.choice(["access_denied", "é ü", "", " ", "0"]), extra=[("code", "EVIL")] if r.random() < .5 else None)
    w.settle()
    c.check(stt == 400, ["C06", "C07"], "an error redirect was answered %s" % stt)
    status = dict(l.split(": ", 1) for l in w.cli("status").out.splitlines())
    c.check(status[n].startswith("No access"), ["C06", "C07"], "after an error redirect: %s" % status[n])
    c.check(len(w.reqs) == nreq, ["C06"], "an error redirect made pizauth contact a token server")
    if w.confirm(lambda: len([x for x in w.sh.runs[nrun:] if x.kind == "EN" and x.act == n]) != 1):
        c.fail(["C07", "C06"], "an error redirect was reported %d times" % len([x for x in w.sh.runs[nrun:] if x.kind == "EN"]))
    for m, v in pend.items():
        if m not in (n, "flight"):
            c.check(w.auth_url(m) == v, ["C06"], "%s's error redirect changed %s's pending URL" % (n, m))


def check_url(c, w, a, u, extra=()):
    """Is u the authorisation URL that account a is due? Returns pizauth's own parameters."""
    sp = urlsplit(u)
    base = urlsplit(a.auth_uri)
    c.check(sp.scheme == base.scheme and sp.netloc.lower() == base.netloc.lower() and unquote(sp.path) == unquote(base.path or "/"), ["C05", *extra], "auth URI %r became %r" % (a.auth_uri, u))
    c.check(unquote(sp.fragment) == unquote(base.fragment), ["C05", *extra], "auth URI %r became %r" % (a.auth_uri, u))
    c.check(u.isascii() and not re.search(r'[\s"<>\\^`{|}]', u), ["C05", *extra], "URL %r is not percent-encoded" % u)
    p = parse_qsl(sp.query, keep_blank_values=True)
    bq = parse_qsl(base.query, keep_blank_values=True)
    c.check(p[:len(bq)] == bq, ["C05", *extra], "the auth URI's own query %s is not kept: %s" % (bq, p))
    p = p[len(bq):]
    ex = list(a.auth_uri_fields or []) + ([("login_hint", a.login_hint)] if a.login_hint is not None else [])
    c.check(p[len(p) - len(ex):] == ex, ["C05", "C20"], "extra fields %s: %s" % (ex, p))
    std = p[:len(p) - len(ex)]
    d = dict(std)
    want = {"access_type": "offline", "code_challenge_method": "S256", "response_type": "code", "client_id": a.client_id}
    if a.scopes:
        want["scope"] = " ".join(a.scopes)
    names = set(want) | {"code_challenge", "state", "redirect_uri"}
    c.check(len(d) == len(std) and set(d) == names and all(d[k] == v for k, v in want.items()), ["C05", *extra], "parameters %s; expected %s and %s" % (std, want, names))
    ru, cru = urlsplit(d["redirect_uri"]), urlsplit(a.redirect_uri or "http://localhost/")
    c.check(ru.scheme == cru.scheme and ru.hostname == cru.hostname and ru.path == (cru.path or "/") and ru.query == cru.query and ru.port == w.ports[ru.scheme + "_port"],
            ["C05", *extra], "redirect URI %s for %s, listeners %s" % (d["redirect_uri"], a.redirect_uri, w.ports))
    c.check(re.fullmatch(r"[A-Za-z0-9_-]{43}", d["code_challenge"]) is not None, ["C05", *extra], "challenge %r" % d["code_challenge"])
    c.check(len(d["state"]) >= 11, ["C05", *extra], "state %r is too short" % d["state"])
    if a.client_secret:
        c.check(a.client_secret not in u and quote(a.client_secret, safe="") not in u, ["C05", "C26", *extra], "the client secret is in the URL")
    return d


@scenario(["C05", "C08"], n=12, nt=200)
def url_fresh(c):
    """Many authorisation requests: form, freshness and (crudely) randomness of state and verifier."""
    r = c.rng
    w = c.world(verbose=0)
    accts = []
    for i in range(4):
        fl = [(rtext(r, 2), rtext(r, 3)) for _ in range(r.randrange(0, 4))]
        if fl and r.random() < .5:
            fl.append((fl[0][0], rtext(r, 2)))
        accts.append(w.acct("u%d" % i, client_id=rtext(r), client_secret=r.choice([None, "", "sEcReT-" + rtext(r)]), scopes=r.choice([None, [], [rtext(r, 1)], [rtext(r, 2) for _ in range(3)], ["s1", "s1"]]),
                            auth_uri_fields=r.choice([None, fl]), auth_uri=r.choice(["https://auth.example.com/a", "https://auth.example.com/a?tenant=x%20y&z", "http://auth.example.com:8080/é/%41", "https://user@auth.example.com/"]),
                            redirect_uri=r.choice([None, "http://localhost/", "https://localhost/x", "http://127.0.0.1:99/p?q=1"])))
    states, chals, vers = [], [], []
    for life in range(2):
        w.start(accts, {})
        for i in range(40 if c.tier == "quick" else 120):
            a = r.choice(accts)
            k = r.random()
            u = w.raw_sock(("refresh:withurl " + a.name).encode())[8:].decode()
            d = check_url(c, w, a, u)
            states.append(d["state"])
            chals.append(d["code_challenge"])
            if k < .8:
                n = len(w.reqs)
                w.callback(u, code="c")
                w.settle()
                if w.confirm(lambda: len(w.reqs) != n + 1):
                    c.fail(["C07"], "no exchange")
                v = w.reqs[-1].f("code_verifier")
                c.check(isinstance(v, str) and re.fullmatch(r"[A-Za-z0-9._~-]{43,128}", v) is not None, ["C05", "C08"], "verifier %r" % (v,))
                c.check(base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).rstrip(b"=").decode() == d["code_challenge"], ["C05", "C08"], "verifier %r doesn't match challenge %r" % (v, d["code_challenge"]))
                c.check(v not in u and d["state"] not in v, ["C05"], "the verifier shows in the URL, or contains the state")
                vers.append(v)
                w.raw_sock(b"revoke:" + a.name.encode())
        w.kill()
    c.check(len(set(states)) == len(states), ["C05"], "a state was used twice")
    c.check(len(set(chals)) == len(chals) and len(set(vers)) == len(vers), ["C05"], "a verifier was used twice")
    # every bit of state and verifier varies (bounds are > 6 sigma wide)
    for what, xs in (("state", states), ("verifier", vers)):
        bs = []
        for x in xs:
            try:
                bs.append(base64.urlsafe_b64decode(x + "=" * (-len(x) % 4)))
            except ValueError:
                bs = []
                break
        # (whatever the encoding: at least every character position takes several values)
        if len(xs) >= 40 and len({len(x) for x in xs}) == 1:
            for i in range(len(xs[0])):
                c.check(len({x[i] for x in xs}) > 1, ["C05"], "character %d of the %s never varies" % (i, what))
        if len(bs) >= 40 and len({len(b) for b in bs}) == 1:
            n = len(bs)
            for i in range(len(bs[0]) * 8):
                k = sum(b[i // 8] >> (i % 8) & 1 for b in bs)
                c.check(0 < k < n, ["C05"], "bit %d of the %s never varies in %d of them" % (i, what, n))
                c.check(abs(k - n / 2) <= 3.6 * n ** .5, ["C05"], "bit %d of the %s is set in %d of %d" % (i, what, k, n))
    c.case(("fresh", len(states), len(vers)))


@scenario(["C08", "C26"], n=12, nt=150)
def token_redirects(c):
    """A token server that redirects elsewhere: nobody else gets the credentials."""
    r = c.rng
    w = c.world(verbose=0)
    evil = w.server_for("evil")
    a = w.acct("acc")
    w.start([a], {"error_notify_cmd": '"EN run"'})

    def pol(q):
        if q.act == "evil":
            return J(jbody("EVIL-TOKEN", 3600, "EVIL-RT"))
        if mode[0]:
            st = r.choice([301, 302, 303, 307, 308])
            return ("reply", st, "Moved", [("Location", evil.uri("/steal"))], b"")
        return w.grant(q, 10**6)

    mode = [False]
    w.default_policy = pol
    for i in range(4):
        w.raw_sock(b"revoke:acc")
        mode[0] = False
        secrets = {a.client_secret}
        what = r.choice(["exchange", "refresh"])
        if what == "refresh":
            w.authorise("acc", code="c0de%d" % i)
            secrets |= {w.reqs[-1].issued["refresh"], w.reqs[-1].issued["access"]}
            mode[0] = True
            w.cli("refresh", "acc")
        else:
            u = w.auth_url("acc")
            mode[0] = True
            w.callback(u, code="sEcReTcOdE%d" % i)
            secrets.add("sEcReTcOdE%d" % i)
        w.settle()
        for q in w.reqs:
            if q.act != "evil" and q.f("code_verifier"):
                secrets.add(q.f("code_verifier"))
        n = 0
        for q in w.reqs:
            if q.act == "evil":
                n += 1
                blob = q.raw + q.body
                for s in secrets:
                    c.check(s.encode() not in blob and quote(s, safe="").encode() not in blob, ["C08"], "following a redirect, %s sent %r to a stranger" % (what, s))
        c.case(("redirect", what, n > 0))

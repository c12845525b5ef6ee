"""Configurations: valid ones are honoured to the letter, invalid ones refused."""
import json, os, random, re, signal, socket, subprocess, time
from urllib.parse import urlsplit, unquote
from . import codec
from .core import scenario
from .world import *
from .walk import secs
from .scn_http import rtext, check_url
from .scn_dump import rname

WS = [" ", " ", "\n", "\n  ", "\t", "\r\n", "  ", ""]
COMMENTS = ["// x\n", "//\n", "// \"unbalanced\n", "// } ; account { // \n", "//é😀\n", "///\\\n", "// http_listen = none;\r\n"]


def sep(r, style):
    if style == "plain":
        return " "
    if style == "tight":
        return ""
    s = ""
    for _ in range(r.randrange(0, 3)):
        s += r.choice(COMMENTS) if r.random() < .3 else r.choice(WS)
    return s


def S(x):
    return cstr(x)


def acct_tokens(a, r):
    f = [["auth_uri", "=", S(a.auth_uri), ";"], ["token_uri", "=", S(a.token_uri), ";"], ["client_id", "=", S(a.client_id), ";"]]
    if a.client_secret is not None:
        f.append(["client_secret", "=", S(a.client_secret), ";"])

    def lst(o, xs, cl):
        t = [o]
        for i, x in enumerate(xs):
            t += ([","] if i else []) + x
        return t + [cl]

    if a.scopes is not None:
        f.append(["scopes", "="] + lst("[", [[S(x)] for x in a.scopes], "]") + [";"])
    if a.auth_uri_fields is not None:
        f.append(["auth_uri_fields", "="] + lst("{", [[S(k), ":", S(v)] for k, v in a.auth_uri_fields], "}") + [";"])
    for k in ("redirect_uri", "login_hint"):
        if getattr(a, k) is not None:
            f.append([k, "=", S(getattr(a, k)), ";"])
    for k in ("refresh_at_least", "refresh_before_expiry", "refresh_retry"):
        if getattr(a, k) is not None:
            f.append([k, "=", getattr(a, k), ";"])
    r.shuffle(f)
    return f


def conf_items(accts, glob, r):
    """[[tokens]]: top-level items; an account is ["account", name, "{", [field tokens]..., "}"]."""
    items = [[k, "=", v, ";"] for k, v in glob.items()] + [["account", S(a.name), "{"] + acct_tokens(a, r) + ["}"] for a in accts]
    r.shuffle(items)
    return items


def flat(items):
    o = []
    for x in items:
        o += flat(x) if isinstance(x, list) else [x]
    return o


def render(items, r, style=None):
    style = style or r.choice(["plain", "tight", "wild", "wild", "wild"])
    o = sep(r, style)
    for t in flat(items):
        o += t + sep(r, style)
    if style == "wild" and r.random() < .3:
        o += "// no newline at the end"
    return o


TIMES = ["%ds", "%dm", "%dh", "%dd"]


def rtime(r, lo, hi):
    """A time between lo and hi seconds in some unit."""
    while True:
        u, k = r.choice([("s", 1), ("s", 1), ("m", 60), ("h", 3600), ("d", 86400)])
        n = r.randrange(lo, hi) // k
        if lo <= n * k:
            return ("0" * r.choice([0, 0, 2])) + "%d%s" % (n, u)


CMDTXT = ["", " $PIZAUTH_ACCOUNT", " \"quoted\"", " 'x'", " a\\b", " \\\\", " é😀", " | x && y; z", " $(id) `id`", " //no comment", "\nsecond line", " %s {}", " \t"]


def rcmd(r, k):
    return k + "".join(r.choice(CMDTXT) for _ in range(r.randrange(0, 4)))


def rand_conf(w, r):
    used = set()
    glob = {}
    A = []
    for i in range(r.choice([1, 2, 4])):
        n = rname(r, used)
        ts = w.server_for(n)
        tu = r.choice(["http://127.0.0.1:%d/tok", "http://127.0.0.1:%d", "http://127.0.0.1:%d/a/b?x=1&y=%%20z", "http://127.0.0.1:%d/\u00e9/t", "http://localhost:%d/t", "HTTP://127.0.0.1:%d/T"]) % ts.port
        fl = [(rtext(r, 2), rtext(r, 2)) for _ in range(r.choice([0, 1, 2, 4]))] + r.choice([[], [], [("", "")], [("k", "")], [("", "v")]])
        lh = rtext(r, 2) if r.random() < .2 else None
        a = w.acct(n, token_uri=tu, client_id=r.choice(["cid", rtext(r), ""]), client_secret=r.choice([None, "", "sEcReT-" + rtext(r), "sEcReT-%d\n" % i, "sEcReT \\\" x"]),
                   scopes=r.choice([None, [], [rtext(r)], [rtext(r, 2) for _ in range(4)], ["a", "a", "b"], [""], ["", "a"], ["a", ""], ["a", "", "b", ""]]), auth_uri_fields=r.choice([None, fl]),
                   auth_uri=r.choice(["https://auth.example.com/a", "https://auth.example.com", "https://auth.example.com/a?t=x%20y&z", "http://auth.example.com:8080/é/%41", "HTTPS://auth.example.com/UP", "https://[::1]:99/x", "https://auth.example.com/a#frag"]),
                   redirect_uri=r.choice([None, "http://localhost/", "http://localhost/x/y?z=1", "https://localhost/", "HTTP://127.0.0.1/q", "Https://LocalHost:7/z", "http://localhost"]))
        a.login_hint = lh if not any(k == "login_hint" for k, _ in fl) else None
        for k, lo, hi in (("refresh_at_least", 400, 200000), ("refresh_before_expiry", 1, 300), ("refresh_retry", 32, 100000)):
            if r.random() < .35:
                setattr(a, k, rtime(r, lo, hi))
        A.append(a)
    for k, lo, hi in (("refresh_at_least", 400, 200000), ("refresh_before_expiry", 1, 300), ("refresh_retry", 32, 100000), ("auth_notify_interval", 1, 100000)):
        if r.random() < .4:
            glob[k] = rtime(r, lo, hi)
    for k, v in (("auth_notify_cmd", "AN"), ("error_notify_cmd", "EN"), ("token_event_cmd", "TE"), ("transient_error_if_cmd", "TR")):
        if r.random() < .7:
            glob[k] = cstr(rcmd(r, v))
    return A, glob


def unq(s):
    """The value of a quoted configuration string."""
    return re.sub(r'\\(.)', r'\1', s[1:-1], flags=re.S)


def eff(a, glob, k, d):
    v = getattr(a, k) if getattr(a, k) is not None else glob.get(k)
    return secs(v.lstrip("0").rjust(2, "0") if v else v) if v is not None else d


@scenario(["C20", "C05", "C08", "C10", "C09"], n=40, nt=1500, limit=200)
def valid_conf(c):
    """Random valid configurations in every notation; each setting is observed in effect."""
    r = c.rng
    w = c.world(verbose=0)
    A, glob = rand_conf(w, r)
    style = r.choice(["plain", "tight", "wild", "wild", "wild"])
    text = render(conf_items(A, glob, r), r, style)
    by = {a.name: a for a in A}
    life = {a.name: r.choice([600, 3600, 100000, 10**7]) for a in A}
    w.default_policy = lambda q: HOLD if w.__dict__.get("holding") else w.grant(q, life[q.act])
    route = r.choice(["start", "start", "-c", "reload"])
    if route == "reload":
        w.start([w.acct("dummy")], {})
        w.write_conf(text=text)
        x = w.cli("reload")
        c.check(x.rc == 0, ["C20"], "a valid configuration is refused by reload: %s\n%s" % (x, text))
    elif route == "-c":
        p = os.path.join(w.dir, "other é.conf")
        with open(p, "w") as fh:
            fh.write(text)
        w.write_conf(text="nonsense")
        w.start(args=["-c", p])
    else:
        w.start(text=text)
    c.case(("conf", style, route))
    w.settle()
    x = w.raw_sock(b"status:").decode()
    # "in alphabetical order": of the lines or of the names
    c.check(x in ("ok:" + "\n".join(sorted("%s: No access token" % a.name for a in A)), "ok:" + "\n".join("%s: No access token" % n for n in sorted(by))), ["C20", "C29"], "status %r for\n%s" % (x, text))
    pend = None
    urls = {}
    for a in A:
        n = a.name
        u = w.auth_url(n)
        w.settle()
        urls[n] = u
        d = check_url(c, w, a, u, ["C20"])
        want = [dict(argv=[w.env["SHELL"], "-c", unq(glob["auth_notify_cmd"])], act=n, url=u)] if "auth_notify_cmd" in glob else []

        def ans():
            return [dict(argv=x.argv, act=x.act, url=x.url) for x in w.sh.runs if x.env.get("PIZAUTH_URL") and x.act == n]

        if w.confirm(lambda: ans() != want):
            c.fail(["C20", "C09"], "notification commands %s, expected %s" % (ans(), want))
    if len(A) > 1 and r.random() < .7:
        pend = A.pop(r.randrange(len(A)))
    # a reminder exactly on time
    if pend and "auth_notify_cmd" in glob:
        I = secs(glob["auth_notify_interval"].lstrip("0").rjust(2, "0")) if "auth_notify_interval" in glob else 900
        k = len(w.sh.runs)
        if I > 3:
            w.advance(I - 1.5)
            c.check(len([x for x in w.sh.runs[k:] if x.act == pend.name]) == 0, ["C20", "C09"], "a reminder came early (interval %s)" % glob.get("auth_notify_interval"))
            w.advance(2.0)
            if w.confirm(lambda: not [x for x in w.sh.runs[k:] if x.act == pend.name]):
                c.fail(["C20", "C09"], "no reminder after %s" % glob.get("auth_notify_interval", "the default of 15m"))
            c.case(("interval", "auth_notify_interval" in glob))
    due = {}
    for a in A:
        n = a.name
        k = len(w.reqs)
        u = urls[n]
        code = "cöde " + rtext(r, 2)
        st = w.callback(u, code=code)
        c.check(st == 200, ["C20", "C24", "C07"], "the redirect of %s was answered %s" % (u, st))
        w.settle()
        if w.confirm(lambda: len(w.reqs) != k + 1):
            c.fail(["C20", "C08"], "no exchange at %s" % a.token_uri)
        q = w.reqs[-1]
        q0 = dict(parse_qsl(urlsplit(u).query, keep_blank_values=True))
        want = {"code": code, "client_id": a.client_id, "redirect_uri": q0["redirect_uri"], "grant_type": "authorization_code", "code_verifier": q.f("code_verifier")}
        if a.client_secret is not None:
            want["client_secret"] = a.client_secret
        c.check(len(q.form) == len(want) and dict(q.form) == want, ["C20", "C08"], "exchange sent %s, configuration says %s" % (q.form, want))
        sp = urlsplit(a.token_uri)
        wantp = unquote(sp.path or "/") + ("?" + unquote(sp.query) if sp.query else "")
        c.check(unquote(q.path) == wantp and q.method == "POST", ["C20", "C08"], "exchange went to %s %s, token_uri %s" % (q.method, q.path, a.token_uri))
        want = [dict(argv=[w.env["SHELL"], "-c", unq(glob["token_event_cmd"])], act=n, ev="token_new")] if "token_event_cmd" in glob else []

        def evs():
            return [dict(argv=x.argv, act=x.act, ev=x.event) for x in w.sh.runs if x.event and x.act == n]

        if w.confirm(lambda: evs() != want):
            c.fail(["C20", "C15"], "event commands %s, expected %s" % (evs(), want))
        due[n] = min(w.now() + life[n] - eff(a, glob, "refresh_before_expiry", 90), w.now() + eff(a, glob, "refresh_at_least", 5400))
        c.check(w.token(n) == q.issued["access"], ["C20", "C01"], "no token")
    # refreshes exactly when the configuration says, and retries as well
    w.holding = True
    for n, t in sorted(due.items(), key=lambda x: x[1])[:3]:
        a = by[n]
        left = t - w.now()
        k = len(w.reqs)

        def mine():
            return [q for q in w.reqs if q.act == n and q.f("grant_type") == "refresh_token"]

        if left < 3 or mine():
            continue
        # others may become due on the way: their requests are held, time out and are retried, which is of no interest here
        w.advance(left - 1.5)
        c.check(not mine(), ["C20", "C10"], "%s was refreshed %.1f s early (%s, %s)" % (n, t - w.now(), glob, a.__dict__))
        w.advance(3)
        if w.confirm(lambda: len(mine()) != 1):
            c.fail(["C20", "C10"], "%s was due %.1f s ago: %s (%s, %s)" % (n, w.now() - t, mine(), glob, a.__dict__))
        q = mine()[0]
        want = {"client_id": a.client_id, "refresh_token": q.f("refresh_token"), "grant_type": "refresh_token"}
        if a.client_secret is not None:
            want["client_secret"] = a.client_secret
        c.check(len(q.form) == len(want) and dict(q.form) == want, ["C20", "C08"], "refresh sent %s, configuration says %s" % (q.form, want))
        t1 = w.now()
        q.release(CLOSE)
        w.settle()
        R = eff(a, glob, "refresh_retry", 40)
        w.advance(t1 + R - w.now() - 1.5)
        c.check(len(mine()) == 1, ["C20", "C10", "C12"], "%s was retried early (refresh_retry %s)" % (n, R))
        w.advance(3)
        if w.confirm(lambda: len(mine()) != 2):
            c.fail(["C20", "C10", "C12"], "%s was not retried after refresh_retry (%s)" % (n, R))
        c.case(("due", a.refresh_at_least is not None, "refresh_at_least" in glob, a.refresh_before_expiry is not None, "refresh_before_expiry" in glob))
        c.case(("retry", a.refresh_retry is not None, "refresh_retry" in glob))
    # errors are reported as configured
    if pend:
        k = len(w.sh.runs)
        u = w.raw_sock(("showtoken:withurl " + pend.name).encode())[8:].decode()
        st = w.callback(u, error="nö")
        w.settle()
        want = [dict(argv=[w.env["SHELL"], "-c", unq(glob["error_notify_cmd"])], act=pend.name)] if "error_notify_cmd" in glob else []

        def ens():
            return [dict(argv=x.argv, act=x.act) for x in w.sh.runs[k:] if x.msg is not None]

        if w.confirm(lambda: ens() != want):
            c.fail(["C20", "C07"], "error commands %s, expected %s" % (ens(), want))
        if not want:
            c.check(pend.name in w.err_text() and "nö" in w.err_text(), ["C20", "C07"], "an error was not even logged: %s" % w.err_text()[-500:])
        c.case(("error", bool(want)))
    if "transient_error_if_cmd" in glob and r.random() < .5:
        a = r.choice(A)
        for q in w.held():
            q.release(("reply", 200, "OK", [], json.dumps(jbody(w.mint(q.act), 10**8)).encode()))
        w.settle()
        w.holding = False
        b = w.raw_sock(("showtoken:withurl " + a.name).encode())
        if b.startswith(b"access_token:"):
            w.down(a.ts)
            k = len(w.sh.runs)
            for i in range(12):
                w.raw_sock(("refresh:withurl " + a.name).encode())
                w.settle()
            trs = [(x.argv, x.act) for x in w.sh.runs[k:] if not x.event and not x.url and x.msg is None]
            c.check(trs and all(x == ([w.env["SHELL"], "-c", unq(glob["transient_error_if_cmd"])], a.name) for x in trs), ["C20", "C12"], "transient_error_if_cmd was run as %s" % trs)
            c.case("transient_error_if_cmd")


def try_server(w, text=None, args=("-d",), conf=None, wait=12.0, env=None):
    """Start a server in a runtime directory of its own. -> (exit code | None if it runs, stderr, Popen)"""
    d = os.path.join(w.dir, "try")
    os.makedirs(d, exist_ok=True)
    p = conf or os.path.join(w.dir, "try.conf")
    if text is not None:
        with open(p, "wb") as fh:
            fh.write(text if isinstance(text, bytes) else text.encode())
    e = dict(w.env, XDG_RUNTIME_DIR=d)
    e.update(env or {})
    sp = os.path.join(d, "pizauth", "pizauth.sock")
    if os.path.exists(sp):
        os.unlink(sp)
    with open(os.path.join(w.dir, "try.err"), "wb") as er:
        pr = subprocess.Popen([w.built["bin"], "server", "-c", p] + list(args), env=e, stdin=subprocess.DEVNULL, stdout=er, stderr=er, cwd=w.dir)
        t0 = time.monotonic()
        while pr.poll() is None and time.monotonic() - t0 < wait:
            if "-d" in args and os.path.exists(sp):
                s = socket.socket(socket.AF_UNIX)
                try:
                    s.settimeout(5)
                    s.connect(sp)
                    s.sendall(b"info:")
                    s.shutdown(socket.SHUT_WR)
                    if s.recv(10):
                        break
                except OSError:
                    pass
                finally:
                    s.close()
            time.sleep(.004)
    return pr.poll(), open(os.path.join(w.dir, "try.err"), errors="replace").read(), pr


BADURI = ["", "foo", "ftp://x/", "http://", "//x", "mailto:x@y", "http://[::1", "http://a b/", "https://:80/", "http:///", "localhost:8080", "/path", "http://x:99999/", "file:///etc/passwd", "httpss://x", "data:,x", "http://%zz/", "https"]
BADTIME = ["18446744073709551616s", "999999999999999999999999d", "9223372036854775808m", "213503982334602d", "213503982334602d", "5124095576030432h", "307445734561825861m", "427007964669203d", "5124095576030432h", "307445734561825861m", "1w", "-1s", "1.5h", "5", "s", "1h30m", "0x1s", "\"1s\"", "1S", "none", "", "1 h", "+1s", "1ms", "١s"]


def invalid(r, A, glob, w, force=None):
    """(kind, configuration bytes) that is certainly invalid."""
    A = [a.copy() for a in A]
    glob = dict(glob)
    items = conf_items(A, glob, r)
    ai = r.choice([i for i, x in enumerate(items) if x[0] == "account"])
    acc = items[ai]
    fields = [x for x in acc if isinstance(x, list)]
    k = r.choice(["deltoken", "duptop", "dupfield", "dupempty", "omit", "baduri", "baduri", "badtime", "badtime", "noacct", "empty", "bothnone", "noneredir", "noneredir2", "unknown", "wronglevel", "wrongtype", "escape", "unterminated",
                  "utf8", "hint", "renamed", "comma", "nocomma", "dupnone", "junk", "keyonly", "nested", "barename", "semis", "case", "quote", "hashcomment"])
    if force is not None:
        k = "badtime"
    if k == "deltoken":
        t = flat(items)
        while True:
            i = r.randrange(len(t))
            # dropping one of these always leaves something ungrammatical
            if t[i] in ("=", ";", "{", "}", "[", "]") or t[i][0] == '"' and t[i - 1] in ("=", "account"):
                break
        k = "deltoken " + (t[i] if t[i][0] != '"' else "string")
        del t[i]
        return k, " ".join(t).encode()
    if k == "duptop":
        for kk in ("auth_notify_cmd", "auth_notify_interval", "error_notify_cmd", "http_listen", "https_listen", "transient_error_if_cmd", "refresh_at_least", "refresh_before_expiry", "refresh_retry", "token_event_cmd"):
            if kk not in glob:
                glob[kk] = '"127.0.0.1:0"' if "listen" in kk else '"true"' if kk.endswith("cmd") else "1h"
        items = conf_items(A, glob, r)
        top = r.choice([x for x in items if x[0] != "account"])
        new = [top[0], "=", r.choice([top[2], top[2], '"127.0.0.1:1"' if "listen" in top[0] else top[2]]), ";"]
        items.insert(r.randrange(len(items) + 1), new)
        k += " " + top[0]
    elif k == "dupfield":
        f = r.choice(fields)
        acc.insert(r.randrange(3, len(acc)), list(f))
        k += " " + f[0]
    elif k == "dupempty":
        f = r.choice([["scopes", "=", "[", "]", ";"], ["auth_uri_fields", "=", "{", "}", ";"]])
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] == f[0])]
        acc.insert(3, list(f))
        acc.insert(r.randrange(3, len(acc)), list(f) if r.random() < .6 else f[:3] + (['"x"'] if f[2] == "[" else ['"x"', ":", '"y"']) + f[3:])
        k += " " + f[0]
    elif k == "omit":
        f = r.choice(["auth_uri", "client_id", "token_uri"])
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] == f)]
        k += " " + f
    elif k == "baduri":
        f = r.choice(["auth_uri", "token_uri", "redirect_uri"])
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] == f)]
        b = r.choice(BADURI)
        acc.insert(r.randrange(3, len(acc)), [f, "=", S(b), ";"])
        k += " %s %r" % (f, b)
    elif k == "badtime":
        b = force if force is not None else r.choice(BADTIME)
        f = r.choice(["refresh_at_least", "refresh_before_expiry", "refresh_retry", "auth_notify_interval"])
        if r.random() < .5 and f != "auth_notify_interval":
            acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] == f)]
            acc.insert(r.randrange(3, len(acc)), [f, "=", b, ";"])
        else:
            items = [x for x in items if x[0] != f]
            items.insert(r.randrange(len(items) + 1), [f, "=", b, ";"])
        k += " %s %r" % (f, b)
    elif k == "noacct":
        items = [x for x in items if x[0] != "account"]
    elif k == "empty":
        return k, r.choice([b"", b"\n", b"// nothing", b" \t\r\n", b"//\n//"])
    elif k == "bothnone":
        items = [x for x in items if "listen" not in x[0]] + [["http_listen", "=", "none", ";"], ["https_listen", "=", "none", ";"]]
        r.shuffle(items)
    elif k in ("noneredir", "noneredir2"):
        which = r.choice(["http", "https"])
        items = [x for x in items if "listen" not in x[0]]
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] == "redirect_uri")]
        if which == "https" or r.random() < .6:
            acc.insert(3, ["redirect_uri", "=", S(r.choice({"http": ["http://localhost/", "HTTP://x/", "hTTp://127.0.0.1:80/x"], "https": ["https://localhost/", "HTTPS://localhost/", "Https://x:443/"]}[which])), ";"])
        items.insert(r.randrange(len(items) + 1), [which + "_listen", "=", "none", ";"])
        k += " " + which
    elif k == "unknown":
        b = r.choice(["frobnicate", "accounts", "Account", "client", "scope", "refresh", "auth_url", "é", "http_listener"])
        if r.random() < .5:
            acc.insert(3, [b, "=", '"x"', ";"])
        else:
            items.insert(0, [b, "=", '"x"', ";"])
    elif k == "wronglevel":
        if r.random() < .5:
            items.append(r.choice([["client_id", "=", '"x"', ";"], ["scopes", "=", "[", "]", ";"], ["auth_uri", "=", '"http://x/"', ";"], ["login_hint", "=", '"x"', ";"]]))
        else:
            acc.insert(3, r.choice([["http_listen", "=", "none", ";"], ["auth_notify_cmd", "=", '"x"', ";"], ["auth_notify_interval", "=", "1m", ";"], ["token_event_cmd", "=", '"x"', ";"], ["account", '"y"', "{", "}"]]))
    elif k == "wrongtype":
        f = r.choice(fields)
        i = acc.index(f)
        v = {"scopes": ['"x"'], "auth_uri_fields": r.choice([['"x"'], ["[", "]"], ["{", '"x"', "}"]])}.get(f[0], r.choice([["1234"], ["none"], ["[", "]"], ["{", "}"], ["account"]]))
        acc[i] = [f[0], "=", v, ";"]
        k += " " + f[0]
    elif k == "escape":
        acc[1] = r.choice(['"a\\n"', '"\\t"', '"\\x41"', '"\\u00e9"', '"\\\'"', '"\\ "', '"\\\n"'])
    elif k == "unterminated":
        return k, (render(items, r, "plain") + r.choice(['"', 'http_listen = "', 'account "x', 'account "x" {', "account", "http_listen ="])).encode()
    elif k == "utf8":
        b = render(items, r, "plain").encode()
        i = r.randrange(len(b))
        return k, b[:i] + r.choice([b"\xff", b"\xc3\x28", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80"]) + b[i:] if True else b
    elif k == "hint":
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] in ("login_hint", "auth_uri_fields"))]
        acc.insert(3, ["login_hint", "=", '"a"', ";"])
        acc.insert(r.choice([3, 4]), ["auth_uri_fields", "=", "{", '"x"', ":", '"y"', ",", '"login_hint"', ":", '"b"', "}", ";"])
    elif k == "renamed":
        items.insert(r.randrange(len(items) + 1), ["auth_error_cmd", "=", '"x"', ";"])
    elif k == "comma":
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] in ("scopes", "auth_uri_fields"))]
        acc.insert(3, r.choice([["scopes", "=", "[", '"a"', ",", "]", ";"], ["scopes", "=", "[", ",", '"a"', ",", "]", ";"], ["auth_uri_fields", "=", "{", '"a"', ":", '"b"', ",", "}", ";"]]))
    elif k == "nocomma":
        acc[:] = [x for x in acc if not (isinstance(x, list) and x[0] in ("scopes", "auth_uri_fields"))]
        acc.insert(3, r.choice([["scopes", "=", "[", '"a"', '"b"', "]", ";"], ["auth_uri_fields", "=", "{", '"a"', ":", '"b"', '"c"', ":", '"d"', "}", ";"], ["auth_uri_fields", "=", "{", '"a"', "=", '"b"', "}", ";"]]))
    elif k == "dupnone":
        l = r.choice(["http_listen", "https_listen"])
        items = [x for x in items if "listen" not in x[0]]
        vs = r.choice([("none", "none"), ("none", '"127.0.0.1:0"'), ('"127.0.0.1:0"', "none")])
        for a in A:
            a.redirect_uri = "https://localhost/" if l == "http_listen" else "http://localhost/"
        items = [x for x in conf_items(A, glob, r) if "listen" not in x[0]]
        for v in vs:
            items.insert(0, [l, "=", v, ";"])
        items[:2] = items[:2][::-1]
        k += " %s %s" % (l, vs)
    elif k == "junk":
        return k, bytes(r.randrange(32, 127) for _ in range(r.choice([1, 50, 2000]))).replace(b"//", b"/x") + b"!"
    elif k == "keyonly":
        items.append([r.choice(["none", "account", "scopes", ";", "}", "{", "=", ",", ":", '"x"', "1s", "5"])])
    elif k == "nested":
        return k, b"account \"x\" " + b"{" * r.choice([2, 50, 3000])
    elif k == "barename":
        acc[1] = "name"
    elif k == "semis":
        acc.append(";")
    elif k == "case":
        acc[0] = "ACCOUNT"
    elif k == "quote":
        acc[1] = "'x'"
    elif k == "hashcomment":
        items.insert(0, ["# a comment\n"])
    return k, render(items, r, r.choice(["plain", "plain", "wild"])).encode()


def small_conf(w, r):
    A = [w.acct("alpha", auth_uri_fields=[("k", "v")]), w.acct("beta", client_secret=None, scopes=None)]
    return A, {"auth_notify_cmd": '"AN run"', "token_event_cmd": '"TE run"', "error_notify_cmd": '"EN run"', "refresh_at_least": "80d", "refresh_retry": "90s"}


@scenario(["C21", "C04", "C30"], n=30, nt=1000, limit=240)
def refused(c):
    """Invalid configurations, given to a running server by reload and to new ones."""
    r = c.rng
    w = c.world(verbose=0, frozen=False)
    A, glob = small_conf(w, r)
    w.default_policy = lambda q: w.grant(q, 10**7)
    lst = r.choice([{}, {}, {"http_listen": "none"}, {"https_listen": "none"}])
    if "http_listen" in lst:
        for a in A:
            a.redirect_uri = "https://localhost/"
    g = dict(glob, **lst)
    w.start(A, g)
    u = w.auth_url("alpha")
    w.authorise("beta")
    w.settle()
    stat, tok = w.raw_sock(b"status:"), w.token("beta")
    desc = {n: v[0] for n, v in codec.decode(w.raw_sock(b"dump:")).items()}
    nrun, nreq = len(w.sh.runs), len(w.reqs)
    # a valid configuration really is accepted by both routes, else refusing means nothing
    rc, er, p = try_server(w, render(conf_items(A, g, r), r))
    p.kill()
    p.wait()
    c.check(rc is None, ["C20"], "a valid configuration was refused: %s %s" % (rc, er))
    for i in range(14 if c.tier == "quick" else 30):
        k, b = invalid(r, A, g, w, BADTIME[(c.idx * 4 + i // 3) % len(BADTIME)] if i % 3 == 2 else None)
        if r.random() < .4 and lst:
            # valid in itself, but the running server has no such listener; or not even valid in itself
            k = "missing listener"
            sch = "http" if "http_listen" in lst else "https"
            uri = "%s://%s%s%s" % (sch, r.choice(["localhost", "127.0.0.1", "[::1]", "cb.example.org"]), r.choice(["", "", ":80", ":443", ":8443", ":1", ":65535"]), r.choice(["/", "", "/cb", "/a/b?x=1"]))
            a2 = [a.copy(redirect_uri=uri) for a in A]
            i = r.randrange(len(a2))
            if r.random() < .5:
                a2 = [x if j == i else A[j] for j, x in enumerate(a2)]
            if r.random() < .5:
                k = "needs listener"
                b = conf_text(a2, g).encode()
            else:
                b = conf_text(a2, glob).encode()
        if r.random() < .6 or k == "missing listener":
            if r.random() < .05:
                if os.path.exists(w.conf):
                    os.unlink(w.conf)
                k = "missing file"
            else:
                w.write_conf(text=b)
            x = w.cli("reload")
            c.check(x.rc == 1 and x.err.strip() and not x.out, ["C21"], "reload of an invalid configuration (%s): %s\n%s" % (k, x, b[:2000]))
            c.check(re.sub(r"^\S+:?\s*|error:?", "", x.err.strip()).strip() != "", ["C21"], "reload of an invalid configuration (%s) gives no reason: %s" % (k, x))
            w.settle()
            c.check(w.alive(), ["C21", "C22"], "the server died of an invalid configuration (%s)" % k)
            s2 = {n: v[0] for n, v in codec.decode(w.raw_sock(b"dump:")).items()}
            c.check(w.raw_sock(b"status:") == stat and s2 == desc and len(w.sh.runs) == nrun and len(w.reqs) == nreq, ["C21", "C04"], "a refused reload (%s) changed something:\n%s\n%s, dump %s, runs %s" % (k, stat, w.raw_sock(b"status:"), s2, w.sh.runs[nrun:]))
            c.check(w.raw_sock(b"showtoken:withurl alpha") == b"pending:" + u.encode() and w.token("beta") == tok, ["C21", "C04"], "a refused reload (%s) cost a token or pending request" % k)
            c.case(("reload", k.split(" ")[0]))
        else:
            args = r.choice([("-d",), ("-d",), ()])
            e = {}
            rc, er, p = try_server(w, b, args)
            try:
                sp = os.path.join(w.dir, "try", "pizauth", "pizauth.sock")
                c.check(rc is not None and rc != 0 and "panicked" not in er, ["C21"] if rc != 101 else ["C21", "C22"], "a server was started with an invalid configuration (%s): exit code %s, stderr %r\n%s" % (k, rc, er, b[:2000]))
                c.check(er.strip() != "", ["C21", "C30"], "an invalid configuration (%s) is refused without a reason" % k)
                c.check(not os.path.exists(sp), ["C21", "C30"], "a server with an invalid configuration (%s) left a socket" % k)
            finally:
                if p.poll() is None:
                    p.kill()
                p.wait()
            c.case(("start", k.split(" ")[0], args))
    # still fully in force, and a good one is accepted again
    w.write_conf(A, g)
    x = w.cli("reload")
    c.check(x.rc == 0, ["C20", "C04"], "reload of the original configuration: %s" % x)
    c.check(w.raw_sock(b"showtoken:withurl alpha") == b"pending:" + u.encode() and w.token("beta") == tok, ["C04"], "reload of the same configuration lost something")


@scenario(["C21", "C22", "C04"], n=16, nt=600, limit=240)
def fuzzed(c):
    """Configurations mangled at random: whatever the verdict, no crash, both routes agree, and a refusal changes nothing."""
    r = c.rng
    w = c.world(verbose=0, frozen=False)
    A, glob = small_conf(w, r)
    w.start(A, glob)
    good = open(w.conf, "rb").read()
    u = w.auth_url("alpha")
    w.settle()
    toks = [b"account", b"auth_uri", b"=", b";", b"{", b"}", b"[", b"]", b",", b":", b'"', b"none", b"1s", b"99999999999999999999d", b"//", b"\\", b'\\"', b"\n", b"\0", "é".encode(), b"http_listen", b"scopes", b"auth_uri_fields", b"login_hint", b'"http://x/"', b"0", b"18446744073709551615s", b"18446744073709551615d"]
    acc = ref = 0
    for i in range(14 if c.tier == "quick" else 40):
        b = bytearray(good if r.random() < .6 else render(conf_items(A, glob, r), r).encode())
        for _ in range(r.choice([1, 1, 2, 3, 8])):
            o = r.randrange(6)
            p = r.randrange(len(b) + 1)
            if o == 0:
                b[p:p] = r.choice(toks)
            elif o == 1:
                del b[p:p + r.choice([1, 1, 3, 30])]
            elif o == 2 and p < len(b):
                b[p] = r.randrange(256)
            elif o == 3:
                q = r.randrange(len(b) + 1)
                b[p:p] = b[min(p, q):max(p, q)][:200]
            elif o == 4:
                ls = bytes(b).split(b"\n")
                r.shuffle(ls)
                b = bytearray(b"\n".join(ls))
            else:
                b = b[:p]
        b = bytes(b)
        w.write_conf(text=b)
        x = w.cli("reload")
        w.settle()
        c.check(w.alive(), ["C21", "C22"], "the server died of %r" % b)
        c.check(x.rc in (0, 1) and (x.rc == 0) == (not x.err.strip()), ["C21", "C28"], "reload of %r: %s" % (b, x))
        if x.rc == 1:
            ref += 1
            c.check(w.raw_sock(b"showtoken:withurl alpha") == b"pending:" + u.encode(), ["C21", "C04"], "a refused reload cost a pending request (%r)" % b)
        else:
            acc += 1
            c.check(w.raw_sock(b"status:").startswith(b"ok:"), ["C22", "C29"], "status after reload of %r" % b)
        if r.random() < .25:
            rc, er, pr = try_server(w, b)
            try:
                # http_listen/https_listen addresses only matter to a new server
                c.check("panicked" not in er and rc in (None, 1), ["C21", "C22"], "server start with %r: %s %s" % (b, rc, er))
                if b"_listen" not in b:
                    c.check((rc is None) == (x.rc == 0), ["C21", "C20"], "reload says %s, server start says %s %s to %r" % (x, rc, er, b))
            finally:
                if pr.poll() is None:
                    pr.kill()
                pr.wait()
        if x.rc == 0:
            w.write_conf(text=good)
            c.check(w.cli("reload").rc == 0, ["C20"], "reload of the original")
            w.settle()
            u2 = w.raw_sock(b"showtoken:withurl alpha")[8:].decode()
            u = u2
    c.case(("fuzzed", acc > 0, ref > 0))

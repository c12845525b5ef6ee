"""Configurations that differ by a hair: all that is held for the account is severed (reload) or left out (restore)."""
import random
from . import codec
from .core import scenario
from .world import *

FIELDS = ["auth_uri", "auth_uri_fields", "client_id", "client_secret", "redirect_uri", "scopes", "token_uri"]


def text_near(r, v):
    """Texts that are not v but easily taken for it."""
    o = [v + " ", " " + v, v + "\n", v + "\0", v[:-1], v[1:], v + v[-1:], v + "é", v.upper(), v.lower(), v.swapcase(), v[::-1], v.replace("é", "e\u0301"), v.replace("-", "_"), v.replace("a", "\u0430", 1), ""]
    return r.choice([x for x in o if x != v])


def uri_near(r, v):
    o = [v + "/", v + "//", v.rstrip("/") if v.count("/") > 3 else v + "/x", v + ("&" if "?" in v else "?") + "a=b", v + ("&" if "?" in v else "?"), v + "#", v + "#f", v.replace("://", "://u@", 1), v.replace("://", "://u:p@", 1),
         v[:-1] + v[-1].swapcase() if v[-1].isalpha() and v.count("/") > 2 else v + "/y", v + "%20" if v.count("/") > 2 else v + "/%20"]
    return r.choice([x for x in o if x != v])


def hostport(v):
    """(scheme, authority, rest)"""
    s, x = v.split("://", 1)
    i = min([x.index(ch) for ch in "/?#" if ch in x] or [len(x)])
    return s, x[:i], x[i:]


def base_acct(w, r, n):
    ts = w.server_for(n)
    fl = [("zeta", "1 2"), ("Alpha", "x&y=z"), ("alpha", "x"), ("zeta", "3")]
    r.shuffle(fl)
    return w.acct(n, client_id=r.choice(["cid-%s", "Cid %s é-a", "c%s"]) % n, client_secret=r.choice([None, "se-cret a é%s" % n, "s%s" % n, ""]),
                  scopes=r.choice([["b", "a", "c"], ["a", "a"], ["a b", "c"], ["s"], ["a", "b", "a"], ["S", "s"], []]),
                  auth_uri_fields=r.choice([fl, fl[:2], fl[:1], [], [("k", ""), ("", "k")], [("a", "b"), ("a", "b")]]),
                  redirect_uri=r.choice(["http://localhost/", "http://localhost/cb", "http://127.0.0.1:99/a?q=1", "http://localhost:8080/x/"]),
                  auth_uri=r.choice(["https://auth.example.com/a", "https://auth.example.com/é/?q=1", "http://auth.example.com:81/", "https://auth.example.com/a/b?x=y&z=%20"]),
                  login_hint=r.choice([None, None, None, "me@x"]),
                  token_uri=ts.uri(r.choice(["/%s/token", "/%s/Token/", "/%s/t?x=1&y=2", "/%s"]) % n))


def list_near(r, v, pairs):
    """An order, presence, multiplicity or value change of a list. -> (how, new)"""
    new = ("new", "n") if pairs else "new"
    o = [("add first", [new] + v), ("add last", v + [new])]
    if v:
        i = r.randrange(len(v))
        o += [("drop", v[:i] + v[i + 1:]), ("dup adjacent", v[:i + 1] + v[i:]), ("dup last", v + [v[i]]), ("none", [])]
        if len(v) > 1:
            j = r.choice([x for x in range(len(v)) if x != i])
            u = list(v)
            u[i], u[j] = u[j], u[i]
            o += [("swap", u), ("swap", u), ("reverse", v[::-1]), ("rotate", v[1:] + v[:1]), ("sort", sorted(v)), ("overwrite", v[:i] + [v[j]] + v[i + 1:]), ("unique", list(dict.fromkeys(v)))]
            if pairs:
                u = list(v)
                u[i], u[j] = (u[i][0], u[j][1]), (u[j][0], u[i][1])
                o += [("swap values", u)]
            else:
                o += [("join", [" ".join(v)]), ("join some", v[:i] + ([v[i] + " " + v[i + 1]] + v[i + 2:] if i + 1 < len(v) else v[i:]))]
        e = v[i]
        if pairs:
            o += [("value", v[:i] + [(e[0], text_near(r, e[1]) if e[1] else "x")] + v[i + 1:]), ("key", v[:i] + [(text_near(r, e[0]) if e[0] else "x", e[1])] + v[i + 1:]), ("key<->value", v[:i] + [(e[1], e[0])] + v[i + 1:])]
        else:
            o += [("value", v[:i] + [text_near(r, e)] + v[i + 1:])]
            if " " in e:
                o += [("split", v[:i] + e.split(" ") + v[i + 1:])]
    o = [x for x in o if x[1] != v]
    return r.choice(o)


def near_variant(w, r, a, field=None):
    """-> (description, a copy of a differing in one security-relevant field)"""
    k = field or r.choice(FIELDS)
    v = getattr(a, k)
    if k == "auth_uri_fields" and (a.login_hint is not None or r.random() < .15) and r.random() < .5:
        # (the deprecated way to write one of them)
        v = a.login_hint
        x = "hint" if v is None else None if r.random() < .4 else text_near(r, v)
        return "login_hint %r -> %r" % (v, x), a.copy(login_hint=x)
    if k == "client_id":
        x = text_near(r, v)
        return "client_id %r -> %r" % (v, x), a.copy(client_id=x)
    if k == "client_secret":
        x = r.choice(["", "new"]) if v is None else "new" if v == "" and r.random() < .5 else None if r.random() < .3 or v == "" else text_near(r, v)
        return "client_secret %r -> %r" % (v, x), a.copy(client_secret=x)
    if k == "scopes":
        h, x = list_near(r, list(v), False)
        return "scopes %s %r -> %r" % (h, v, x), a.copy(scopes=x)
    if k == "auth_uri_fields":
        h, x = list_near(r, list(v), True)
        return "auth_uri_fields %s %r -> %r" % (h, v, x), a.copy(auth_uri_fields=x)
    s, h, rest = hostport(v)
    o = [uri_near(r, v), uri_near(r, v)]
    if k == "auth_uri":
        o += [{"http": "https", "https": "http"}[s] + "://" + h + rest, s + "://" + h.split(":")[0] + ":8443" + rest, s + "://x" + h + rest, s + "://" + h.replace(".com", ".com.") + rest]
    elif k == "redirect_uri":
        hn = h.split(":")[0]
        o += ["https://" + h + rest, s + "://" + hn + (":81" if ":" in h else ":99") + rest, s + "://" + {"localhost": "127.0.0.1", "127.0.0.1": "localhost"}[hn] + h[len(hn):] + rest, s + "://" + hn + ":81" + rest]
        if ":" in h:
            o += [s + "://" + hn + rest]
    else:
        o += [s + "://localhost:" + h.split(":")[1] + rest]
    x = r.choice([y for y in o if y != v])
    return "%s %r -> %r" % (k, v, x), a.copy(**{k: x})


@scenario(["C03", "C18", "C02"], n=72, nt=2400)
def hairs(c):
    """Accounts in every state; each changes by a hair (or not at all); then the old configuration returns, and a dump is restored under the new one."""
    r = c.rng
    w = c.world(verbose=0)
    n = 10
    A = [base_acct(w, r, "a%d" % i) for i in range(n)]
    w.default_policy = lambda q: HOLD
    glob = {"refresh_at_least": "100d", "token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"', "error_notify_cmd": '"EN run"', "auth_notify_interval": "90d"}
    w.start(A, glob)
    kind, url, tok, var, how = {}, {}, {}, {}, {}
    order = r.sample(A, n)
    fields = FIELDS[c.idx % 7:] + FIELDS[:c.idx % 7]
    for i, a in enumerate(order):
        x = a.name
        kind[x] = k = r.choice("APXRXR" if i < 7 else "APXR")
        if i < 7:
            how[x], var[x] = near_variant(w, r, a, fields[i])
        elif i < 8:
            how[x], var[x] = near_variant(w, r, a)
        else:
            how[x], var[x] = None, a
        url[x] = w.auth_url(x)
        if k == "P":
            continue
        w.callback(url[x], code="code-" + x)
        w.settle()
        if k == "X":
            continue
        q = w.held(x)[0]
        q.release(w.grant(q, 10**7))
        w.settle()
        tok[x] = q.issued["access"]
        if k == "R":
            w.cli("refresh", x)
            w.settle()
    flight = {q.act: q for q in w.held()}
    c.check(set(flight) == {x for x in kind if kind[x] in "XR"}, ["C07", "C11"], "preparation: in flight %s" % flight)
    dumped = w.raw_sock(b"dump:")
    nreq, nrun = len(w.reqs), len(w.sh.runs)

    def states():
        return {l.split(": ", 1)[0]: l.split(": ", 1)[1] for l in w.raw_sock(b"status:").decode()[3:].split("\n")}

    def look(when):
        st = states()
        d = codec.decode(w.raw_sock(b"dump:"))
        for x in kind:
            if how[x]:
                c.check(st[x] == "No access token" and d[x][1] is None, ["C03"], "%s (%s) after its %s, %s: status %r, dump %s" % (x, kind[x], how[x], when, st[x], d[x][1]))
            elif kind[x] in "PX":
                c.check("pending" in st[x] and d[x][1] is None, ["C04"], "%s (%s), unchanged, %s: %r" % (x, kind[x], when, st[x]))
            else:
                c.check(d[x][1] and d[x][1]["access"] == tok[x], ["C04"], "%s (%s), unchanged, %s: %s" % (x, kind[x], when, d[x][1]))

    w.write_conf([var[a.name] for a in A], glob)
    rl = w.cli("reload")
    c.check(rl.rc == 0, ["C20", "C03"], "reload of a valid configuration: %s (%s)" % (rl, how))
    w.settle()
    look("after the reload")
    back = r.choice(["answer", "back", "restore"])
    if back == "back":
        w.write_conf(A, glob)
        rl = w.cli("reload")
        c.check(rl.rc == 0, ["C20"], "reload: %s" % rl)
        w.settle()
        look("after the old configuration returned")
    elif back == "restore":
        res = w.cli("restore", input=dumped)
        c.check(res.rc == 0, ["C18"], "restore: %s" % res)
        w.settle()
        st = states()
        d = codec.decode(w.raw_sock(b"dump:"))
        for x in kind:
            if how[x]:
                c.check(st[x] == "No access token" and d[x][1] is None, ["C18", "C03"], "%s (%s) was restored from a dump despite its %s: %s" % (x, kind[x], how[x], d[x][1]))
            c.case(("restore", how[x].split(" ")[0:2] if how[x] else None, kind[x]), kind[x] in "AR")
    # old URLs and old work
    for x in kind:
        if how[x]:
            w.callback(url[x], code="late-" + x, https=False, host="localhost:%d" % w.ports["http_port"])
    w.settle()
    c.check(len(w.reqs) == nreq, ["C03", "C02", "C06"], "the redirect of a severed request made pizauth contact a token server: %s" % w.reqs[nreq:])
    for x, q in flight.items():
        q.release(r.choice([w.grant(q, 10**7), J({"error": "invalid_grant"}, 400, "Bad"), CLOSE]) if how[x] else w.grant(q, 10**7))
        if not how[x]:
            tok[x] = q.issued["access"]
            kind[x] = "A"
    w.settle()
    if not w.confirm(lambda: w.held() != []):
        look("after its in-flight work was answered (%s)" % back)
    ev = [x for x in w.sh.runs[nrun:] if how[x.act]]
    c.check(not ev, ["C03", "C13", "C15", "C09"], "a severed account caused commands: %s" % ev)
    if back == "back":
        # the dump fits again
        res = w.cli("restore", input=dumped)
        w.settle()
        d = codec.decode(w.raw_sock(b"dump:"))
        for x in kind:
            if how[x] and x in tok:
                c.check(d[x][1] and d[x][1]["access"] == tok[x], ["C18", "C17"], "%s isn't restored under its old configuration: %s" % (x, d[x][1]))
    for x in kind:
        if how[x]:
            c.case(("hair", tuple(how[x].split(" ")[:2]), kind[x], back), True)

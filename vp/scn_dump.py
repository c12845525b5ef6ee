"""Directed scenarios for dump and restore."""
import json, os, random, re, struct, time
from email.utils import parsedate_to_datetime
from . import codec
from .core import scenario
from .world import *
from .walk import secs
from .scn_http import rtext

NAMES = ["a", "alice@example.com", "b b", "Zoë", "日本語", "x\"y", "back\\slash", "a-u", "a:b", "😀", "null", "0"]


def rname(r, used):
    while True:
        n = r.choice(NAMES) if r.random() < .7 else rtext(r, 3)
        if n not in used and "\n" not in n and n[0] != "-":
            used.add(n)
            return n


def racct(w, r, name, **kw):
    a = dict(
        client_secret=r.choice([None, "", "cs-" + rtext(r, 3), "cs-" + rtext(r, 1)]), client_id="cid" + rtext(r, 2),
        scopes=r.choice([None, [], ["s"], [rtext(r, 2) for _ in range(3)], ["s", "s"]]),
        auth_uri_fields=r.choice([None, [], [("k", rtext(r, 2))], [("k", "1"), ("k", "2")]]),
        redirect_uri=r.choice([None, "http://localhost/", "http://localhost/cb", "http://127.0.0.1:99/", "https://localhost/x"]),
        auth_uri=r.choice(["https://auth.example.com/a", "https://auth.example.com/é?q=1", "http://auth.example.com:81/"]))
    a.update(kw)
    return w.acct(name, **a)


def near(a, b, tol=2.0):
    return abs(a - b) <= tol


def token_state(x):
    return None if x is None else (x["access"], x["refresh"])


@scenario(["C17", "C10", "C08", "C01", "C14"], n=28, nt=600)
def roundtrip(c):
    """dump | restart | restore: as if the server had never stopped."""
    r = c.rng
    w = c.world(verbose=0)
    used = set()
    glob = {"token_event_cmd": '"TE run"'}
    times = {}
    for k, lo, hi in (("refresh_at_least", 1000, 9000), ("refresh_before_expiry", 60, 300)):
        if r.random() < .5:
            glob[k] = "%ds" % r.randrange(lo, hi)
    A = [racct(w, r, rname(r, used), refresh_at_least=r.choice([None, None, "50m", "100d"]), refresh_before_expiry=r.choice([None, None, "200s"])) for _ in range(r.choice([1, 4, 6]))]
    hold = [False]
    life = {}

    def pol(q):
        if hold[0]:
            return HOLD
        life[q.act] = r.choice([700, 3600, 7200, 86400, 10**7, 10**9])
        noref = r.random() < .2
        q2 = w.grant(q, life[q.act], refresh=not noref)
        if r.random() < .3:
            # tokens of any shape survive unchanged
            d = json.loads(q2[4])
            odd = r.choice(["", " ", "é😀", "\x00", "x" * 5000, " R%d " % len(w.reqs), "null", "a:b", "\n"])
            if not noref:
                d["refresh_token"] = q.issued["refresh"] = odd
            if r.random() < .5:
                d["access_token"] = q.issued["access"] = r.choice([w.mint(q.act, "AT") + " é\t:", " " + w.mint(q.act, "AT"), w.mint(q.act, "AT") * 300])
            q2 = J(d)
        return q2

    w.default_policy = pol
    w.start(A, glob)
    st = {}
    for a in A:
        k = r.choice(["tok", "tok", "tok", "empty", "pend", "refreshing", "failed", "exchanging"])
        st[a.name] = k
        if k == "empty":
            continue
        u = w.auth_url(a.name)
        if k == "pend":
            continue
        hold[0] = k == "exchanging"
        w.callback(u, code="c")
        w.settle()
        hold[0] = False
        if k in ("refreshing", "failed"):
            if k == "failed":
                w.down(a.ts)
            hold[0] = True
            w.cli("refresh", a.name)
            w.settle()
            hold[0] = False
            w.up(a.ts)
        if r.random() < .5:
            hold[0] = True
            w.advance(r.uniform(.1, 25))
            hold[0] = False
    # dumping changes nothing, and agrees with itself
    before_status = w.raw_sock(b"status:")
    nreq, nrun = len(w.reqs), len(w.sh.runs)
    d1 = w.dump()
    c.check(d1.rc == 0, ["C17", "C28"], "dump failed: %s" % d1.err)
    D = codec.decode(d1.out)
    D2 = codec.decode(w.dump().out)
    w.settle()
    same = D.keys() == D2.keys() and all(D[k][0] == D2[k][0] and token_state(D[k][1]) == token_state(D2[k][1]) for k in D)
    c.check(same and w.raw_sock(b"status:") == before_status and len(w.reqs) == nreq and len(w.sh.runs) == nrun, ["C17"], "dumping changed something: %s then %s" % (D, D2))
    c.check(set(D) == {a.name for a in A}, ["C17"], "the dump is about %s" % sorted(D))
    for a in A:
        k = st[a.name]
        has = k in ("tok", "refreshing", "failed")
        if has and k != "tok" and D[a.name][1] is None:
            # no refresh token was issued: refreshing invalidates
            st[a.name] = k = "empty"
            has = False
        c.check((D[a.name][1] is not None) == has, ["C17", "C19"], "%s is %s but dumped as %s" % (a.name, k, D[a.name][1]))
        g = [q.issued for q in w.reqs if q.act == a.name and getattr(q, "issued", None)]
        if has and g:
            c.check(token_state(D[a.name][1]) in {(x["access"], x["refresh"] if x["refresh"] is not None else y["refresh"]) for x in g[-1:] for y in g}, ["C17", "C13"], "%s was issued %s but is dumped as %s" % (a.name, g, D[a.name][1]))
    for q in w.held():
        q.release(RESET)
    off = w.real_now() - w.now()
    w.kill()
    # while no server runs: time passes; maybe the machine is rebooted (monotonic and boot clocks start again)
    gap = r.choice([0, 1, 50, 3000, 20000, 86400])
    if r.random() < .4:
        up = r.choice([20, 1000, 50000])
        w.ctl.mono_off = int(up * NS) - w.ctl.base
        w.ctl.boot_off = int(up * NS) - w.ctl.base
        reboot = True
        gap = max(gap, up)
    else:
        reboot = False
    w.ctl.base += int(gap * NS)
    w.ctl.epoch += 1
    if reboot:
        w.ctl.boot_off -= int(gap * NS)
        w.ctl.mono_off -= int(gap * NS)
    n0 = len(w.reqs)
    r0 = len(w.sh.runs)
    hold[0] = True
    perm = list(A)
    r.shuffle(perm)
    w.start(perm, glob)
    w.settle()
    c.check(all(v[1] is None for v in codec.decode(w.raw_sock(b"dump:")).values()), ["C27", "C17"], "a fresh server has tokens")
    res = w.cli("restore", input=d1.out)
    c.check(res.rc == 0 and not res.out and not res.err, ["C17", "C28"], "restore of a good dump: %s" % res)
    w.settle()
    E = codec.decode(w.dump().out)
    now_r = w.real_now()
    for a in A:
        x, y = D[a.name][1], E[a.name][1]
        if x is not None and y is None and not w.sh.runs[r0:]:
            c.fail(["C17"], "%s's token was not restored" % a.name)
        if x is None:
            c.check(y is None, ["C17"], "%s had no token but was restored to %s" % (a.name, y))
            continue
        due_real = min(x["expiry"] - (secs(a.refresh_before_expiry or glob.get("refresh_before_expiry", "90s"))), x["obtained"] + secs(a.refresh_at_least or glob.get("refresh_at_least", "90m")))
        q = [z for z in w.reqs[n0:] if z.act == a.name]
        if due_real <= now_r - 1:
            # it fell due meanwhile
            if x["refresh"] is None:
                w.settle()
                c.check(not w.confirm(lambda: [z.event for z in w.sh.runs[r0:] if z.act == a.name and z.kind == "TE"] != ["token_invalidated"]), ["C17", "C13", "C10"],
                        "a restored, due token without a refresh token: events %s" % w.sh.runs[r0:])
            else:
                c.check(not w.confirm(lambda: len([z for z in w.reqs[n0:] if z.act == a.name]) != 1), ["C17", "C10"], "%s's refresh fell due before the restore but %d were started" % (a.name, len(q)))
                q = [z for z in w.reqs[n0:] if z.act == a.name]
                c.check(q[0].f("refresh_token") == x["refresh"], ["C17", "C08"], "refresh of a restored token: %r instead of %s" % (q[0], x["refresh"]))
        elif due_real > now_r + 1:
            c.check(not q, ["C17", "C10"], "%s's refresh is due in %.0f s, yet the restore started it" % (a.name, due_real - now_r))
        if y is not None:
            c.check(token_state(x) == token_state(y), ["C17", "C01"], "%s: dumped %s, restored %s" % (a.name, x, y))
            c.check(near(x["obtained"], y["obtained"]) and near(x["expiry"], y["expiry"]), ["C17", "C14"], "%s's times changed from %s to %s" % (a.name, x, y))
            s = w.show(a.name, "-u") if not a.name.startswith("-") else None
            if s and y["expiry"] > now_r + 1:
                c.check(s.rc == 0 and s.out == x["access"] + "\n", ["C17", "C01"], "%s's restored token: show says %r" % (a.name, s))
            elif s and y["expiry"] < now_r - 1:
                c.check(s.rc == 1 and x["access"] not in s.out, ["C17", "C01", "C14"], "%s's restored token ran out: show says %r" % (a.name, s))
        c.case(("restored", st[a.name], due_real <= now_r, x["expiry"] <= now_r, reboot, x["refresh"] is None), True)
    # an account that had none goes through a normal authorisation
    # later due times are as they would have been
    due = {}
    for a in A:
        y = codec.decode(w.raw_sock(b"dump:"))[a.name][1]
        if y is None or [z for z in w.reqs[n0:] if z.act == a.name]:
            continue
        due[a.name] = min(y["expiry"] - (secs(a.refresh_before_expiry or glob.get("refresh_before_expiry", "90s"))), y["obtained"] + secs(a.refresh_at_least or glob.get("refresh_at_least", "90m")))
    for n, t in sorted(due.items(), key=lambda x: x[1])[:2]:
        if t - w.real_now() < 2.5 or t - w.real_now() > 9e6:
            continue
        k = len(w.reqs)
        for q in w.held():
            q.release(("reply", 200, "OK", [], json.dumps(jbody(w.mint(q.act, "AT"), 10**8)).encode()))
        w.settle()
        if D[n][1]["refresh"] is None:
            continue
        w.advance(t - w.real_now() - 1.5)
        c.check(not [z for z in w.reqs[k:] if z.act == n], ["C17", "C10"], "%s was refreshed early after a restore" % n)
        w.advance(3.2)
        if w.confirm(lambda: not [z for z in w.reqs[k:] if z.act == n]):
            c.fail(["C17", "C10"], "%s was not refreshed when due after a restore" % n)
        z = [z for z in w.reqs[k:] if z.act == n][0]
        c.check(z.f("refresh_token") == D[n][1]["refresh"], ["C17", "C08"], "after a restore the refresh token sent is %s instead of %s" % (z.f("refresh_token"), D[n][1]["refresh"]))
        c.case("due after restore")


def mut_field(r, f, k):
    """Change one field of a dump's account description somehow. -> (how, new description) or None"""
    f = json.loads(json.dumps(f))
    v = f[k]
    if k in ("auth_uri_fields", "scopes"):
        ops = ["add"]
        if v:
            ops += ["drop", "dup", "change"]
        if len(v) > 1 and v[0] != v[1]:
            ops += ["swap"]
        o = r.choice(ops)
        v = [tuple(x) if isinstance(x, list) else x for x in v]
        new = ("zz", "yy") if k == "auth_uri_fields" else "zz"
        if o == "add":
            v.insert(r.randrange(len(v) + 1), new)
        elif o == "drop":
            v.pop(r.randrange(len(v)))
        elif o == "dup":
            v.append(v[0])
        elif o == "swap":
            v[0], v[1] = v[1], v[0]
        else:
            v[0] = (v[0][0], v[0][1] + "x") if k == "auth_uri_fields" else v[0] + "x"
        f[k] = v
        return k + ":" + o, f
    if k == "client_secret":
        if v is None:
            f[k] = r.choice(["", "new"])
            return k + ":set", f
        f[k] = r.choice([None, v + "x", v[:-1], v.swapcase() if v.swapcase() != v else "q"])
        return k + ":" + ("unset" if f[k] is None else "change"), f
    f[k] = r.choice([v + "x", v[:-1], v.replace("e", "E", 1) if "e" in v else v + "q", v.replace("/", "//", 1) if "/" in v else v + "z"])
    return (k + ":change", f) if f[k] != v else None


@scenario(["C18", "C03", "C17"], n=28, nt=600)
def restore_fill(c):
    """Restores into accounts in every state, from dumps that match or nearly match."""
    r = c.rng
    w = c.world(verbose=0)
    used = set()
    A = [racct(w, r, rname(r, used)) for _ in range(7)]
    hold = [False]

    def pol(q):
        if hold[0] or q.grant == "refresh_token":
            return HOLD
        # (some run out long before the restore, their refresh unanswered)
        return w.grant(q, 300 if kind_of.get(q.act) == "O" else 10**7, refresh=kind_of.get(q.act) != "N")

    kind_of = {}
    w.default_policy = pol
    far = "100d"
    w.start(A, {"refresh_at_least": far, "token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"'})
    base = codec.decode(w.raw_sock(b"dump:"))
    cur, url = {}, {}
    ks = sorted((r.choice(["E", "P", "A", "X", "R", "O", "N", "E", "P"]) for _ in A), key=lambda k: k != "O")
    passed = False
    for a, k in zip(r.sample(A, len(A)), ks):
        if k != "O" and ks[0] == "O" and not passed:
            passed = True
            w.advance(400)
        cur[a.name] = [k, None, None]
        kind_of[a.name] = k
        if k == "E":
            continue
        u = w.auth_url(a.name)
        url[a.name] = u
        if k == "P":
            continue
        hold[0] = k == "X"
        w.callback(u, code="c")
        w.settle()
        if k in "ARON":
            q = w.reqs[-1]
            cur[a.name] = [k, q.issued["access"], q.issued["refresh"]]
        if k == "R":
            hold[0] = True
            w.cli("refresh", a.name)
            w.settle()
        hold[0] = False
    w.settle()
    if ks[0] == "O" and not passed:
        w.advance(400)
    d = {}
    how = {}
    for a in A:
        f, _ = base[a.name]
        k = r.random()
        ts = dict(access=w.mint(a.name, "OLD"), obtained=w.real_now() - 100, expiry=w.real_now() + r.choice([5000, 10**6]), refresh=r.choice([None, w.mint(a.name, "OLDR")]))
        if k < .45:
            m = mut_field(r, f, r.choice(list(f)))
            if m:
                how[a.name], f = m
                d[a.name] = (f, ts)
                continue
        if k < .55:
            how[a.name] = "absent"
            continue
        if k < .65:
            how[a.name] = "notoken"
            d[a.name] = (f, None)
            continue
        how[a.name] = "same"
        d[a.name] = (f, ts)
    for i in range(r.randrange(3)):
        # accounts that do not exist here (any longer)
        n = rname(r, used)
        d[n] = (base[A[0].name][0], dict(access="GHOST", obtained=w.real_now(), expiry=w.real_now() + 9999, refresh="GHOSTR"))
    items = list(d.items())
    r.shuffle(items)
    nreq, nrun = len(w.reqs), len(w.sh.runs)
    res = w.cli("restore", input=codec.encode(dict(items)))
    c.check(res.rc == 0, ["C18"], "restore with some inapplicable accounts: %s" % res)
    w.settle()
    now = codec.decode(w.raw_sock(b"dump:"))
    c.check(set(now) == set(base) and all(now[n][0] == base[n][0] for n in base), ["C18"], "a restore changed the configuration: %s" % {n: v[0] for n, v in now.items()})
    c.check(len(w.reqs) == nreq, ["C18", "C17"], "a restore caused token requests: %s" % w.reqs[nreq:])
    c.check(not [x for x in w.sh.runs[nrun:]], ["C18", "C15", "C09"], "a restore ran commands: %s" % w.sh.runs[nrun:])
    st = {}
    for l in w.raw_sock(b"status:").decode()[3:].split("\n"):
        for a in A:
            if l.startswith(a.name + ": ") and l[len(a.name) + 2:].split(" ")[0] in ("No", "Access", "Active"):
                st[a.name] = l[len(a.name) + 2:]
    for a in A:
        n = a.name
        k, at, rt = cur[n]
        x = now[n][1]
        filled = how[n] == "same" and k in "EPX"
        if k in "ARON":
            c.check(token_state(x) == (at, rt), ["C18"], "%s held %s; a restore (%s) made that %s" % (n, (at, rt), how[n], x))
        elif filled:
            c.check(token_state(x) == (d[n][1]["access"], d[n][1]["refresh"]), ["C18", "C17"], "%s (%s) with a matching dump has %s" % (n, k, x))
            s = w.show(n, "-u") if not n.startswith("-") else None
            c.check(s is None or s.out == d[n][1]["access"] + "\n", ["C18", "C17", "C01"], "%s restored: show says %s" % (n, s))
            if k in "PX":
                # the superseded request is dead
                stt = w.callback(url[n], code="late")
                w.settle()
                c.check(len(w.reqs) == nreq, ["C18", "C06", "C02"], "a pending request superseded by a restore still works (%s)" % stt)
        else:
            c.check(x is None, ["C18", "C03"], "%s (%s): a dump differing by %s was restored: %s" % (n, k, how[n], x))
            if k in "PX":
                c.check("pending" in st.get(n, ""), ["C18"], "%s was pending, a restore (%s) made that %r" % (n, how[n], st.get(n)))
                u = w.raw_sock(("showtoken:withurl " + n).encode())
                c.check(u == b"pending:" + url[n].encode(), ["C18"], "%s's pending URL changed by a restore (%s)" % (n, how[n]))
            else:
                c.check(st.get(n, "").startswith("No access"), ["C18"], "%s: status %r" % (n, st.get(n)))
        c.case(("fill", k, how[n]), True)
    # work that was in flight: exchanges superseded by the restore are void, others conclude
    for q in w.held():
        n = q.act
        k, at, rt = cur[n]
        q.release(w.grant(q, 10**6))
        w.settle()
        x = codec.decode(w.raw_sock(b"dump:"))[n][1]
        if k == "X" and how[n] == "same":
            c.check(token_state(x) == (d[n][1]["access"], d[n][1]["refresh"]), ["C18", "C07"], "%s: an exchange superseded by a restore replaced the restored token by %s" % (n, x))
        else:
            c.check(x is not None and x["access"] == q.issued["access"], ["C18", "C07", "C04"], "%s (%s, %s): the result of the in-flight request vanished: %s" % (n, k, how[n], x))
        c.case(("flight", k, how[n]))


GOLDEN = os.path.join(os.path.dirname(__file__), "golden.json")


@scenario(["C19", "C17"], n=10, nt=100)
def old_dumps(c):
    """Dumps as written by earlier releases (recorded byte for byte), and the shape of new ones."""
    r = c.rng
    w = c.world(verbose=0)
    G = json.load(open(GOLDEN))
    for g in r.sample(G, min(3, len(G))):
        w.ctl.real_off = int((g["at"] + r.choice([0, 100])) * NS) - w.ctl.base
        w.ctl.epoch += 1
        w.default_policy = lambda q: HOLD
        w.start(text=g["conf"], args=[])
        w.settle()
        data = bytes.fromhex(g["dump"])
        res = w.cli("restore", input=data)
        c.check(res.rc == 0, ["C19"], "a 1.x dump is refused: %s" % res)
        w.settle()
        for n, (at, rt, ob, ex) in g["tokens"].items():
            b = w.raw_sock(("showtoken:withurl " + n).encode()).decode()
            if at is None:
                c.check(b.startswith("pending:"), ["C19", "C17"], "%s had no token in the dump, now %r" % (n, b))
            else:
                c.check(b == "access_token:" + at, ["C19", "C17"], "%s had %s in the dump, now %r" % (n, at, b))
        E = codec.decode(w.raw_sock(b"dump:"))
        for n, (at, rt, ob, ex) in g["tokens"].items():
            x = E[n][1]
            c.check((x is None) == (at is None) and (x is None or (x["refresh"] == rt and near(x["obtained"], ob) and near(x["expiry"], ex))), ["C19", "C17"], "%s: dumped as %s, golden %s" % (n, x, (at, rt, ob, ex)))
        c.case(("golden", g["name"]))
        w.kill()


@scenario(["C19", "C26"], n=16, nt=300)
def dump_shape(c):
    """No two dumps alike, nothing in clear, always the 1.x format."""
    r = c.rng
    w = c.world(verbose=0)
    used = set()
    A = [racct(w, r, rname(r, used), client_id="clientid-%d-abcdef" % i, client_secret="clientsecret-%d-abcdef" % i, scopes=["scope-%d-abcdef" % i]) for i in range(r.choice([1, 3]))]
    w.start(A, {"refresh_at_least": "100d"})
    for a in A:
        if r.random() < .8:
            w.authorise(a.name) if not a.name.startswith("-") else None
    ds, nonces, heads = set(), set(), []
    N = 40
    secrets = []
    for q in w.reqs:
        secrets += [q.issued["access"], q.issued["refresh"], q.f("code_verifier"), q.f("code")]
    for a in A:
        secrets += [a.client_secret, a.client_id, a.auth_uri, a.token_uri, a.scopes[0]] + ([a.name] if len(a.name.encode()) > 4 else [])
    for i in range(N):
        d = w.raw_sock(b"dump:") if i else w.dump().out
        try:
            D = codec.decode(d)
        except codec.BadDump as e:
            c.fail(["C19"], "a dump is not in the 1.x format: %s" % e)
        c.check(set(D) == {a.name for a in A}, ["C19", "C17"], "accounts in the dump: %s" % sorted(D))
        for a in A:
            f = D[a.name][0]
            c.check(f["client_id"] == a.client_id and f["client_secret"] == a.client_secret and list(f["scopes"]) == a.scopes, ["C19"], "the dump describes %s as %s" % (a.name, f))
        ds.add(d)
        nonces.add(d[:12])
        heads.append(d[12:28])
        for s in secrets:
            b = s.encode()
            for e in (b, base64.b64encode(b)[:-4], b.hex().encode(), b[::-1]):
                if len(e) >= 6:
                    c.check(e not in d, ["C19", "C26"], "a dump contains %r in clear" % s)
    c.check(len(ds) == N and len(nonces) == N, ["C19"], "%d dumps, only %d distinct (%d distinct nonces)" % (N, len(ds), len(nonces)))
    c.check(len(set(heads)) == N, ["C19"], "ciphertexts repeat")
    w.kill()
    w.start()
    nonces2 = {w.raw_sock(b"dump:")[:12] for _ in range(10)}
    c.check(not nonces & nonces2, ["C19"], "a restarted server reuses dump nonces")
    c.case(("shape", len(A), len([1 for q in w.reqs])))


@scenario(["C19", "C22", "C18"], n=24, nt=600)
def bad_dumps(c):
    """Everything that is not a dump is refused and changes nothing."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("one"), w.acct("two"), w.acct("three")]
    w.start(A, {"refresh_at_least": "100d", "token_event_cmd": '"TE run"'})
    for n in ("one", "two"):
        w.authorise(n)
    good = w.dump().out
    D = codec.decode(good)
    fake = codec.encode({n: (v[0], dict(access="FAKE-" + n, obtained=w.real_now(), expiry=w.real_now() + 9999, refresh="F")) for n, v in D.items()})
    w.raw_sock(b"revoke:one")
    pu = w.auth_url("one")
    w.settle()
    snap = {k: (v[0], token_state(v[1])) for k, v in codec.decode(w.raw_sock(b"dump:")).items()}
    stat = w.raw_sock(b"status:")
    nreq, nrun = len(w.reqs), len(w.sh.runs)
    plain = codec.encode_plain({n: (v[0], dict(access="FAKE-" + n, obtained=w.real_now(), expiry=w.real_now() + 9999, refresh="F")) for n, v in D.items()})
    for i in range(14):
        k = r.choice(["empty", "short", "trunc", "flip", "flipnonce", "fliptag", "garbage", "text", "version", "version0", "plaincut", "plainjunk", "plain", "noaead", "append", "prepend", "hugelen", "badutf8", "badtag", "biglen", "twice"])
        src = r.choice([good, fake])
        if k == "empty":
            b = b""
        elif k == "short":
            b = os.urandom(0) + bytes(r.randrange(256) for _ in range(r.randrange(1, 29)))
        elif k == "trunc":
            b = src[:r.choice([r.randrange(len(src)), len(src) - 1, 12, 13, 28, 27])]
        elif k in ("flip", "flipnonce", "fliptag"):
            p = {"flip": r.randrange(len(src)), "flipnonce": r.randrange(12), "fliptag": len(src) - 1 - r.randrange(16)}[k]
            b = src[:p] + bytes([src[p] ^ (1 << r.randrange(8))]) + src[p + 1:]
        elif k == "garbage":
            b = bytes(r.randrange(256) for _ in range(r.randrange(1, 3000)))
        elif k == "text":
            b = r.choice([b"hello\n", b"dump:", b"restore:", b"{}", b"\n", b"ok:"])
        elif k == "version":
            b = codec.encrypt(struct.pack("<Q", r.choice([2, 3, 255, 1 << 32, (1 << 64) - 1, 257])) + plain[8:])
        elif k == "version0":
            b = codec.encrypt(struct.pack("<Q", 0) + plain[8:])
        elif k == "plaincut":
            b = codec.encrypt(plain[:r.randrange(len(plain))])
        elif k == "plainjunk":
            b = codec.encrypt(bytes(r.randrange(256) for _ in range(r.randrange(0, 200))))
        elif k == "plain":
            b = plain
        elif k == "noaead":
            n = bytes(r.randrange(256) for _ in range(12))
            b = n + codec.chacha(codec.KEY, n, plain)
        elif k == "append":
            b = src + r.choice([b"\n", b"\0", src, b"x" * 100])
        elif k == "prepend":
            b = r.choice([b"\n", b"\0", b"restore:"]) + src
        elif k == "hugelen":
            b = codec.encrypt(struct.pack("<QQ", 1, r.choice([1 << 20, 1 << 40, (1 << 64) - 1])) + plain[16:])
        elif k == "biglen":
            b = codec.encrypt(struct.pack("<QQQ", 1, 1, r.choice([1 << 33, (1 << 63), (1 << 64) - 1])) + plain[24:])
        elif k == "badutf8":
            b = codec.encrypt(plain.replace(b"FAKE", b"F\xff\xfeE"))
        elif k == "badtag":
            b = codec.encrypt(plain.replace(struct.pack("<I", 1) + struct.pack("<Q", 8), struct.pack("<I", 7) + struct.pack("<Q", 8)))
        else:
            b = codec.encrypt(codec.encrypt(plain))
        if k == "badtag" and codec.decrypt(b) == plain:
            continue
        if b == src:
            continue
        if r.random() < .5:
            res = w.cli("restore", input=b)
            c.check(res.rc == 1 and res.err.strip() and not res.out, ["C19", "C28"], "restore of something bad (%s): %r" % (k, res))
        else:
            rep = w.raw_sock(b"restore:" + b)
            c.check(rep.startswith(b"error:") and len(rep) > 6, ["C19"], "restore of something bad (%s) was answered %r" % (k, rep))
        w.settle()
        c.check(w.alive(), ["C19", "C22"], "the server died of a bad dump (%s)" % k)
        now = {n: (v[0], token_state(v[1])) for n, v in codec.decode(w.raw_sock(b"dump:")).items()}
        c.check(now == snap and w.raw_sock(b"status:") == stat and len(w.reqs) == nreq and len(w.sh.runs) == nrun, ["C19", "C18"], "a bad dump (%s) changed the state: %s to %s" % (k, snap, now))
        c.case(("bad", k))
    c.check(w.auth_url("one") == pu, ["C19", "C18"], "bad dumps changed a pending URL")
    # and a good one still restores
    res = w.cli("restore", input=fake)
    w.settle()
    c.check(res.rc == 0 and w.token("one") == "FAKE-one" and w.token("three") == "FAKE-three" and w.token("two") == snap["two"][1][0], ["C18", "C19", "C17"], "a good dump after bad ones: %s" % res)


@scenario(["C17", "C29", "C19"], n=12, nt=200)
def odd_times(c):
    """Dumps with strange times, and strange lifetimes in dumps."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("o%d" % i) for i in range(4)]
    w.default_policy = lambda q: HOLD
    w.start(A, {"refresh_at_least": "100d"})
    base = codec.decode(w.raw_sock(b"dump:"))
    d = {}
    now = w.real_now()
    for a in A:
        ob = r.choice([0, 1, now - 10**9, now - 5, now, now + 500, now + 10**9, 4 * 10**9])
        ex = r.choice([0, now - 10, now + 50, now + 10**6, now + 10**10, 2**40, 2**60, 2**62])
        d[a.name] = (base[a.name][0], dict(access=w.mint(a.name, "OLD"), obtained=ob, expiry=ex, refresh=r.choice([None, "R-" + a.name])))
    res = w.cli("restore", input=codec.encode(d))
    w.settle()
    c.check(w.alive() and res.rc == 0, ["C17", "C19", "C22"], "a dump with odd times: %s" % res)
    st = w.cli("status")
    c.check(st.rc == 0 and [l.split(":")[0] for l in st.out.strip().split("\n")] == sorted(a.name for a in A), ["C29"], "status with odd times: %s" % st)
    e = codec.decode(w.dump().out)
    for a in A:
        x, y = d[a.name][1], e[a.name][1]
        if y is None:
            continue
        if x["expiry"] < 2**39:
            c.check(near(x["expiry"], y["expiry"]), ["C17"], "expiry %s became %s" % (x["expiry"], y["expiry"]))
            s = w.show(a.name, "-u")
            if x["expiry"] > w.real_now() + 1 and not [q for q in w.reqs if q.act == a.name and False]:
                c.check(s.out == x["access"] + "\n", ["C17", "C29", "C01"], "%s expires in %.0f s; show: %s" % (a.name, x["expiry"] - w.real_now(), s))
            elif x["expiry"] < w.real_now() - 1:
                c.check(s.rc == 1, ["C17", "C01"], "%s expired %.0f s ago; show: %s" % (a.name, w.real_now() - x["expiry"], s))
        c.case(("odd", a.name, x["obtained"] > now, x["expiry"] > 2**39, x["expiry"] < now))

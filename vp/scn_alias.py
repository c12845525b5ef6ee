"""Work in flight across chains of reloads, restores and revokes: results of one incarnation of an account must never
land in another, however the incarnations are numbered inside the server."""
from .core import scenario
from .world import *

QUIET = {"refresh_at_least": "100d"}
SEC = {
    "client_secret": lambda r, a: a.copy(client_secret="other-%d" % r.randrange(10**6)),
    "client_id": lambda r, a: a.copy(client_id="cid-%d" % r.randrange(10**6)),
    "scopes": lambda r, a: a.copy(scopes=(a.scopes or []) + ["s%d" % r.randrange(10**6)]),
    "auth_uri": lambda r, a: a.copy(auth_uri=a.auth_uri + "%d" % r.randrange(10)),
    "token_uri": lambda r, a: a.copy(token_uri=a.token_uri + "%d" % r.randrange(10)),
    "auth_uri_fields": lambda r, a: a.copy(auth_uri_fields=(a.auth_uri_fields or []) + [("k%d" % r.randrange(100), "v")]),
    "gone": lambda r, a: None,
}


@scenario(["C03", "C04", "C11", "C31", "C07"], racy=True, n=32, nt=1200)
def incarnations(c):
    """Accounts with work in flight are severed by one reload and reborn by later ones, among others that stay; then the
    work finishes. Only the incarnation that began it may profit. (racy: which internal numbers are given out depends on
    the server's hash seeds, so what is seen here need not be seen again.)"""
    r = c.rng
    w = c.world(verbose=0)
    hold = set()
    old = {}      # request -> account name, from a severed incarnation

    def pol(q):
        return HOLD if q.act in hold else w.grant(q, 10**7)

    w.default_policy = pol
    names = ["i%d" % i for i in range(r.choice([2, 3, 5]))]
    base = {n: w.acct(n) for n in names}
    w.start(list(base.values()), dict(QUIET))
    now = dict(base)                      # name -> Acct, configured at the moment
    for rnd in range(r.choice([3, 5])):
        tok = {}                          # name -> token the account must show (None: must have none)
        victims = r.sample(names, r.choice([1, 1, 2]))
        kinds, urls, held = {}, {}, {}
        for n in names:
            tok[n] = w.token(n) if n not in victims else None
            if tok[n] is None and n not in victims and r.random() < .6:
                w.authorise(n)
                tok[n] = w.token(n)
        for n in victims:
            k = kinds[n] = r.choice(["exchange", "exchange", "refresh", "url", "active"])
            w.raw_sock(b"revoke:" + n.encode())
            if k in ("refresh", "active"):
                w.authorise(n)
                tok[n] = w.token(n)
                c.check(tok[n] is not None, ["C07"], "%s is authorised but has no token" % n)
            if k == "active":
                continue
            hold.add(n)
            n0 = len(w.reqs)
            if k == "refresh":
                w.cli("refresh", n)
            else:
                urls[n] = w.auth_url(n)
                if k == "exchange":
                    st = w.callback(urls[n], code="c")
                    c.check(st == 200, ["C07"], "a genuine redirect was answered %s" % st)
            w.settle()
            if k != "url":
                held[n] = [q for q in w.reqs[n0:] if q.act == n and q.status == "held"]
                if len(held[n]) != 1:
                    raise Inconclusive("%s: %s" % (k, w.reqs[n0:]))
        # a chain of reloads
        severed = set()
        acts = []
        for step in range(r.choice([1, 2, 2, 3, 4])):
            nxt = dict(now)
            for n in names:
                if n in victims:
                    k = r.choice(["keep", "back", "change", "change", "gone", "gone"]) if step else r.choice(["keep", "change", "gone", "gone"])
                elif step and n not in nxt:
                    k = r.choice(["keep", "back", "back"])
                else:
                    k = r.choice(["keep"] * 8 + ["gone", "change"])
                if k == "back":
                    nxt[n] = base[n]
                elif k == "gone":
                    nxt.pop(n, None)
                elif k == "change":
                    m = r.choice(sorted(SEC))
                    b = SEC[m](r, nxt.get(n, base[n]))
                    if b is None:
                        nxt.pop(n, None)
                    else:
                        nxt[n] = b
            if not nxt:
                nxt[names[0]] = base[names[0]]
            for n in names:
                if n in now and (n not in nxt or now[n].secure() != nxt[n].secure()):
                    severed.add(n)
                    tok[n] = None
            now = nxt
            order = list(now.values())
            r.shuffle(order)
            w.write_conf(order)
            x = w.cli("reload")
            c.check(x.rc == 0, ["C04", "C20"], "reload of a valid configuration: %s" % x)
            acts.append(sorted(now))
            if r.random() < .3:
                w.settle()
        last = [n for n in names if n not in now]
        for n in last:                    # whoever is still gone comes back (identical)
            now[n] = base[n]
        if last:
            w.write_conf(list(now.values()))
            c.check(w.cli("reload").rc == 0, ["C04", "C20"], "reload failed")
        # the reborn do things
        again = {}
        for n in names:
            if n in severed and n in hold and r.random() < .6:
                for _ in range(r.choice([1, 1, 2, 3])):
                    x = w.cli(r.choice(["refresh", "show"]), n)
                    c.check(x.rc == 1, ["C03"], "%s was severed by a reload, yet: %s" % (n, x))
                    again[n] = w.url_of(x)
        # the results arrive
        order = [n for n in held if held[n]]
        r.shuffle(order)
        hold.clear()
        for n in order:
            q = held[n][0]
            g = w.grant(q, 10**7)
            q.release(g)
            if n not in severed:
                tok[n] = q.issued["access"]
            w.settle()
        if not order:
            w.settle()
        w.settle()
        for n in names:
            line = [l for l in w.cli("status").out.split("\n") if l.startswith(n + ": ")]
            c.check(len(line) == 1, ["C29"], "status says %r about %s" % (line, n))
            t = [l for l in line if l[len(n) + 2:].startswith("Active")]
            if n in severed:
                c.check(not t, ["C03", "C31"], "round %d: %s (%s in flight) was severed by reloads %s, yet its old %s made it active: %s"
                        % (rnd, n, kinds.get(n), acts, kinds.get(n), line))
                # the new incarnation is unharmed
                u = again.get(n) or w.url_of(w.show(n))
                if n in urls and r.random() < .7:
                    n0 = len(w.reqs)
                    w.callback(urls[n], code="old")
                    w.settle()
                    c.check(len(w.reqs) == n0, ["C03", "C06"], "the redirect of a severed request of %s had its code exchanged: %s" % (n, w.reqs[n0:]))
                    c.check(w.token(n) is None, ["C03"], "a severed request gave %s a token" % n)
                if r.random() < .8 or n not in kinds:
                    st = w.callback(u, code="new")
                    c.check(st == 200, ["C03", "C07", "C31"], "the new request of %s was answered %s (old %s finished meanwhile)" % (n, st, kinds.get(n)))
                    w.settle()
                    q = w.reqs[-1]
                    c.check(q.act == n and q.issued and w.token(n) == q.issued["access"], ["C07", "C03", "C31"], "%s shows %s, but the last request was %s" % (n, w.token(n), q))
            elif kinds.get(n) == "url":
                hold.discard(n)
                st = w.callback(urls[n], code="x")
                c.check(st == 200, ["C04", "C06"], "%s's security-relevant settings never changed, but its URL is dead (%s)" % (n, st))
                w.settle()
                c.check(w.token(n) is not None, ["C04", "C07"], "%s's URL survived harmless reloads, but there's no token" % n)
            else:
                x = w.show(n, "-u")
                got = x.out.strip() if x.rc == 0 else None
                c.check(got == tok[n], ["C04", "C31"], "round %d: %s (%s) was never severed by reloads %s and must show %s: %s" % (rnd, n, kinds.get(n), acts, tok[n], x))
            c.case(("incarnation", kinds.get(n, "bystander"), n in severed, len(acts)), n in severed or n in kinds)
        hold.clear()


@scenario(["C31", "C02", "C03", "C07"], n=8, nt=60, limit=240)
def long_lives(c):
    """Work in flight while 2**8 or 2**16 (or nearly) changes of state go by: results of an old incarnation stay dead even
    if something inside the server counts those changes and starts again."""
    r = c.rng
    w = c.world(verbose=0)
    hold = set()
    w.default_policy = lambda q: HOLD if q.act in hold else w.grant(q, 10**7)
    names = ["l%d" % i for i in range(9)]
    w.start([w.acct(n) for n in names] + [w.acct("other")], dict(QUIET))
    bits = 16 if c.idx % 8 == 3 or (c.tier != "quick" and c.idx % 3 == 0) else 8
    how = r.choice(["revoke", "reload"]) if bits == 8 else "revoke"
    kind = r.choice(["exchange", "refresh"])
    n = [0]        # changes of state so far (as good as one can tell from outside, hence the different offsets)

    def pad(k):
        n[0] += max(0, k)
        for j in range(k):
            if how == "revoke":
                w.raw_sock(b"revoke:other")
            else:
                w.write_conf([a if a.name != "other" else a.copy(client_secret="s%d" % (n[0] + j)) for a in w.accts])
                w.raw_sock(b"reload:")

    # work in flight for every account, which is then revoked
    held, begun = {}, {}
    for a in names:
        if kind == "refresh":
            w.authorise(a)
            n[0] += 2
        hold.add(a)
        if kind == "refresh":
            w.raw_sock(("refresh:withurl " + a).encode())
            n[0] += 2
        else:
            w.callback(w.raw_sock(("showtoken:withurl " + a).encode())[8:].decode(), code="c")
            n[0] += 1
        w.settle()
        begun[a] = n[0]
        held[a] = [q for q in w.reqs if q.act == a and q.status == "held"]
        if len(held[a]) != 1:
            raise Inconclusive("nothing in flight: %s" % w.reqs)
        w.raw_sock(b"revoke:" + a.encode())
        hold.discard(a)
        n[0] += 1
        pad(8)
    # 2**bits changes (give or take a few) after its work began, each account begins anew; then the old result arrives
    offs = [-4, -3, -2, -1, 0, 1, 2, 3, 4]
    r.shuffle(offs)
    for a, o in zip(names, offs):
        pad(begun[a] + (1 << bits) + o - 1 - n[0])
        w.raw_sock(("showtoken:withurl " + a).encode())
        n[0] += 1
        held[a][0].release(w.grant(held[a][0], 10**7))
        w.settle()
        x = w.show(a, "-u")
        c.check(x.rc == 1, ["C31", "C02"] + (["C03"] if how == "reload" else []), "%s was revoked with its %s in flight; about %d changes later that %s's result was accepted: %s" % (a, kind, (1 << bits) + o, kind, x))
        c.case(("long", bits, how, kind), True)
    for a in names[:2]:
        w.authorise(a)
        c.check(w.token(a) is not None, ["C07"], "%s cannot be authorised after a long life" % a)

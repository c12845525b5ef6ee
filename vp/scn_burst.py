"""Bursts: a handful of operations on one account released at the same moment, with random delays injected before the server's
locks, clock reads and system calls. The recorded history (replies, token requests and answers with real-time intervals, event
commands, the final dump) is then checked offline: some sequential order consistent with real time must explain all of it."""
import threading, time
from urllib.parse import parse_qsl, urlsplit, quote
from . import codec
from .core import scenario
from .world import *


class Op:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
        self.lo = self.hi = None
        self.reply = None

    def __repr__(self):
        return "%s[%.4f-%.4f]->%r" % (self.kind, self.lo or 0, self.hi or 0, self.reply if not isinstance(self.reply, bytes) else self.reply[:140])


class Lin:
    """Search for a sequential explanation."""

    def __init__(self, ops, reqs, init, flights, conf, fin, events, en, limit=400000):
        self.ops, self.reqs, self.fin, self.events, self.en = ops, reqs, fin, tuple(sorted(events)), en
        self.init, self.flights, self.conf = init, flights, conf
        self.seen = set()
        self.n = 0
        self.limit = limit

    def run(self):
        st = (self.init, 0, frozenset(), frozenset((i, 0) for i in self.flights), (), 0, self.conf, 0)
        # (ts, ver, tasks, flights, events, errors, conf, task counter)
        # requests in flight from the start have been sent already
        return self.dfs(st, 0, sum(1 << i for i in self.flights))

    def dfs(self, st, om, rm):
        key = (st[:7], om, rm)
        if key in self.seen:
            return False
        self.seen.add(key)
        self.n += 1
        if self.n > self.limit:
            raise Inconclusive("linearisation search too large")
        ts, ver, tasks, fls, evs, ens, conf, tc = st
        if om == (1 << len(self.ops)) - 1 and not tasks and not fls and rm == (1 << len(self.reqs)) - 1:
            if ts == self.fin and tuple(sorted(evs)) == self.events and ens == self.en:
                return True
        # the latest time a step may start at, given what has not happened yet
        bound = 1e18
        for i, o in enumerate(self.ops):
            if not om >> i & 1:
                bound = min(bound, o.hi)
        for i, r in enumerate(self.reqs):
            if not rm >> i & 1 and r.r_recv is not None:
                bound = min(bound, r.r_recv)
        for i, o in enumerate(self.ops):
            if not om >> i & 1 and o.lo <= bound:
                for n in self.op(o, st):
                    if self.dfs(n, om | 1 << i, rm):
                        return True
        for t in tasks:
            rest = tasks - {t}
            if t[0] == "RS":
                if t[1] != ver or ts[0] != "A" or ts[3]:
                    if self.dfs((ts, ver, rest, fls, evs, ens, conf, tc), om, rm):
                        return True
                elif ts[2] is None:
                    if self.dfs((("E",), ver + 1, rest, fls, evs + ("token_invalidated",), ens, conf, tc), om, rm):
                        return True
                else:
                    for i, r in enumerate(self.reqs):
                        if not rm >> i & 1 and r.grant == "refresh_token" and r.f("refresh_token") == ts[2] and r.f("client_id") == conf:
                            n = (ts[0], ts[1], ts[2], True, ts[4], ts[5])
                            if self.dfs((n, ver + 1, rest, fls | {(i, ver + 1)}, evs, ens, conf, tc), om, rm | 1 << i):
                                return True
            else:
                _, v, code, cid, url, _ = t
                for i, r in enumerate(self.reqs):
                    if not rm >> i & 1 and r.grant == "authorization_code" and r.f("code") == code and r.f("client_id") == cid:
                        if self.dfs((ts, ver, rest, fls | {(i, v)}, evs, ens, conf, tc), om, rm | 1 << i):
                            return True
        for f in fls:
            i, v = f
            r = self.reqs[i]
            if r.r_ans is None or r.r_ans > bound:
                continue
            rest = fls - {f}
            if v != ver:
                n = (ts, ver, tasks, rest, evs, ens, conf, tc)
            else:
                k = r.result
                if r.grant == "authorization_code":
                    if k[0] == "ok":
                        n = (("A", k[1], k[2], False, False, 0), ver + 1, tasks, rest, evs + ("token_new",), ens, conf, tc)
                    else:
                        n = (("E",), ver + 1, tasks, rest, evs, ens + 1, conf, tc)
                elif k[0] == "ok":
                    n = (("A", k[1], k[2] or ts[2], False, False, 0), ver + 1, tasks, rest, evs + ("token_refreshed",), ens, conf, tc)
                elif k[0] == "fail":
                    n = (("E",), ver + 1, tasks, rest, evs + ("token_invalidated",), ens, conf, tc)
                else:
                    n = (("A", ts[1], ts[2], False, ts[4], ts[5] + 1), ver + 1, tasks, rest, evs, ens, conf, tc)
            if self.dfs(n, om, rm):
                return True
        return False

    def op(self, o, st):
        ts, ver, tasks, fls, evs, ens, conf, tc = st
        k, rep = o.kind, o.reply
        if k == "show":
            if ts[0] == "E":
                if rep.startswith(b"pending:http"):
                    yield (("P", rep[8:].decode()), ver + 1, tasks, fls, evs, ens, conf, tc)
            elif ts[0] == "P":
                if rep == b"pending:" + ts[1].encode():
                    yield st
            elif not ts[4]:
                if rep == b"access_token:" + ts[1].encode():
                    yield st
            elif ts[3]:
                if rep.startswith(b"error:") and b"in progress" in rep:
                    yield st
            elif rep.startswith(b"error:") and b"initiated" in rep:
                yield (ts, ver, tasks | {("RS", ver, tc)}, fls, evs, ens, conf, tc + 1)
        elif k == "refresh":
            if ts[0] in "EP":
                if rep.startswith(b"pending:http") and not (ts[0] == "P" and rep[8:].decode() == ts[1]):
                    yield (("P", rep[8:].decode()), ver + 1, tasks, fls, evs, ens, conf, tc)
            elif rep == b"scheduled:":
                yield (ts, ver, tasks | {("RS", ver, tc)}, fls, evs, ens, conf, tc + 1)
                # the account it was scheduled for may change before the refresh is looked at
        elif k == "revoke":
            if rep == b"ok:":
                yield (("E",), ver + 1, tasks, fls, evs + ("token_revoked",), ens, conf, tc)
        elif k == "cb":
            if ts[0] == "P" and ts[1] == o.url:
                if rep.startswith(b"HTTP/1.1 200") and b"processing" in rep:
                    yield (ts, ver, tasks | {("X", ver, o.code, conf, o.url, tc)}, fls, evs, ens, conf, tc + 1)
            elif rep.startswith(b"HTTP/1.1 200") and b"No pending" in rep:
                yield st
        elif k == "cberr":
            if ts[0] == "P" and ts[1] == o.url:
                if rep.startswith(b"HTTP/1.1 400"):
                    yield (("E",), ver + 1, tasks, fls, evs, ens + 1, conf, tc)
            elif rep.startswith(b"HTTP/1.1 200") and b"No pending" in rep:
                yield st
        elif k == "reload":
            if rep == b"ok:":
                if o.cid == conf:
                    yield st
                else:
                    yield (("E",), ver + 1, tasks, fls, evs, ens, o.cid, tc)
        elif k == "restore":
            if rep == b"ok:":
                if ts[0] in "EP" and o.cid == conf:
                    yield (("A", o.at, o.rt, False, False, 0), ver + 1, tasks, fls, evs, ens, conf, tc)
                else:
                    yield st
        elif k == "dump":
            try:
                _, d = codec.decode(rep)["bob"]
            except (codec.BadDump, KeyError):
                return
            if (d is None) == (ts[0] != "A") and (d is None or (d["access"] == ts[1] and d["refresh"] == ts[2])):
                yield st
        elif k == "status":
            l = [x for x in rep.decode().replace("ok:", "", 1).split("\n") if x.startswith("bob: ")]
            if len(l) == 1:
                s = l[0][5:]
                if (ts[0] == "E" and s.startswith("No access")) or (ts[0] == "P" and "pending" in s) or (
                        ts[0] == "A" and (s.startswith("Access token expired") if ts[4] else s.startswith("Active access"))):
                    yield st
        else:
            raise AssertionError(k)


class Burst:
    def __init__(self, c, bias):
        self.c, self.rng, self.bias = c, c.rng, bias
        self.w = c.world(verbose=0)
        self.hold = False
        self.ncid = 0

    def acct(self, cid="cid-0"):
        return self.w.acct("bob", client_id=cid, refresh_at_least="36500d")

    def setup(self):
        w = self.w

        def policy(req):
            if self.hold:
                return HOLD
            # a small real delay so that requests stay in flight for a while
            time.sleep(self.rng.random() * .004)
            return self.answer(req)

        w.default_policy = policy
        self.other = w.acct("zoe", refresh_at_least="36500d")
        self.glob = {"token_event_cmd": '"TE run"', "error_notify_cmd": '"EN run"', "auth_notify_cmd": '"AN run"'}
        self.cid = "cid-0"
        w.start([self.acct(), self.other], self.glob)
        w.settle()
        w.authorise("zoe", code="zz")
        self.zoe = w.token("zoe")

    def answer(self, req, k=None):
        r = self.rng
        k = k or r.choice(["ok", "ok", "ok", "okrot", "fail", "oauth"] + (["transient"] if req.grant == "refresh_token" else []))
        w = self.w
        if req.act == "zoe":
            k = "okrot"
        if k in ("ok", "okrot"):
            rot = k == "okrot" or req.grant == "authorization_code"
            at = w.mint(req.act, "AT")
            rt = w.mint(req.act, "RT") if rot else None
            req.result = ("ok", at, rt)
            return J(jbody(at, 10**9 if req.act == "zoe" else 100000, rt))
        if k == "transient":
            req.result = ("transient",)
            return ("raw", [b"HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"access"])
        req.result = ("fail",)
        return J({"error": "nope"}, 400 if k == "fail" else 200)

    def chaos(self, on):
        self.w.ctl.chaos_prob, self.w.ctl.chaos_max_us = (self.rng.choice([100, 250, 400, 600]), self.rng.choice([200, 1000, 4000])) if on else (0, 0)

    def sock(self, s):
        return self.w.raw_sock(s)

    def prepare(self):
        """Bring bob to a random initial state. -> (model state, [held requests])"""
        w, r = self.w, self.rng
        self.hold = False
        if self.cid != "cid-0" or r.random() < .1:
            self.cid = "cid-0"
            w.write_conf([self.acct(), self.other], self.glob)
            assert self.sock(b"reload:") == b"ok:"
        w.settle()
        self.sock(b"revoke:bob")
        w.settle()
        k = r.choices(["E", "P", "PX", "A", "AR", "AX", "PXX"], self.bias.get("init", [2, 3, 5, 4, 6, 3, 2]))[0]
        self.first_url = None
        if k == "E":
            return ("E",), []
        url = self.sock(b"showtoken:withurl bob")[8:].decode()
        self.first_url = url
        w.settle()
        if k == "P":
            return ("P", url), []
        if k in ("PX", "PXX"):
            self.hold = True
            n = len(w.reqs)
            for i in range(2 if k == "PXX" else 1):
                w.callback(url, code="init%d-%d" % (i, r.randrange(1 << 30)))
                w.settle()
            self.hold = False
            return ("P", url), w.reqs[n:]
        # active
        n = len(w.reqs)
        w.default_policy, old = (lambda q: self.answer(q, "okrot")), w.default_policy
        w.callback(url, code="init-%d" % r.randrange(1 << 30))
        w.settle()
        w.default_policy = old
        q = w.reqs[n]
        at, rt = q.result[1], q.result[2]
        if k == "A":
            return ("A", at, rt, False, False, 0), []
        if k == "AR":
            self.hold = True
            n = len(w.reqs)
            assert self.sock(b"refresh:withurl bob") == b"scheduled:"
            w.settle()
            self.hold = False
            if len(w.reqs) != n + 1:
                raise Inconclusive("no refresh request in the preparation")
            return ("A", at, rt, True, False, 0), w.reqs[n:]
        # expired, last refresh attempt failed
        ts = w.servers["bob"]
        w.down(ts)
        self.sock(b"refresh:withurl bob")
        w.settle()
        # expire it by making time pass while the token server is down; end in the middle of a retry interval
        w.advance(100000 - 50)
        for _ in range(4):
            w.advance(30)
        # now the last attempt was at most 30 s + a little ago
        w.up(ts)
        d = codec.decode(w.raw_sock(b"dump:"))["bob"][1]
        if d is None:
            raise Inconclusive("lost the token in the preparation")
        return ("A", at, rt, False, True, 1), []

    def one(self):
        w, r = self.w, self.rng
        init, held = self.prepare()
        w.settle()
        for q in held:
            q.r_recv = None
        nreq, nrun = len(w.reqs), len(w.sh.runs)
        now = codec.decode(self.sock(b"dump:"))["bob"][1]
        if (init[0] == "A") != (now is not None):
            raise Inconclusive("preparation: %s but dumped %s" % (init, now))
        ops = []
        urls = [self.first_url] if self.first_url else []
        nops = r.choice([2, 3, 3, 4, 5])
        kinds, weights = zip(*self.bias.get("ops", {"show": 5, "refresh": 5, "revoke": 5, "cb": 4, "cberr": 1, "reload": 2, "restore": 2, "dump": 1, "status": 1}).items())
        dmp = None
        for _ in range(nops):
            k = r.choices(kinds, weights)[0]
            if k in ("cb", "cberr"):
                if not urls:
                    k = "show"
                else:
                    ops.append(Op(k, url=urls[0], code="b-%d" % r.randrange(1 << 40)))
                    continue
            if k == "reload":
                if any(o.kind == "reload" for o in ops):
                    k = "revoke"
                else:
                    self.ncid += 1
                    cid = self.cid if r.random() < .4 else "cid-%d" % self.ncid
                    ops.append(Op("reload", cid=cid))
                    continue
            if k == "restore":
                at, rt = w.mint("bob", "OLD"), w.mint("bob", "OLDR")
                f = codec.decode(self.sock(b"dump:"))["bob"][0]
                t = w.real_now()
                ops.append(Op("restore", cid=self.cid, at=at, rt=rt, data=codec.encode({"bob": (f, dict(access=at, obtained=t - 5, expiry=t + 90000, refresh=rt))})))
                continue
            ops.append(Op(k))
        for o in ops:
            if o.kind == "reload":
                w.write_conf([self.acct(o.cid), self.other], dict(self.glob, auth_notify_interval="%dm" % r.randrange(14, 20)))
                newcid = o.cid
        bar = threading.Barrier(len(ops) + len(held))
        jit = r.random() * .006
        delays = [r.random() * jit for _ in range(len(ops) + len(held))]
        errs = []

        def go(o, d):
            try:
                bar.wait(20)
                time.sleep(d)
                if o.kind in ("cb", "cberr"):
                    q = dict(parse_qsl(urlsplit(o.url).query))
                    ru = urlsplit(q["redirect_uri"])
                    data = ("GET /?%s&state=%s HTTP/1.1\r\nHost: %s\r\n\r\n" % ("code=" + o.code if o.kind == "cb" else "error=denied", q["state"], ru.netloc)).encode()
                    o.lo = time.monotonic()
                    o.reply = w.http_raw(data)
                else:
                    data = {"show": b"showtoken:withurl bob", "refresh": b"refresh:withurl bob", "revoke": b"revoke:bob", "reload": b"reload:", "dump": b"dump:",
                            "status": b"status:"}.get(o.kind) or b"restore:" + o.data
                    o.lo = time.monotonic()
                    o.reply = w.raw_sock(data)
                o.hi = time.monotonic()
            except Exception as e:
                errs.append("%s: %r" % (o.kind, e))

        def rel(q, d):
            bar.wait(20)
            time.sleep(d)
            q.release(self.answer(q))

        th = [threading.Thread(target=go, args=(o, delays[i]), daemon=True) for i, o in enumerate(ops)]
        th += [threading.Thread(target=rel, args=(q, delays[len(ops) + i]), daemon=True) for i, q in enumerate(held)]
        self.chaos(True)
        for t in th:
            t.start()
        for t in th:
            t.join(40)
        if not w.alive():
            self.c.fail(["C22", "C31"], "the server died (%s) in a burst %s" % (w.proc.returncode, ops))
        if errs or any(t.is_alive() for t in th):
            if w.panics():
                self.c.fail(["C22", "C31"], "no answer after a panic: %s %s" % (errs, ops))
            # deadlock? ask again without any chaos
            self.chaos(False)
            try:
                w.raw_sock(b"status:", timeout=30)
            except OSError:
                self.c.fail(["C31", "C22", "C23"], "the server answers nothing any more after a burst: %s %s" % (errs, ops))
            raise Inconclusive("client error: %s" % errs)
        self.chaos(False)
        w.settle()
        for o in ops:
            if o.kind == "reload":
                self.cid = o.cid
        # final state
        d = codec.decode(self.sock(b"dump:"))
        z = d["zoe"][1]
        if z is None or z["access"] != self.zoe:
            self.c.fail(["C31", "C01", "C02", "C03", "C04", "C13"], "a bystander's token changed from %s to %s in %s" % (self.zoe, z, ops))
        b = d["bob"][1]
        st = [l for l in self.sock(b"status:").decode()[3:].split("\n") if l.startswith("bob: ")][0]
        reqs = held + w.reqs[nreq:]
        runs = w.sh.runs[nrun:]
        ev = [x.event for x in runs if x.kind == "TE" and x.act == "bob"]
        en = sum(1 for x in runs if x.kind == "EN")
        for x in runs:
            if x.kind == "TE" and x.act != "bob":
                self.c.fail(["C15", "C31"], "event %s for %s out of nowhere" % (x.event, x.act))
        if any(q.r_ans is None for q in reqs):
            raise Inconclusive("unanswered request at the end of a burst")
        for i, a in enumerate(reqs):
            for q in reqs[i + 1:]:
                if a.grant == q.grant == "refresh_token" and a.f("refresh_token") == q.f("refresh_token") and q.r_recv is not None and a.r_ans > q.r_recv:
                    self.c.fail(["C11", "C31"], "two refreshes of one token were outstanding at once: %r %r" % (a, q))
        if b is None:
            if "pending" in st:
                u = self.sock(b"showtoken:withurl bob")[8:].decode()
                fin = ("P", u)
                w.settle()
                n = [x for x in w.sh.runs[nrun:] if x.kind == "AN" and x.url == u]
                if u != self.first_url and len(n) != 1:
                    self.c.fail(["C09", "C31"], "the pending URL %s was announced %d times" % (u, len(n)))
            else:
                fin = ("E",)
            fins = [fin]
        else:
            exp = "expired" in st
            fins = [("A", b["access"], b["refresh"], o, exp, n) for o in (False,) for n in range(0, 7)]
        known = {o.reply[8:].decode() for o in ops if o.kind in ("show", "refresh") and o.reply.startswith(b"pending:")} | {self.first_url}
        for x in runs:
            if x.kind == "AN" and x.url not in known:
                self.c.fail(["C09", "C31"], "unknown URL announced: %r" % (x,))
        ok = False
        for fin in fins:
            l = Lin(ops, reqs, init, range(len(held)), "cid-0", fin, ev, en)
            if l.run():
                ok = True
                break
        kinds = sorted(o.kind for o in ops)
        overlap = sum(1 for i, a in enumerate(ops) for b2 in ops[i + 1:] if a.lo < b2.hi and b2.lo < a.hi)
        self.c.case(("burst", init[0] + ("R" if init[0] == "A" and init[3] else "x" if init[0] == "A" and init[4] else ""), len(held), tuple(kinds), tuple(q.result[0] for q in reqs)), bool(overlap or held))
        STATS.add("bursts")
        STATS.add("burst_overlaps", overlap)
        if not ok:
            L = {"C31"}
            ks = set(kinds)
            if "revoke" in ks:
                L |= {"C02"}
            if "reload" in ks:
                L |= {"C03", "C04"}
            if any(q.grant == "authorization_code" for q in reqs):
                L |= {"C07", "C01"}
            if any(q.grant == "refresh_token" for q in reqs) or "refresh" in ks:
                L |= {"C11", "C01", "C12", "C13"}
            if "cb" in ks or "cberr" in ks:
                L |= {"C06", "C07"}
            if "restore" in ks:
                L |= {"C18"}
            L |= {"C15"}
            self.c.fail(sorted(L), "no sequential order explains this burst: initially %s, held %s; operations %s; requests %s; events %s, %d error notices; finally %s (%s)" % (
                init, held, ops, [(q, q.result, q.r_recv, q.r_ans) for q in reqs], ev, en, fins[0], st))


def _run(c, bias, n):
    b = Burst(c, bias)
    b.setup()
    for _ in range(n):
        b.one()
        if b.w.panics():
            c.fail(["C22", "C31"], "panic")


@scenario(["C31", "C02", "C11", "C07", "C15", "C01"], racy=True, n=24, nt=800)
def burst_mixed(c):
    """Bursts of concurrent commands, redirects and token server replies; each must have a sequential explanation."""
    _run(c, {}, 25)


@scenario(["C02", "C03", "C04", "C31"], racy=True, n=16, nt=500)
def burst_sever(c):
    """Bursts with revokes and reloads racing everything in flight: final means final."""
    _run(c, {"ops": {"revoke": 6, "reload": 6, "show": 3, "cb": 3, "refresh": 3, "restore": 1}, "init": [0, 1, 6, 1, 6, 1, 2]}, 25)


@scenario(["C11", "C12", "C13", "C08"], racy=True, n=16, nt=500)
def burst_refresh(c):
    """Bursts of refreshes by every trigger; overlap at the token server, fates of tokens."""
    _run(c, {"ops": {"refresh": 8, "show": 6, "revoke": 1, "restore": 1, "dump": 1}, "init": [0, 0, 0, 4, 6, 5, 0]}, 25)


@scenario(["C06", "C07", "C05"], racy=True, n=12, nt=400)
def burst_callback(c):
    """Bursts with many redirects (genuine, repeated, stale, with errors) racing each other and commands."""
    _run(c, {"ops": {"cb": 8, "cberr": 3, "show": 2, "refresh": 3, "revoke": 2}, "init": [0, 5, 6, 0, 0, 0, 3]}, 25)


@scenario(["C17", "C18"], racy=True, n=12, nt=400)
def burst_restore(c):
    """Bursts with restores and dumps racing exchanges, refreshes and revokes."""
    _run(c, {"ops": {"restore": 8, "cb": 3, "show": 3, "refresh": 3, "revoke": 2, "dump": 3, "reload": 1}, "init": [3, 4, 6, 1, 2, 0, 1]}, 25)

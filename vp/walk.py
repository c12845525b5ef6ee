"""Model-conformance walks: random histories of commands, redirects, token server answers, reloads, restores and time,
with an executable reference model predicting, after every step, every reply, token request, command run, the decoded
dump and the status text."""
import base64, hashlib, json, re, time
from email.utils import parsedate_to_datetime
from urllib.parse import parse_qsl, urlsplit
from . import codec
from .world import *

EPS = 0.4
T_HTTP, T_SLEEP, N_TRY, T_TR, T_TE = 30.0, 6.0, 10, 180.0, 30.0


def secs(s):
    if s is None:
        return None
    return int(s[:-1]) * {"s": 1, "m": 60, "h": 3600, "d": 86400}[s[-1]]


class MA:
    """Model of one account."""

    def __init__(self, name):
        self.name = name
        self.st = "E"
        self.ver = 0
        self.url = self.state = None
        self.notif = None
        self.at = self.rt = None
        self.obt = self.exp = 0.0
        self.ongoing = False
        self.fails = 0
        self.lra = None
        self.old = []        # superseded states / urls
        self.why = set()     # property labels of the last things that shaped this account's state


class Flight:
    """A token request (exchange or refresh) under way, or a transient_error_if_cmd."""

    def __init__(self, kind, act, ver):
        self.kind, self.act, self.ver = kind, act, ver
        self.req = None
        self.n = 0
        self.t = 0.0
        self.phase = "new"
        self.want = {}
        self.conf = None
        self.run = None
        self.dead_why = set()


class Walk:
    def __init__(self, c, profile, nops):
        self.c, self.rng, self.p, self.nops = c, c.rng, profile, nops
        self.w = c.world(verbose=self.rng.choice([0, 2, 4]))
        self.acts = {}
        self.fl = []
        self.evq = []       # model event queue
        self.te = None      # running event command (event, run, t)
        self.seen_req = 0
        self.seen_run = 0
        self.exp_req = []   # expected new token requests: Flight
        self.exp_runs = []  # expected new runs: dict
        self.labels = set()
        self.wall = 0.0
        self.old_states = []
        self.dumps = []
        self.te_dump = None
        self.opname = ""
        self.hist = []

    # ------------------------------------------------ configuration
    def rand_acct(self, name):
        r = self.rng
        auf = r.choice([None, [], [("x", "y z&")], [("k", "1"), ("k", "2"), ("login_hint", "a@b")]])
        lh = r.choice([None, None, "me@x"])
        return self.w.acct(
            name,
            client_secret=r.choice([None, "sec-%s-secretsecret" % name, "sec-%s-secretsecret" % name, ""]),
            scopes=r.choice([None, [], ["a"], ["s 1", "s2", "é"]]),
            auth_uri_fields=auf,
            login_hint=lh if not any(k == "login_hint" for k, _ in auf or []) else None,
            redirect_uri=r.choice([None, None, "http://localhost/", "http://127.0.0.1:0/cb", "https://localhost/"]),
            refresh_at_least=r.choice(["5s", "25s", "50s"] if r.random() < self.p.get("short", 0) else [None, None, "40m", "3000s"]),
            refresh_before_expiry=r.choice([None, None, "200s", "2m"]),
            refresh_retry=r.choice([None, None, "35s", "2m"]),
        )

    def rand_glob(self):
        r = self.rng
        g = dict(CMDS)
        g["auth_notify_interval"] = r.choice(["15m", "20s", "47s", "5m"])
        if r.random() < .2:
            g["refresh_at_least"] = r.choice(["30m", "70m"])
        if r.random() < .2:
            g["refresh_before_expiry"] = r.choice(["5m", "45s"])
        if r.random() < .2:
            g["refresh_retry"] = r.choice(["50s", "3m"])
        if r.random() < .1:
            g.pop("transient_error_if_cmd")
        if r.random() < .08:
            g.pop("token_event_cmd")
        return g

    def setting(self, name, k, default):
        a = self.ca[name]
        v = getattr(a, k)
        if v is None:
            v = self.cg.get(k)
        return secs(v) if v is not None else default

    @property
    def interval(self):
        return secs(self.cg.get("auth_notify_interval", "15m"))

    # ------------------------------------------------ failing
    def bad(self, labels, msg):
        raise Violation(sorted(set(labels) | self.labels), "step %d (%s): %s" % (len(self.hist), self.opname, msg))

    # ------------------------------------------------ model transitions
    def now(self):
        return self.w.now()

    def bump(self, m, why):
        m.ver += 1
        for f in self.fl:
            if f.act == m.name and f.ver != m.ver and not f.dead_why:
                f.dead_why = set(why)

    def event(self, name, ev):
        self.evq.append((name, ev))
        self.pump()

    def pump(self):
        while self.te is None and self.evq:
            n, e = self.evq.pop(0)
            cmd = self.cg.get("token_event_cmd")
            if cmd is None:
                continue
            self.te = dict(act=n, ev=e, t=self.now(), run=None)
            self.exp_runs.append(dict(kind="TE", act=n, ev=e, cmd=cmd, obj=self.te))
            if not self.te_hold:
                self.te = None

    def set_pending(self, m, why):
        if m.state:
            self.old_states.append((m.name, m.url, m.state))
        m.st, m.url, m.state, m.notif = "P", None, None, self.now()
        m.at = m.rt = None
        m.why = set(why)
        self.bump(m, why)
        cmd = self.cg.get("auth_notify_cmd")
        if cmd is not None:
            self.exp_runs.append(dict(kind="AN", act=m.name, cmd=cmd, url=m))

    def set_empty(self, m, why):
        if m.state:
            self.old_states.append((m.name, m.url, m.state))
        m.st, m.url, m.state, m.notif, m.at, m.rt = "E", None, None, None, None, None
        m.ongoing = False
        m.why = set(why)
        self.bump(m, why)

    def set_active(self, m, at, rt, obt, exp, why):
        if m.state:
            self.old_states.append((m.name, m.url, m.state))
        m.st, m.url, m.state, m.notif = "A", None, None, None
        m.at, m.rt, m.obt, m.exp = at, rt, obt, exp
        m.ongoing, m.fails, m.lra = False, 0, None
        m.why = set(why)
        self.bump(m, why)

    def due(self, m):
        if m.st != "A" or m.ongoing:
            return None
        if m.lra is not None:
            return m.lra + self.setting(m.name, "refresh_retry", 40)
        return min(m.exp - self.setting(m.name, "refresh_before_expiry", 90), m.obt + self.setting(m.name, "refresh_at_least", 5400))

    def start_refresh(self, m, why):
        """sched_refresh on a current token."""
        if m.st != "A" or m.ongoing:
            return
        self.bump(m, why)
        if m.rt is None:
            self.set_empty(m, {"C13", "C15"})
            self.event(m.name, "token_invalidated")
            return
        m.ongoing = True
        m.lra = self.now()
        self.bump(m, why)
        f = Flight("R", m.name, m.ver)
        f.t = self.now()
        a = self.ca[m.name]
        f.conf = a
        f.want = {"client_id": a.client_id, "refresh_token": m.rt, "grant_type": "refresh_token"}
        if a.client_secret is not None:
            f.want["client_secret"] = a.client_secret
        self.fl.append(f)
        self.send(f)

    def send(self, f):
        f.n += 1
        f.t = self.now()
        a = f.conf
        if a.ts in self.down:
            f.phase = "refused"
            self.exp_conn[a.ts] = self.exp_conn.get(a.ts, 0) + 1
            self.answered(f, ("transport",))
        else:
            f.phase = "wait"
            f.req = None
            self.exp_req.append(f)

    def valid(self, f):
        m = self.acts.get(f.act)
        return m is not None and m.ver == f.ver

    def answered(self, f, out):
        """The outcome of a request: ("ok", at, rt|None|KEEP, expires_in) | ("transport",) | ("bodyerr",) | ("fail", substring)"""
        m = self.acts.get(f.act)
        k = out[0]
        if f.kind == "X":
            if k == "transport":
                f.phase = "sleep"
                f.t = self.now()
                return
            self.fl.remove(f)
            if not self.valid(f):
                return
            if k == "ok":
                self.set_active(m, out[1], out[2], self.now(), self.now() + out[3], {"C07", "C01", "C17"})
                self.event(m.name, "token_new")
            else:
                self.set_empty(m, {"C07"})
                self.error(f.act, out[1] if len(out) > 1 else "")
            return
        # refresh
        if k in ("transport", "bodyerr"):
            if not self.valid(f):
                self.fl.remove(f)
                return
            m.lra = self.now()
            m.fails += 1
            m.why |= {"C12", "C11"}
            self.bump(m, {"C12"})
            f.ver = m.ver
            cmd = self.cg.get("transient_error_if_cmd")
            if m.fails % 6 == 0 and cmd is not None:
                f.phase = "TR"
                f.t = self.now()
                self.exp_runs.append(dict(kind="TR", act=m.name, cmd=cmd, obj=f))
                if not self.tr_hold:
                    self.tr_done(f, self.tr_code)
            else:
                self.fl.remove(f)
                m.ongoing = False
                self.bump(m, {"C12"})
            return
        self.fl.remove(f)
        if not self.valid(f):
            return
        if k == "ok":
            rt = f.want["refresh_token"] if out[2] == "KEEP" else out[2]
            self.set_active(m, out[1], rt, self.now(), self.now() + out[3], {"C01", "C08", "C10", "C11", "C12"})
            self.event(m.name, "token_refreshed")
        else:
            self.set_empty(m, {"C13"})
            self.event(m.name, "token_invalidated")

    def tr_done(self, f, code):
        m = self.acts.get(f.act)
        self.fl.remove(f)
        if not self.valid(f):
            return
        if code == 0:
            m.ongoing = False
            m.why |= {"C12", "C11"}
            self.bump(m, {"C12"})
        else:
            self.set_empty(m, {"C12", "C13"})
            self.event(m.name, "token_invalidated")

    def error(self, name, sub):
        cmd = self.cg.get("error_notify_cmd")
        if cmd is not None:
            self.exp_runs.append(dict(kind="EN", act=name, cmd=cmd, msg=sub))

    # ------------------------------------------------ timers
    def timers(self):
        """-> list of (time, fn, label)"""
        o = []
        for m in self.acts.values():
            d = self.due(m)
            if d is not None:
                o.append((d, "refresh", m))
            if m.st == "P" and m.notif is not None:
                o.append((m.notif + self.interval, "notify", m))
            if m.st == "A":
                o.append((m.exp, "expiry", m))
        for f in self.fl:
            if f.phase == "wait":
                o.append((f.t + T_HTTP, "http", f))
            elif f.phase == "sleep":
                o.append((f.t + T_SLEEP, "sleep", f))
            elif f.phase == "TR":
                o.append((f.t + T_TR, "tr", f))
        if self.te:
            o.append((self.te["t"] + T_TE, "te", None))
        return o

    def fire(self):
        """Everything due at the current time happens (repeatedly, until nothing is due)."""
        for _ in range(200):
            n = self.now()
            t = [x for x in self.timers() if x[0] <= n and x[1] != "expiry"]
            if not t:
                return
            t.sort(key=lambda x: x[0])
            _, k, o = t[0]
            if k == "refresh":
                self.labels |= {"C10"} | ({"C12"} if o.fails else set())
                if o.lra is None and o.rt is None:
                    self.labels |= {"C13"}
                self.start_refresh(o, {"C10"})
            elif k == "notify":
                self.labels |= {"C09"}
                o.notif = n
                cmd = self.cg.get("auth_notify_cmd")
                if cmd is not None:
                    self.exp_runs.append(dict(kind="AN", act=o.name, cmd=cmd, url=o))
            elif k == "http":
                self.labels |= {"C23"} | ({"C12"} if o.kind == "R" else {"C07"})
                o.req_dead = True
                if o.req is not None:
                    o.req.abandoned = True
                self.answered(o, ("transport",))
            elif k == "sleep":
                self.labels |= {"C07"}
                if o.n >= N_TRY:
                    self.fl.remove(o)
                    if self.valid(o):
                        m = self.acts[o.act]
                        self.set_empty(m, {"C07"})
                        self.error(o.act, "couldn't connect to")
                else:
                    self.send(o)
            elif k == "tr":
                self.labels |= {"C12", "C23"}
                self.tr_done(o, 1)
            elif k == "te":
                self.labels |= {"C15", "C23"}
                if self.te["run"]:
                    self.te["run"].cut = True
                self.te = None
                self.pump()
        raise Inconclusive("model: too many timers fire at once (hot loop in the generated configuration)")

    # ------------------------------------------------ observation
    def sync(self):
        """After an operation: does what the real server did equal what the model says?"""
        w = self.w
        self.fire()
        w.settle()
        ok = self._match()
        if ok is not None:
            # give a slow machine another chance before calling it a violation
            if not w.confirm(lambda: self._match() is not None, 0.3):
                ok = None
            else:
                ok = self._match()
        if ok is not None:
            self.bad(*ok)
        self._commit()

    def _match(self):
        w = self.w
        with w.lock:
            reqs = w.reqs[self.seen_req:]
            runs = w.sh.runs[self.seen_run:]
        if not w.alive():
            return {"C22", "C31"}, "the server exited (%s)" % w.proc.returncode
        # token requests
        want = list(self.exp_req)
        self._pairs = []
        for r in reqs:
            f = next((f for f in want if f.conf.ts.name == r.act and r.grant == f.want["grant_type"]
                      and all(r.f(k) == v for k, v in f.want.items())), None)
            if f is None:
                f = next((f for f in want if f.conf.ts.name == r.act and r.grant == f.want["grant_type"]), None)
                if f is not None:
                    return {"C08"} | ({"C05"} if f.kind == "X" else set()), "token request %r should have had %r" % (r, f.want)
                L = {"C08", "C31"}
                if r.grant == "refresh_token":
                    L |= {"C10", "C11", "C12", "C13", "C02", "C03"}
                    m = self.acts.get(r.act)
                    if m is not None:
                        L |= m.why
                else:
                    L |= {"C06", "C02", "C03"}
                return L, "unexpected token request %r" % (r,)
            want.remove(f)
            self._pairs.append((f, r))
            ks = sorted(k for k, _ in r.form)
            exp = sorted(list(f.want) + (["code_verifier"] if f.kind == "X" else []))
            if ks != exp:
                return {"C08"}, "token request %r has fields %s, not %s" % (r, ks, exp)
            if r.method != "POST" or r.path != urlsplit(f.conf.token_uri).path or dict(r.headers).get("content-type") != "application/x-www-form-urlencoded":
                return {"C08"}, "token request %s %s %r instead of a form POST to %s" % (r.method, r.path, r.headers, f.conf.token_uri)
            if f.kind == "X":
                v = r.f("code_verifier")
                ch = base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).rstrip(b"=").decode()
                if ch != f.challenge:
                    return {"C05", "C08"}, "code_verifier %r does not match the challenge %s of its request" % (v, f.challenge)
        if want:
            L = set()
            for f in want:
                L |= {"C07", "C06", "C08", "C23"} if f.kind == "X" else {"C10", "C11", "C12", "C08"}
                if f.act in self.acts:
                    L |= self.acts[f.act].why
            return L, "missing token request(s): %s" % [(f.kind, f.want) for f in want]
        for ts, n in self.exp_conn.items():
            got = w.conn_fails(ts)
            if got != n:
                L = {"C07", "C12", "C10", "C11"}
                return L, "the unreachable token server of %s was tried %d times, not %d" % (ts.name, got, n)
        # commands
        wr = list(self.exp_runs)
        self._rpairs = []
        for r in runs:
            def fits(e):
                if e["kind"] != r.kind or e["act"] != r.act or r.argv[1:] != ["-c", e["cmd"].strip('"')]:
                    return False
                if "ev" in e and e["ev"] != r.event:
                    return False
                if "url" in e and e["url"].url is not None and e["url"].url != r.url:
                    return False
                if "msg" in e and not ((r.msg or "").startswith("Authentication for %s failed: " % e["act"]) and e["msg"] in r.msg):
                    return False
                return True

            e = next((e for e in wr if fits(e)), None)
            if e is None:
                L = {"AN": {"C09"}, "EN": {"C07"}, "TE": {"C15", "C13"}, "TR": {"C12"}}.get(r.kind, {"C15", "C09"})
                L = L | (self.acts[r.act].why if r.act in self.acts else set())
                return L, "unexpected command %r (expected %s)" % (r, [{k: v for k, v in e.items() if k not in ("obj", "url")} for e in wr])
            if e["kind"] == "TE":
                first = next(x for x in wr if x["kind"] == "TE")
                if first is not e:
                    # events of changes that happened at one (virtual) instant on different accounts may come in either order
                    if first["act"] == e["act"] or not self.batch:
                        return {"C15"}, "event command for %s/%s ran before the one for %s/%s" % (e["act"], e["ev"], first["act"], first["ev"])
            wr.remove(e)
            self._rpairs.append((e, r))
        if wr:
            L = set()
            for e in wr:
                L |= {"AN": {"C09"}, "EN": {"C07"}, "TE": {"C15", "C13"}, "TR": {"C12"}}[e["kind"]]
                if e["act"] in self.acts:
                    L |= self.acts[e["act"]].why
            return L, "missing command run(s): %s" % [{k: v for k, v in e.items() if k not in ("obj", "url")} for e in wr]
        return None

    def _commit(self):
        for f, r in self._pairs:
            f.req = r
        for e, r in self._rpairs:
            if e["kind"] == "AN" and e["url"].url is None:
                e["url"].url = r.url
                e["url"].state = dict(parse_qsl(urlsplit(r.url).query)).get("state")
            if e.get("obj") is not None and e["kind"] == "TE":
                e["obj"]["run"] = r
            if e.get("obj") is not None and e["kind"] == "TR":
                e["obj"].run = r
        self.seen_req += len(self._pairs)
        self.seen_run += len(self._rpairs)
        self.exp_req, self.exp_runs = [], []
        with self.w.lock:
            n1, n2 = len(self.w.reqs), len(self.w.sh.runs)
        # anything that arrived between matching and now is handled by the next step
        self.c.case((self.opname, tuple(sorted((m.st, m.ongoing, m.fails % 6 == 0) for m in self.acts.values())),
                     tuple(sorted((f.kind, f.phase, self.valid(f)) for f in self.fl))))

    def deep(self):
        """Compare the whole observable state: dump and status."""
        w = self.w
        r = w.dump()
        if r.rc != 0:
            self.bad({"C28", "C17"}, "dump failed: %r" % r)
        try:
            d = codec.decode(r.out)
        except (codec.BadDump, UnicodeDecodeError) as e:
            self.bad({"C19", "C17"}, "undecodable dump: %s" % e)
        if sorted(d) != sorted(self.acts):
            self.bad({"C17", "C03", "C20"}, "the dump has accounts %s, expected %s" % (sorted(d), sorted(self.acts)))
        off = REAL0 + self.wall
        for n, m in self.acts.items():
            f, ts = d[n]
            if (f["auth_uri"], tuple(f["auth_uri_fields"]), f["client_id"], f["client_secret"], f["redirect_uri"], tuple(f["scopes"]), f["token_uri"]) != self.ca[n].secure():
                self.bad({"C17", "C18", "C19", "C20"}, "dumped configuration of %s is %r, should be %r" % (n, f, self.ca[n].secure()))
            L = set(m.why)
            if m.st != "A":
                if ts is not None:
                    for g in self.hist_flights.get(n, ()):
                        L |= g.dead_why
                    self.bad(L | {"C01", "C31"}, "account %s should have no token (%s) but the dump has %r" % (n, m.st, ts))
                continue
            if ts is None:
                self.bad(L | {"C01", "C31"}, "account %s should hold token %s but the dump has none" % (n, m.at))
            if ts["access"] != m.at:
                self.bad(L | {"C01", "C17", "C31"}, "account %s should hold token %s but the dump has %s" % (n, m.at, ts["access"]))
            if ts["refresh"] != m.rt:
                self.bad(L | {"C08", "C17"}, "account %s should hold refresh token %s but the dump has %s" % (n, m.rt, ts["refresh"]))
            if abs(ts["obtained"] - off - m.obt) > 0.05 or abs(ts["expiry"] - off - m.exp) > 0.05:
                self.bad(L | {"C17", "C10", "C29"}, "account %s: obtained/expiry dumped as %.3f/%.3f, should be %.3f/%.3f" % (
                    n, ts["obtained"] - off, ts["expiry"] - off, m.obt, m.exp))
        r = w.cli("status")
        if r.rc != 0:
            self.bad({"C28", "C29"}, "status failed: %r" % r)
        lines = r.out.rstrip("\n").split("\n")
        if len(lines) != len(self.acts):
            self.bad({"C29"}, "status printed %d lines for %d accounts: %r" % (len(lines), len(self.acts), r.out))
        if lines != sorted(lines) and [l.split(": ")[0] for l in lines] != sorted(self.acts):
            self.bad({"C29"}, "status is not sorted: %r" % r.out)
        for n, m in self.acts.items():
            ls = [l for l in lines if l.startswith(n + ": ")]
            if len(ls) != 1:
                self.bad({"C29"}, "status has %d lines for %s: %r" % (len(ls), n, r.out))
            s = ls[0][len(n) + 2:]
            pat, times = self.status_want(m)
            mm = re.fullmatch(pat, s)
            if not mm:
                self.bad({"C29"} | m.why, "status says %r for %s, expected %s" % (s, n, pat))
            for g, t in zip(mm.groups(), times):
                try:
                    got = parsedate_to_datetime(g).timestamp()
                except (ValueError, TypeError):
                    self.bad({"C29"}, "status shows time %r for %s" % (g, n))
                if abs(got - (off + t)) > 1.01:
                    self.bad({"C29"} | ({"C09"} if m.st == "P" else {"C10"}), "status says %r for %s but the time is %.2f" % (s, n, off + t))

    def status_want(self, m):
        if m.st == "E":
            return r"No access token", []
        if m.st == "P":
            if m.notif is None:
                return r"Access token pending authentication", []
            return r"Access token pending authentication \(last notification (.*)\)", [m.notif]
        if m.exp > self.now():
            return r"Active access token \(obtained (.*); expires (.*)\)", [m.obt, m.exp]
        if m.lra is not None:
            return r"Access token expired \(last refresh attempt (.*)\)", [m.lra]
        return r"Access token expired \(refresh not yet attempted\)", []

    # ------------------------------------------------ operations
    def op_show(self, name=None):
        name = name or self.pick()
        m = self.acts[name]
        L = {"C28", "C29"} | m.why
        self.labels |= L
        u = self.rng.random() < .3
        st0, active = m.st, m.st == "A" and m.exp > self.now()
        r = self.w.show(name, *(["-u"] if u else []))
        if active:
            if r.rc != 0 or r.out != m.at + "\n":
                self.bad({"C01"}, "show %s should print %s: %r" % (name, m.at, r))
            if r.err:
                self.bad({"C28"}, "show printed %r on stderr beside the token" % r.err)
            return
        if r.rc != 1 or r.out != "":
            self.bad({"C01", "C28"}, "show %s (state %s) should fail: %r" % (name, m.st, r))
        if m.st == "A":
            if m.ongoing:
                if "in progress" not in r.err:
                    self.bad({"C28", "C11"}, "show on expired token being refreshed: %r" % r)
            else:
                if "initiated" not in r.err:
                    self.bad({"C28", "C11"}, "show on expired token: %r" % r)
                self.start_refresh(m, {"C11"})
            return
        if m.st == "E":
            self.set_pending(m, {"C05", "C09"})
            self.labels |= {"C05"}
        self.saw_url(m, r, u)

    def saw_url(self, m, r, u):
        g = self.w.url_of(r)
        if u:
            if g is not None or "http" in r.err:
                self.bad({"C28"}, "a URL was shown despite -u: %r" % r)
            return
        if g is None:
            self.bad({"C28", "C05"}, "no authorisation URL: %r" % r)
        if m.url is not None and g != m.url:
            self.bad({"C28", "C09", "C05", "C06"}, "the pending URL changed from %s to %s" % (m.url, g))
        if m.url is None:
            m.url = g
            m.state = dict(parse_qsl(urlsplit(g).query)).get("state")
            if any(m.state == s for _, _, s in self.old_states):
                self.bad({"C05"}, "state %s reused" % m.state)

    def op_refresh(self):
        name = self.pick()
        m = self.acts[name]
        self.labels |= {"C28", "C11"}
        u = self.rng.random() < .3
        r = self.w.cli("refresh", *(["-u"] if u else []), name)
        if m.st == "A":
            if r.rc != 0 or r.out:
                self.bad({"C28"}, "refresh %s with a token: %r" % (name, r))
            self.start_refresh(m, {"C11"})
        else:
            if r.rc != 1 or r.out:
                self.bad({"C28"}, "refresh %s without a token: %r" % (name, r))
            self.set_pending(m, {"C05", "C09", "C06", "C07"})
            self.saw_url(m, r, u)

    def op_revoke(self):
        name = self.pick()
        m = self.acts[name]
        self.labels |= {"C02"}
        r = self.w.cli("revoke", name)
        if r.rc != 0:
            self.bad({"C28"}, "revoke: %r" % r)
        self.set_empty(m, {"C02"})
        self.event(name, "token_revoked")

    def know_url(self, m):
        if m.url is None:
            r = self.w.show(m.name)
            self.saw_url(m, r, False)

    def op_callback(self):
        c = [m for m in self.acts.values() if m.st == "P"]
        if not c:
            return self.op_show()
        m = self.rng.choice(c)
        self.know_url(m)
        code = "code-%d-%s" % (self.rng.randrange(1 << 30), self.rng.choice(["x", "é&=+ %", "a/b"]))
        self.labels |= {"C06", "C24", "C07", "C05"}
        q = dict(parse_qsl(urlsplit(m.url).query))
        st = self.w.callback(m.url, code=code, extra=self.rng.choice([None, [("scope", "a b")], [("iss", "https://x/")]]))
        if st != 200:
            self.bad({"C06", "C24"}, "a genuine redirect was answered %s" % st)
        f = Flight("X", m.name, m.ver)
        a = self.ca[m.name]
        f.conf = a
        f.challenge = q["code_challenge"]
        f.want = {"code": code, "client_id": a.client_id, "redirect_uri": q["redirect_uri"], "grant_type": "authorization_code"}
        if a.client_secret is not None:
            f.want["client_secret"] = a.client_secret
        self.fl.append(f)
        self.hist_flights.setdefault(m.name, []).append(f)
        self.send(f)

    def op_cberror(self):
        c = [m for m in self.acts.values() if m.st == "P"]
        if not c:
            return self.op_badcb()
        m = self.rng.choice(c)
        self.know_url(m)
        self.labels |= {"C06", "C07"}
        e = self.rng.choice(["access_denied", "bad thing", "é"])
        st = self.w.callback(m.url, error=e, code=self.rng.choice([None, "zz"]))
        if st != 400:
            self.bad({"C06"}, "an error redirect was answered %s" % st)
        self.set_empty(m, {"C06", "C07"})
        self.error(m.name, e)

    def op_badcb(self):
        """Requests that must change nothing."""
        r = self.rng
        self.labels |= {"C06"}
        pend = [m for m in self.acts.values() if m.st == "P"]
        k = r.choice(["stale", "wrong", "nocode", "host", "post", "nostate", "port", "path"])
        u = None
        if pend:
            m = r.choice(pend)
            self.know_url(m)
            u = m.url
        if k == "stale" and self.old_states:
            n, ou, s = r.choice(self.old_states[-6:])
            if ou is not None and not any(x.state == s for x in self.acts.values()):
                self.labels |= {"C02", "C03"}
                self.w.callback(ou, code="stolen")
                return
        if u is None:
            return
        if k == "nocode":
            self.w.callback(u)
        elif k == "host":
            self.w.callback(u, code="stolen", host="example.org" + ":" + str(urlsplit(dict(parse_qsl(urlsplit(u).query))["redirect_uri"]).port))
        elif k == "port":
            ru = urlsplit(dict(parse_qsl(urlsplit(u).query))["redirect_uri"])
            self.w.callback(u, code="stolen", host=ru.hostname + ":1")
        elif k == "post":
            self.w.callback(u, code="stolen", method=r.choice(["POST", "HEAD", "PUT", "get"]))
        elif k == "nostate":
            self.w.callback(u, code="stolen", state=False)
        else:
            self.w.callback(u, code="stolen", state=r.choice(["", "x", m.state[:-1], m.state + "A", m.state.swapcase()]) if m.state.swapcase() != m.state else "x")

    def op_answer(self):
        """Answer one outstanding token request."""
        c = [f for f in self.fl if f.phase == "wait" and f.req is not None and f.req.status == "held"]
        if not c:
            return self.op_callback() if self.rng.random() < .5 else self.op_advance()
        f = self.rng.choice(c)
        m = self.acts.get(f.act)
        self.labels |= {"C07", "C01"} if f.kind == "X" else {"C11", "C08"}
        if not self.valid(f):
            self.labels |= set(f.dead_why) | {"C13", "C07"}
        r = self.rng
        good = r.random() < self.p.get("good", .6)
        w = self.w
        name = f.act
        if good:
            ei = r.choice([3600, 3600, 1000, 86400, 600, 7 * 86400])
            at = w.mint(name, "AT")
            body = jbody(at, ei)
            x = r.random()
            rt = None
            if f.kind == "X":
                if x < .75:
                    rt = body["refresh_token"] = w.mint(name, "RT")
                elif x < .85:
                    body["refresh_token"] = r.choice([None, 17])
            else:
                rt = "KEEP"
                if x < .45:
                    rt = body["refresh_token"] = w.mint(name, "RT")
                elif x < .55:
                    rt = None
                    body["refresh_token"] = r.choice([None, 17])
            if r.random() < .3:
                body["scope"] = "é a b"
                body["id_token"] = {"x": [1, None]}
            if r.random() < .1:
                body["error"] = None
            act = J(body)
            if r.random() < .2:
                b = json.dumps(body).encode()
                act = ("raw", [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", b"%x\r\n" % 3 + b[:3] + b"\r\n", b"%x\r\n" % len(b[3:]) + b[3:] + b"\r\n0\r\n\r\n"])
            out = ("ok", at, rt, ei)
            if f.kind == "R":
                self.labels |= {"C08", "C12"}
        else:
            k = r.choice(["http", "oauth", "json", "missing", "expires", "type", "trunc", "close", "reset", "empty"])
            self.labels |= {"C22"}
            if k == "http":
                st = r.choice([400, 401, 403, 404, 429, 500, 503])
                act, out = J({"error": "zz"}, st, "No"), ("fail", "%d: " % st)
            elif k == "oauth":
                act, out = J({"error": "invalid_grant"}), ("fail", "invalid_grant")
            elif k == "json":
                act, out = J(r.choice([b"{", b"<html>", b"{\"access_token\":\"x\""])), ("fail", "JSON")
            elif k == "empty":
                act, out = J(b""), ("fail", "JSON")
            elif k == "missing":
                act, out = J({"token_type": "Bearer", "expires_in": 3600}), ("fail", "invalid response")
            elif k == "expires":
                act, out = J(jbody("BAD", r.choice(["3600", -1, 3600.5, None, True]))), ("fail", "invalid response")
            elif k == "type":
                act, out = J(jbody("BAD", 3600, token_type=r.choice(["bearer", "mac", None]))), ("fail", "invalid response")
            elif k == "trunc":
                act, out = ("raw", [b"HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"access"]), ("bodyerr", "")
            else:
                act, out = (CLOSE if k == "close" else RESET), ("transport",)
            if f.kind == "R":
                self.labels |= {"C12"} if out[0] in ("transport", "bodyerr") else {"C13"}
                if out[0] == "fail":
                    out = ("fail", "")
        f.req.release(act)
        self.answered(f, out)

    def op_down(self):
        ts = self.w.servers[self.pick()]
        if ts in self.down:
            self.w.up(ts)
            self.down.discard(ts)
        else:
            self.w.down(ts, self.rng.choice([111, 101, 113, 110]))
            self.down.add(ts)
            self.exp_conn.setdefault(ts, self.w.conn_fails(ts))

    def op_advance(self):
        """To just before / just after the next interesting time, or some random time before it."""
        r = self.rng
        n = self.now()
        t = sorted(x[0] for x in self.timers() if x[0] > n)
        if not t:
            self.w.advance(r.choice([1, 50, 4000]), settle=False)
            return
        nxt = t[0]
        if nxt - n > 2 * EPS + .1 and r.random() < .35:
            self.labels |= {"C09", "C10", "C23", "C12"}
            self.w.advance(nxt - n - EPS, settle=False)
            return
        if nxt - n > 5 and r.random() < .15:
            self.labels |= {"C09", "C10"}
            self.w.advance(r.random() * (nxt - n - 2), settle=False)
            return
        # everything within EPS of nxt happens together
        # (nothing may fall too close to the time we advance to)
        tgt = nxt + EPS
        while any(abs(x - tgt) < EPS / 2 for x in t):
            tgt += EPS / 2
        self.batch = len([x for x in t if x <= tgt]) > 1
        self.w.advance(tgt - n, settle=False)

    def op_wall(self):
        d = self.rng.choice([-86400, 86400, -3600, 3600, 40, -40, 400 * 86400])
        if self.wall + d < -REAL0 / 2:
            return
        self.wall += d
        self.labels |= {"C14"}
        self.w.step_wall(d, settle=False)

    def op_tefinish(self):
        if not self.te or self.te["run"] is None:
            return self.op_revoke()
        self.labels |= {"C15"}
        self.te["run"].finish(self.rng.choice([0, 0, 1, 3]))
        self.te = None
        self.pump()

    def op_trfinish(self):
        c = [f for f in self.fl if f.phase == "TR" and f.run is not None]
        if not c:
            return self.op_advance()
        f = self.rng.choice(c)
        self.labels |= {"C12"}
        code = self.rng.choice([0, 0, 1, 9])
        f.run.finish(code)
        self.tr_done(f, code)

    def mutate_secure(self, a):
        r = self.rng
        k = r.choice(["auth_uri", "auth_uri_fields", "client_id", "client_secret", "redirect_uri", "scopes", "token_uri", "login_hint"])
        o = a.secure()
        for _ in range(20):
            if k == "auth_uri":
                b = a.copy(auth_uri=a.auth_uri + "x")
            elif k == "auth_uri_fields":
                fs = list(a.auth_uri_fields or [])
                z = r.choice(["add", "drop", "rev", "dup", "val", "key"])
                if z == "add" or not fs:
                    fs = fs + [("n%d" % r.randrange(9), "v")]
                elif z == "drop":
                    fs = fs[:-1]
                elif z == "rev":
                    fs = fs[::-1]
                elif z == "dup":
                    fs = fs + [fs[0]]
                elif z == "val":
                    fs = fs[:-1] + [(fs[-1][0], fs[-1][1] + "!")]
                else:
                    fs = fs[:-1] + [(fs[-1][0] + "!", fs[-1][1])]
                b = a.copy(auth_uri_fields=fs)
            elif k == "client_id":
                b = a.copy(client_id=r.choice([a.client_id + "x", a.client_id.upper(), a.client_id[:-1] or "q"]))
            elif k == "client_secret":
                b = a.copy(client_secret=r.choice([None, "", (a.client_secret or "s") + "x"]))
            elif k == "redirect_uri":
                b = a.copy(redirect_uri=r.choice([None, "http://localhost/z", "http://127.0.0.1/", "https://localhost/", "http://localhost:99/"]))
            elif k == "scopes":
                s = list(a.scopes or [])
                b = a.copy(scopes=r.choice([s + ["z"], s[:-1], s[::-1], s + s[:1]]))
            elif k == "login_hint":
                b = a.copy(login_hint=r.choice([None, "you@x", "me@x"]))
            else:
                b = a.copy(token_uri=a.ts.uri("/%s/token%d" % (re.sub("[^a-z0-9]", "", a.name), r.randrange(5))))
            if b.secure() != o and not (b.login_hint is not None and any(k == "login_hint" for k, _ in b.auth_uri_fields or [])):
                return b
            k = r.choice(["auth_uri", "client_id", "scopes"])
        return a.copy(client_id=a.client_id + "y")

    def op_reload(self):
        r = self.rng
        x = r.random()
        old = dict(self.ca)
        accts, g = list(self.ca.values()), dict(self.cg)
        sev = self.p.get("secure_reload", .4)
        if x < .15:
            # invalid
            self.labels |= {"C04", "C21", "C28"}
            g2 = dict(g)
            t = conf_text([self.mutate_secure(a) for a in accts], g2)
            t = r.choice([t + "\nbogus = 1;", t + "account \"zz\" {}", "", t.replace("auth_uri = ", "auth_uri == ", 1), t + "refresh_retry = 99999999999999999999999d;", t.replace("https://", "ftp://", 1)])
            self.w.write_conf(text=t)
            if r.random() < .1:
                os.unlink(self.w.conf)
            q = self.w.cli("reload")
            if q.rc != 1 or not q.err.strip():
                self.bad({"C04", "C21", "C28"}, "an invalid configuration was reloaded: %r\n%s" % (q, t[-300:]))
            return
        changed = []
        if x < .15 + sev:
            n = r.choice([1, 1, 2])
            for i in r.sample(range(len(accts)), min(n, len(accts))):
                z = r.random()
                if z < .15 and sum(a is not None for a in accts) > 1:
                    changed.append(accts[i].name)
                    accts[i] = None
                elif z < .35 and self.past.get(accts[i].name):
                    accts[i] = r.choice(self.past[accts[i].name])
                else:
                    accts[i] = self.mutate_secure(accts[i])
            accts = [a for a in accts if a is not None]
            gone = [n for n in self.names if n not in {a.name for a in accts}]
            if gone and r.random() < .6:
                n = r.choice(gone)
                accts.append(r.choice(self.past.get(n) or [self.rand_acct(n)]))
        if r.random() < .6 or x >= .15 + sev:
            z = r.random()
            if z < .5:
                g = self.rand_glob()
            else:
                i = r.randrange(len(accts))
                accts[i] = accts[i].copy(refresh_at_least=r.choice([None, "40m", "3000s", "1h"]), refresh_before_expiry=r.choice([None, "200s", "2m", "60s"]),
                                         refresh_retry=r.choice([None, "35s", "2m", "45s"]))
            if z < .2:
                g["token_event_cmd"] = r.choice(['"TE run"', '"TE second run"'])
                g["auth_notify_cmd"] = r.choice(['"AN run"', '"AN second run"'])
        if r.random() < .3:
            r.shuffle(accts)
        self.labels |= {"C04", "C03"}
        self.w.write_conf(accts, g, rng=r if r.random() < .5 else None)
        q = self.w.cli("reload")
        if q.rc != 0:
            self.bad({"C04", "C20", "C28", "C21"}, "a valid configuration was refused: %r" % q)
        new = {a.name: a for a in accts}
        self.cg = g
        self.ca = new
        for n in set(old) | set(new):
            if n in old:
                self.past.setdefault(n, []).append(old[n])
            if n not in new:
                m = self.acts.pop(n)
                if m.state:
                    self.old_states.append((n, m.url, m.state))
                for f in self.fl:
                    if f.act == n and not f.dead_why:
                        f.dead_why = {"C03"}
                self.gone[n] = m
            elif n not in old:
                m = MA(n)
                m.ver = self.nextver = self.nextver + 1000
                m.why = {"C03"}
                self.acts[n] = m
            elif old[n].secure() != new[n].secure():
                m = self.acts[n]
                self.set_empty(m, {"C03"})
            else:
                self.acts[n].why |= {"C04"}
        # new settings may have made things due at once
        self.fire()

    def op_dump(self):
        r = self.w.dump()
        self.dumps.append((r.out, {n: (self.ca[n].secure(), (m.at, m.rt, m.obt, m.exp, self.wall) if m.st == "A" else None) for n, m in self.acts.items()}))
        if r.rc != 0:
            self.bad({"C28"}, "dump: %r" % r.err)

    def op_restore(self):
        r = self.rng
        self.labels |= {"C18", "C17"}
        if not self.dumps or r.random() < .15:
            self.labels |= {"C19"}
            base = self.w.dump().out
            k = r.choice(["garbage", "trunc", "flip", "empty", "version", "undec"])
            if k == "garbage":
                b = r.randbytes(r.randrange(0, 300))
            elif k == "trunc":
                b = base[:r.randrange(len(base) or 1)]
            elif k == "flip":
                i = r.randrange(len(base) or 1)
                b = base[:i] + bytes([base[i] ^ (1 << r.randrange(8))]) + base[i + 1:]
            elif k == "empty":
                b = b""
            elif k == "version":
                b = codec.encode(codec.decode(base), r.choice([0, 2, 1 << 40]))
            else:
                pt = codec.decrypt(base)
                b = codec.encrypt(pt[:r.randrange(len(pt))])
            q = self.w.cli("restore", input=b)
            if q.rc != 1 or not q.err.strip():
                self.bad({"C19", "C28"}, "a bad dump (%s) was accepted: %r" % (k, q))
            return
        b, snap = r.choice(self.dumps[-4:])
        q = self.w.cli("restore", input=b)
        if q.rc != 0:
            self.bad({"C17", "C19", "C28"}, "restore of a good dump failed: %r" % q)
        for n, (sec, tok) in snap.items():
            m = self.acts.get(n)
            if m is None or m.st == "A" or tok is None or sec != self.ca[n].secure():
                if m is not None:
                    m.why |= {"C18"}
                continue
            at, rt, obt, exp, wall = tok
            # the dump holds wall clock times
            self.set_active(m, at, rt, obt + wall - self.wall, exp + wall - self.wall, {"C17", "C18"})
        self.fire()

    def pick(self):
        if self.tangle and self.focus in self.acts:
            return self.focus
        return self.rng.choice(sorted(self.acts))

    # ------------------------------------------------ main loop
    OPS = {"show": 10, "refresh": 5, "revoke": 3, "callback": 12, "cberror": 2, "badcb": 4, "answer": 22, "down": 2, "advance": 20, "wall": 2, "tefinish": 2,
           "trfinish": 2, "reload": 4, "dump": 2, "restore": 3}

    def run(self):
        w, r = self.w, self.rng
        self.names = r.sample(["alice", "bob", "c a r l", "dé"], r.choice([1, 2, 2, 3]))
        self.ca = {n: self.rand_acct(n) for n in self.names}
        self.cg = self.rand_glob()
        self.past, self.gone, self.hist_flights = {}, {}, {}
        self.nextver = 0
        self.down, self.exp_conn = set(), {}
        self.acts = {n: MA(n) for n in self.names}
        self.tangle, self.focus = 0, None
        self.te_hold = self.tr_hold = False
        self.tr_code = 0
        self.an_hold = False
        self.batch = False

        def policy(req):
            return HOLD

        for s in list(w.servers.values()):
            s.policy = policy
        w.default_policy = policy

        def shp(run):
            if run.kind == "TE":
                return "hold" if self.te_hold else 0
            if run.kind == "TR":
                return "hold" if self.tr_hold else self.tr_code
            return "hold" if self.an_hold else 0

        w.sh.policy = shp
        w.start(list(self.ca.values()), self.cg)
        w.settle()
        ops = dict(self.OPS)
        ops.update(self.p.get("ops", {}))
        names, weights = list(ops), list(ops.values())
        for i in range(self.nops):
            if not self.tangle and self.fl and r.random() < self.p.get("tangle", .12):
                # several commands about one account while something of its is under way
                self.focus = r.choice(self.fl).act
                self.tangle = r.randrange(2, 6)
            # hold modes must not change while the model assumes otherwise
            if self.te is None and not self.evq:
                self.te_hold = r.random() < self.p.get("te_hold", .15)
            self.tr_hold = r.random() < .5
            self.tr_code = r.choice([0, 0, 1])
            self.an_hold = r.random() < .2
            if self.tangle:
                self.tangle -= 1
                op = r.choices(["refresh", "reload", "revoke", "restore", "show", "callback", "cberror", "dump"], [6, 6, 2, 2, 4, 6, 1, 1])[0]
            else:
                op = r.choices(names, weights)[0]
            if op == "restore" and any(f for f in self.fl) and r.random() < .3:
                op = "answer"
            self.opname = op
            self.labels = set()
            self.batch = False
            self.hist.append(op)
            w.log("--", i, op)
            getattr(self, "op_" + op)()
            self.sync()
            if r.random() < self.p.get("deep", .5):
                self.deep()
            if w.panics():
                self.bad({"C22", "C31"}, "panic")
        self.opname = "final"
        self.labels = set()
        self.sync()
        self.deep()
        return self

"""Event commands: what they see, and that each is delivered once, in order, one at a time, whatever becomes of the others."""
import json, os, random, threading, time
from . import codec
from .core import scenario
from .world import *
from .scn_dump import token_state, rname

FAR = {"refresh_at_least": "100d", "token_event_cmd": '"TE run"'}


class Chain:
    """The successive tokens of an account (None: no token)."""

    def __init__(self, name):
        self.name = name
        self.ch = []      # (event, access token or None) in order
        self.seen = 0     # event commands that started

    def add(self, ev, at):
        self.ch.append((ev, at))


def inspector(c, w, chains, bad, r, exact, how=("dump",)):
    """A token_event_cmd that looks around."""
    lock = threading.Lock()

    def pol(run):
        if run.kind != "TE":
            return 0
        with lock:
            ch = chains.get(run.act)
            i = ch.seen
            ch.seen += 1
        names = list(how)
        random.Random(run.seq).shuffle(names)
        t0 = time.monotonic()
        try:
            for k in names:
                if k == "dump":
                    d = codec.decode(w.dump().out)[run.act][1]
                    got = d and d["access"]
                elif k == "rawdump":
                    d = codec.decode(w.raw_sock(b"dump:"))[run.act][1]
                    got = d and d["access"]
                elif k == "show":
                    if run.event in ("token_revoked", "token_invalidated"):
                        continue  # show would ask for a new token
                    x = w.show(run.act, "-u")
                    got = x.out.strip() if x.rc == 0 else None
                else:
                    x = w.cli("status")
                    l = [y for y in x.out.split("\n") if y.startswith(run.act + ": ")]
                    if len(l) != 1:
                        bad.append("status run from %r says %s" % (run, x))
                        continue
                    has = l[0][len(run.act) + 2:].startswith(("Active", "Access token expired"))
                    with lock:
                        poss = ch.ch[i:i + 1] if exact else ch.ch[i:]
                    if poss and not any((t is not None) == has for _, t in poss):
                        bad.append("status run from %r says %r, changes so far %s" % (run, l[0], poss))
                    continue
                with lock:
                    poss = ch.ch[i:i + 1] if exact else ch.ch[i:]
                if not poss:
                    bad.append("%r announces a change nobody made" % run)
                elif got not in [t for _, t in poss]:
                    bad.append("%s run from %r shows %s; this event is about %s%s" % (k, run, got, poss[0], ", changes since: %s" % poss[1:] if poss[1:] else ""))
                elif poss[0][0] != run.event:
                    bad.append("%r: expected to announce %s" % (run, poss[0]))
                c.case(("looked", run.event, k, len(poss) > 1), True)
        except Violation as v:
            bad.append(v.msg)
        except Exception as e:
            bad.append("%s from within %r: %r" % (names, run, e))
        if time.monotonic() - t0 > 18:
            bad.append("commands run from %r took %.1f s" % (run, time.monotonic() - t0))
        return 0

    return pol


@scenario(["C16", "C15"], racy=True, n=40, nt=1500)
def look_exact(c):
    """One change at a time; the command looks at the state in every way there is."""
    r = c.rng
    w = c.world(verbose=0)
    used = set()
    A = [w.acct(rname(r, used)) for _ in range(r.choice([1, 3]))]
    chains = {a.name: Chain(a.name) for a in A}
    bad = []
    kind = {}

    def pol(q):
        ch = chains[q.act]
        m = kind.get(q.act, "ok")
        if m == "lost":
            return CLOSE
        if m == "ok":
            g = w.grant(q, r.choice([3600, 10**7]), refresh=r.random() < .8)
            if q.f("grant_type") == "refresh_token" and not q.issued["refresh"]:
                pass
            ch.add("token_new" if q.f("grant_type") == "authorization_code" else "token_refreshed", q.issued["access"])
            return g
        if q.f("grant_type") == "refresh_token":
            ch.add("token_invalidated", None)
        return r.choice([J({"error": "invalid_grant"}), J({"error": "x"}, 400, "Bad"), ("reply", 500, "E", [], b"oops"), ("reply", 200, "OK", [], b"{}")])

    w.default_policy = pol
    if r.random() < .5:
        w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(500, 1000), (500, 8000), (500, 60000), (300, 150000), (500, 60000)])
        late = r.random() < .5
        if late:
            w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(60, 60000), (60, 150000), (250, 60000)])
        else:
            w.ctl.chaos_share = r.choice([0, 300, 500])
    else:
        late = False
    look = inspector(c, w, chains, bad, r, True, r.choice([("dump", "show", "status"), ("rawdump",), ("rawdump", "status"), ("show",), ("status", "dump")]))
    w.sh.policy = lambda run: r.choice([1, 7, 255]) if run.kind == "TR" else look(run)
    w.start(A, dict(FAR, transient_error_if_cmd='"TR run"'))
    if late:
        w.delay_late_threads()
    gave_up = 0
    for i in range(12):
        a = r.choice(A).name
        ch = chains[a]
        cur = ch.ch[-1][1] if ch.ch else None
        k = len(ch.ch)
        o = r.choice(["new", "new", "refresh", "refresh", "reject", "revoke", "norefresh"] + ["give_up"] * (4 if late else 1))
        if o == "give_up" and cur is not None and gave_up < 2 and codec.decode(w.raw_sock(b"dump:"))[a][1]["refresh"] is not None:
            gave_up += 1
            kind[a] = "lost"
            for k in range(6):
                if k == 5:
                    ch.add("token_invalidated", None)
                x = w.cli("refresh", a)
                c.check(x.rc == 0, ["C28"], "refresh %s" % x)
                w.settle()
            c.case(("gave up", len(w.runs("TR", a))), True)
        elif o == "new" or (cur is None and o != "revoke"):
            kind[a] = "ok"
            if cur is not None:
                continue
            w.authorise(a)
        elif o == "revoke":
            ch.add("token_revoked", None)
            x = w.cli("revoke", a)
            c.check(x.rc == 0, ["C28"], "revoke %s" % x)
        else:
            kind[a] = "no" if o == "reject" else "ok"
            d = codec.decode(w.raw_sock(b"dump:"))[a][1]
            if d["refresh"] is None:
                ch.add("token_invalidated", None)
            w.cli("refresh", a)
        w.settle()
        if bad:
            c.fail(["C16"], bad[0])
        if w.confirm(lambda: ch.seen != len(ch.ch)):
            c.fail(["C15", "C16"], "%d changes of %s, %d event commands: %s, %s" % (len(ch.ch), a, ch.seen, ch.ch, w.runs("TE", a)))
        c.check([x.event for x in w.runs("TE", a)] == [e for e, _ in ch.ch], ["C15"], "changes %s, events %s" % (ch.ch, w.runs("TE", a)))


@scenario(["C16", "C15", "C31"], racy=True, n=40, nt=1500)
def look_rapid(c):
    """Many accounts change at once, with delays injected; each command must see its change or a newer one."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("r%d" % i) for i in range(r.choice([2, 4, 8]))]
    chains = {a.name: Chain(a.name) for a in A}
    bad = []

    def pol(q):
        g = w.grant(q, 10**7)
        with w.lock:
            chains[q.act].add("token_new" if q.f("grant_type") == "authorization_code" else "token_refreshed", q.issued["access"])
        return g

    w.default_policy = pol
    w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(300, 1000), (500, 4000), (700, 15000), (200, 30000), (150, 100000), (150, 100000)])
    late = r.random() < .5
    if late:
        w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(60, 60000), (60, 150000), (250, 60000)])
    else:
        w.ctl.chaos_share = r.choice([0, 300, 500])
    w.sh.policy = inspector(c, w, chains, bad, r, False, r.choice([("rawdump",), ("rawdump", "status"), ("dump", "show")]))
    w.start(A, dict(FAR))
    if late:
        w.delay_late_threads()
    errs = []

    def user(a, seed):
        rr = random.Random(seed)
        ch = chains[a]
        try:
            for i in range(4):
                n = len(ch.ch)
                b = w.raw_sock(("showtoken:withurl " + a).encode(), timeout=60)
                if b.startswith(b"pending:"):
                    st = w.callback(b[8:].decode(), code="c%d" % i)
                    if st != 200:
                        errs.append("callback answered %s" % st)
                        return
                elif rr.random() < .6:
                    w.raw_sock(("refresh:withurl " + a).encode(), timeout=60)
                else:
                    with w.lock:
                        ch.add("token_revoked", None)
                    w.raw_sock(("revoke:" + a).encode(), timeout=60)
                    continue
                # until this change has happened no other may be made, or their order is anybody's guess
                t0 = time.monotonic()
                while time.monotonic() - t0 < 30:
                    if len(ch.ch) > n:
                        b = w.raw_sock(("showtoken:withouturl " + a).encode(), timeout=60)
                        if b == b"access_token:" + ch.ch[-1][1].encode():
                            break
                    time.sleep(.003)
                else:
                    errs.append("%s: change %d did not happen" % (a, i))
                    return
        except Violation as v:
            bad.append(v.msg)
        except Exception as e:
            errs.append(repr(e))

    th = [threading.Thread(target=user, args=(a.name, r.randrange(1 << 30))) for a in A]
    [t.start() for t in th]
    [t.join() for t in th]
    w.ctl.chaos_prob = 0
    w.settle(timeout=40)
    if bad:
        c.fail(["C16"], bad[0])
    if errs:
        raise Inconclusive(errs[0])
    for a, ch in chains.items():
        if w.confirm(lambda: [x.event for x in w.runs("TE", a)] != [e for e, _ in ch.ch]):
            c.fail(["C15"], "changes of %s: %s; events announced: %s" % (a, ch.ch, w.runs("TE", a)))


def changes(c, w, r, A, n, log):
    """n settled changes of random accounts; log gets (account, event)."""
    has = {}
    for a in A:
        s = w.raw_sock(b"dump:")
        has[a.name] = codec.decode(s)[a.name][1] is not None
    for i in range(n):
        a = r.choice(A).name
        if not has[a]:
            w.callback(w.raw_sock(("showtoken:withurl " + a).encode())[8:].decode(), code="c")
            w.settle()
            log.append((a, "token_new"))
            has[a] = True
        elif r.random() < .6:
            w.raw_sock(("refresh:withurl " + a).encode())
            w.settle()
            log.append((a, "token_refreshed"))
        else:
            w.raw_sock(("revoke:" + a).encode())
            w.settle()
            log.append((a, "token_revoked"))
            has[a] = False


@scenario(["C15"], n=24, nt=500)
def deep_queue(c):
    """A long queue behind one slow command; commands that fail, die, hang, cannot be started; reconfiguration while events wait."""
    r = c.rng
    w = c.world(verbose=0)
    used = set()
    A = [w.acct(rname(r, used)) for _ in range(4)]
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.sh.policy = lambda run: "hold" if run.kind == "TE" else 0
    w.start(A, dict(FAR))
    log = []
    cmds = []
    n = 280 + r.randrange(60) if c.idx % 12 == 3 else r.choice([5, 30, 90])
    changes(c, w, r, A, n, log)
    done = 0
    cmd = "TE run"

    def check_running():
        te = w.runs("TE")
        if w.confirm(lambda: len(w.runs("TE")) != done + 1 if done < len(log) else len(w.runs("TE")) != done):
            c.fail(["C15"], "%d changes made, %d event commands done: %d were started" % (len(log), done, len(w.runs("TE"))))
        for x, (a, e) in zip(w.runs("TE"), log):
            c.check((x.act, x.event) == (a, e), ["C15"], "event command #%d is %r, should announce %s of %s" % (x.seq, x, e, a))
        if done < len(log):
            x = w.runs("TE")[done]
            c.check(x.argv[1:] == ["-c", cmd], ["C15"], "event command run as %s, configured %r" % (x.argv, cmd))

    w.settle()
    check_running()
    while done < len(log):
        x = w.runs("TE")[done]
        k = r.choice(["ok", "ok", "fail", "sig", "segv", "hang", "more", "recmd", "loud", "drop"])
        if n > 200 and r.random() < .9:
            k = "ok"
        if k == "hang":
            w.advance(r.uniform(20, 29.5))
            c.check(x.status == "held", ["C15"], "an event command was cut off early")
            w.advance(31.0 - (w.now() - x.t_start))
            w.settle()
            if w.confirm(lambda: x.status != "killed"):
                c.fail(["C15"], "a hanging event command was not cut off: %r" % x)
        elif k == "more":
            if len(log) < 150:
                changes(c, w, r, A, r.randrange(1, 4), log)
            check_running()
            continue
        elif k == "recmd":
            cmd = r.choice(["TE run", "TE other", "TE 'x' $y \\ \"z\""])
            g = dict(FAR, token_event_cmd=cstr(cmd))
            w.write_conf(A, g)
            c.check(w.raw_sock(b"reload:") == b"ok:", ["C04", "C20"], "reload failed")
            x.finish(0)
        elif k == "drop":
            # what happened to an account that is no longer configured is still announced
            A = A[:1]
            w.write_conf(A, dict(FAR, token_event_cmd=cstr(cmd)))
            c.check(w.raw_sock(b"reload:") == b"ok:", ["C04", "C20"], "reload failed")
            x.finish(0)
        elif k == "loud":
            x.out(100000)
            x.finish(0)
        else:
            {"ok": lambda: x.finish(0), "fail": lambda: x.finish(r.choice([1, 2, 127])), "sig": lambda: x.sig(15), "segv": lambda: x.sig(11)}[k]()
        t0 = time.monotonic()
        while x.status == "held" and time.monotonic() - t0 < 10:
            time.sleep(.001)
        done += 1
        w.settle()
        check_running()
        c.case(("after", k, done < len(log)), True)
    # no more, ever
    w.advance(100)
    c.check(len(w.runs("TE")) == len(log), ["C15"], "extra event commands: %s" % w.runs("TE")[len(log):])


@scenario(["C15", "C20"], n=16, nt=300)
def cmd_off_on(c):
    """Events while no command is configured are nobody's; later ones are delivered and nothing stale with them."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("a"), w.acct("b")]
    w.default_policy = lambda q: w.grant(q, 10**7)
    hold = r.random() < .5
    w.sh.policy = lambda run: "hold" if run.kind == "TE" and hold else 0
    on = r.random() < .5
    g = dict(FAR)
    off = {k: v for k, v in FAR.items() if k != "token_event_cmd"}
    w.start(A, g if on else off)
    exp = []
    for ph in range(4):
        log = []
        changes(c, w, r, A, r.randrange(1, 4), log)
        w.settle()
        if on:
            exp += log
        if hold:
            # let everything queued run before the next phase
            for i in range(40):
                h = [x for x in w.sh.runs if x.status == "held"]
                if not h:
                    break
                if i == 0 and r.random() < .3:
                    # the rest of the queue is without a command once it's its turn
                    n = len(w.runs("TE"))
                    w.write_conf(A, off)
                    w.raw_sock(b"reload:")
                    exp = exp[:n]
                    h[0].finish(0)
                    t0 = time.monotonic()
                    while h[0].status == "held" and time.monotonic() - t0 < 10:
                        time.sleep(.001)
                    w.settle()
                    c.case("command removed while events waited")
                    break
                h[0].finish(0)
                t0 = time.monotonic()
                while h[0].status == "held" and time.monotonic() - t0 < 10:
                    time.sleep(.001)
                w.settle()
        if w.confirm(lambda: [(x.act, x.event) for x in w.runs("TE")] != exp):
            c.fail(["C15"], "events %s, expected %s" % (w.runs("TE"), exp))
        on = not on if r.random() < .8 else on
        w.write_conf(A, g if on else off)
        w.raw_sock(b"reload:")
        w.settle()
        if r.random() < .3:
            w.advance(50)
        if w.confirm(lambda: [(x.act, x.event) for x in w.runs("TE")] != exp):
            c.fail(["C15"], "after a reload events %s, expected %s" % (w.runs("TE"), exp))
        c.case(("phase", on, hold))


@scenario(["C15", "C22", "C23", "C09"], n=10, nt=100)
def no_shell(c):
    """$SHELL is missing, wrong or not executable: commands cannot run, everything else can."""
    r = c.rng
    w = c.world(verbose=0)
    k = r.choice(["unset", "missing", "dir", "noexec", "empty"])
    p = os.path.join(w.dir, "notexec")
    open(p, "w").write("#!/bin/sh\n")
    if k == "unset":
        del w.env["SHELL"]
    else:
        w.env["SHELL"] = {"missing": "/nonexistent/sh", "dir": w.dir, "noexec": p, "empty": ""}[k]
    A = [w.acct("a"), w.acct("b"), w.acct("t", refresh_retry="1s")]
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.start(A, dict(FAR, auth_notify_cmd='"AN run"', error_notify_cmd='"EN run"', transient_error_if_cmd='"TR run"'))
    w.authorise("a")
    w.authorise("t")
    w.callback(w.auth_url("b"), error="nope")
    w.settle()
    w.cli("refresh", "a")
    w.settle()
    w.cli("revoke", "a")
    w.authorise("a")
    c.check(w.token("a") is not None, ["C15", "C23"], "no token with SHELL %s" % k)
    w.down(A[2].ts)
    for i in range(6):
        w.advance(2)
        w.cli("refresh", "t")
        w.settle()
    c.check(w.cli("status").rc == 0 and w.alive(), ["C22", "C15"], "server unwell with SHELL %s" % k)
    w.advance(100)
    c.check(not w.sh.runs, ["C15"], "commands ran somehow: %s" % w.sh.runs)
    u = w.auth_url("b")
    c.check(w.callback(u, code="x") == 200, ["C15", "C07"], "callback with SHELL %s" % k)
    w.settle()
    c.check(w.token("b") is not None, ["C07", "C15"], "no token for b with SHELL %s" % k)
    c.case(("shell", k))

"""One observed world: a real pizauth server, fake token servers, a fake $SHELL, real CLI clients and
virtual clocks. Everything the monitors see is recorded here, at the boundary of the server."""
import atexit, base64, ctypes, hashlib, http.client, json, mmap, os, random, re, shutil, signal, socket, ssl
import struct, subprocess, tempfile, threading, time, traceback
from urllib.parse import parse_qsl, urlsplit, quote


class Violation(Exception):
    """A property was refuted by an observation."""

    def __init__(self, props, msg):
        self.props = [props] if isinstance(props, str) else list(props)
        self.msg = msg
        super().__init__("%s: %s" % (",".join(self.props), msg))


class Inconclusive(Exception):
    """The harness could not decide (watchdog fired, never became idle, ...): never a violation."""


# --------------------------------------------------------------------------- control block
NSLOT, NPORT = 512, 64


class _Slot(ctypes.Structure):
    _fields_ = [("tid", ctypes.c_int32), ("kind", ctypes.c_int32), ("deadline", ctypes.c_int64), ("acked", ctypes.c_uint64)]


class _Port(ctypes.Structure):
    _fields_ = [("port", ctypes.c_int32), ("err", ctypes.c_int32), ("hits", ctypes.c_int32), ("pad", ctypes.c_int32)]


class _Dns(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char * 64), ("err", ctypes.c_int32), ("hits", ctypes.c_int32)]


class _Ctl(ctypes.Structure):
    _fields_ = (
        [("magic", ctypes.c_uint64)]
        + [(x, ctypes.c_int32) for x in ("mode", "chaos_prob", "chaos_max_us", "chaos_seed")]
        + [(x, ctypes.c_int64) for x in ("base", "mono_off", "boot_off", "real_off")]
        + [(x, ctypes.c_uint64) for x in ("epoch", "tick", "activity", "n_clock", "n_wait", "n_timeout", "n_connect_ok",
                                           "n_connect_fail", "n_chaos", "n_yield", "n_utimens", "n_openw", "n_recv_to", "n_thread")]
        + [("last_utimens_mono", ctypes.c_int64), ("last_utimens_path", ctypes.c_char * 256)]
        + [("ports", _Port * NPORT), ("slots", _Slot * NSLOT), ("chaos_until", ctypes.c_int64),
           ("chaos_share", ctypes.c_int32), ("chaos_above", ctypes.c_int32),
           ("dns", _Dns * 16), ("n_dns", ctypes.c_uint64), ("chaos_atomic", ctypes.c_int32), ("gate_tid", ctypes.c_int32),
           ("n_atomic", ctypes.c_uint64), ("gate_at", ctypes.c_int32), ("gate_n", ctypes.c_int32), ("gate_in", ctypes.c_int32), ("gate_kind", ctypes.c_int32),
           ("n_gate", ctypes.c_uint64), ("gate_fine", ctypes.c_int32), ("pad2", ctypes.c_int32)]
    )


MONO0, BOOT0 = 1_000_000, 1_000_500  # seconds
REAL0 = 1_800_000_000  # some day in 2027
NS = 1_000_000_000


# --------------------------------------------------------------------------- token servers
class Req:
    """One HTTP request seen by a token server."""

    def __init__(self):
        self.n = 0
        self.act = self.method = self.path = None
        self.headers, self.body, self.form, self.raw = [], b"", [], b""
        self.t_recv = self.t_done = None
        self.r_recv = self.r_ans = None
        self.status = "open"  # open, held, done
        self.issued = None
        self.action = None
        self.ev = threading.Event()
        self.conn = None
        self.w = None
        self.eof = False

    def f(self, k):
        v = [b for a, b in self.form if a == k]
        return v[0] if len(v) == 1 else (None if not v else v)

    @property
    def grant(self):
        return self.f("grant_type")

    def release(self, action):
        if self.w is not None:
            self.w.log("answer to", self.act, "#%d" % self.n, self.grant, ":", str(action)[:300])
        self.action = action
        self.ev.set()

    def __repr__(self):
        return "Req#%d(%s %s %s %s)" % (self.n, self.act, self.path, self.form, self.status)


def J(d, status=200, reason="OK", headers=None):
    """A JSON reply action."""
    return ("reply", status, reason, headers or [("Content-Type", "application/json")], json.dumps(d).encode() if not isinstance(d, bytes) else d)


HOLD = ("hold",)
CLOSE = ("close",)
RESET = ("reset",)


class TokenServer:
    """A token server: one port, one account owner. `policy(req)` returns an action."""

    def __init__(self, world, name):
        self.w, self.name = world, name
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(256)
        self.s.settimeout(0.25)
        self.closing = False
        self.port = self.s.getsockname()[1]
        self.reqs = []
        self.policy = None
        self.accepted = 0
        self.busy = 0
        self.down_err = 0
        threading.Thread(target=self._accept, daemon=True).start()

    def uri(self, path="/token"):
        return "http://127.0.0.1:%d%s" % (self.port, path)

    def _accept(self):
        # The thread that accepts is the one that closes: closing a descriptor another thread is blocked on lets
        # that thread pick up whatever reuses the number.
        while not self.closing:
            try:
                c, _ = self.s.accept()
            except TimeoutError:
                continue
            except OSError:
                break
            c.settimeout(None)
            with self.w.lock:
                self.busy += 1
                self.accepted += 1
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()
        self.s.close()

    def _serve(self, c):
        w = self.w
        r = Req()
        r.conn = c
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            buf = b""
            while b"\r\n\r\n" not in buf:
                with w.lock:
                    self.busy -= 1
                try:
                    d = c.recv(65536)
                finally:
                    with w.lock:
                        self.busy += 1
                if not d:
                    return
                buf += d
            head, body = buf.split(b"\r\n\r\n", 1)
            lines = head.split(b"\r\n")
            r.method, r.path = [x.decode("latin1") for x in lines[0].split(b" ")[:2]]
            r.headers = [(a.decode("latin1").strip().lower(), b.decode("latin1").strip()) for a, _, b in (x.partition(b":") for x in lines[1:])]
            h = dict(r.headers)
            if "content-length" in h:
                n = int(h["content-length"])
                while len(body) < n:
                    d = c.recv(65536)
                    if not d:
                        break
                    body += d
            elif h.get("transfer-encoding", "").lower() == "chunked":
                while not body.endswith(b"0\r\n\r\n"):
                    d = c.recv(65536)
                    if not d:
                        break
                    body += d
                out, rest = b"", body
                while rest:
                    ln, _, rest = rest.partition(b"\r\n")
                    k = int(ln.split(b";")[0], 16)
                    if k == 0:
                        break
                    out += rest[:k]
                    rest = rest[k + 2:]
                body = out
            r.body, r.raw = body, buf
            try:
                r.form = parse_qsl(body.decode("utf8"), keep_blank_values=True)
            except UnicodeDecodeError:
                r.form = []
            r.act = self.name
            with w.lock:
                r.n = w.next_seq()
                r.w = w
                r.t_recv = w.now()
                r.r_recv = time.monotonic()
                self.reqs.append(r)
                w.reqs.append(r)
            a = (self.policy or w.default_policy)(r)
            if a is HOLD or a[0] == "hold":
                with w.lock:
                    r.status = "held"
                    self.busy -= 1
                while not r.ev.wait(0.05):
                    if not r.eof:
                        try:
                            if c.recv(1, socket.MSG_PEEK | socket.MSG_DONTWAIT) == b"":
                                r.eof = True
                        except (BlockingIOError, InterruptedError):
                            pass
                        except OSError:
                            r.eof = True
                    if w.closed:
                        with w.lock:
                            self.busy += 1
                        return
                with w.lock:
                    self.busy += 1
                a = r.action
            self._do(c, r, a)
        except (OSError, ValueError, IndexError):
            if w.debug:
                traceback.print_exc()
        finally:
            try:
                c.close()
            except OSError:
                pass
            with w.lock:
                r.status = "done"
                r.t_done = w.now()
                self.busy -= 1

    def _do(self, c, r, a):
        if a is None:  # the world is closing
            return
        r.r_ans = time.monotonic()
        k = a[0]
        if k == "reply":
            _, st, reason, headers, body = a
            out = ("HTTP/1.1 %d %s\r\n" % (st, reason)).encode()
            hs = list(headers)
            if not any(x.lower() in ("content-length", "transfer-encoding") for x, _ in hs):
                hs.append(("Content-Length", str(len(body))))
            hs.append(("Connection", "close"))
            out += b"".join(("%s: %s\r\n" % x).encode("utf8") for x in hs) + b"\r\n" + body
            c.sendall(out)
        elif k == "raw":
            for piece in a[1]:
                c.sendall(piece)
            if len(a) > 2 and a[2] == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif k == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif k == "close":
            pass
        try:
            c.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self):
        self.closing = True


# --------------------------------------------------------------------------- fake shell
class Run:
    """One command the server ran through $SHELL."""

    def __init__(self):
        self.pid = 0
        self.argv, self.env, self.envl = [], {}, []
        self.t_start = self.t_end = None
        self.status = "running"
        self.conn = None
        self.seq = 0
        self.end_seq = None
        self.stat0 = None  # (parent, start time) of the process
        self.overlap = []  # event commands of the same server still alive when this one started
        self.told = None

    @property
    def cmd(self):
        return self.argv[2] if len(self.argv) > 2 else None

    @property
    def kind(self):
        c = self.cmd or ""
        return c.split(" ")[0]

    @property
    def act(self):
        return self.env.get("PIZAUTH_ACCOUNT")

    @property
    def event(self):
        return self.env.get("PIZAUTH_EVENT")

    @property
    def url(self):
        return self.env.get("PIZAUTH_URL")

    @property
    def msg(self):
        return self.env.get("PIZAUTH_MSG")

    def finish(self, code=0):
        try:
            self.told = code
            self.conn.sendall(struct.pack("<II", 0, code))
        except OSError:
            pass

    def sig(self, n):
        try:
            self.told = -n
            self.conn.sendall(struct.pack("<II", 2, n))
        except OSError:
            pass

    def out(self, n):
        try:
            self.conn.sendall(struct.pack("<II", 1, n))
        except OSError:
            pass

    def __repr__(self):
        return "Run#%d(%s acct=%s ev=%s url=%s msg=%r t=%s %s)" % (self.seq, self.cmd, self.act, self.event, (self.url or "")[-30:], self.msg, self.t_start, self.status)


def pstat(pid):
    """(state, parent, start time) of a process, or None."""
    try:
        with open("/proc/%d/stat" % pid) as fh:
            b = fh.read()
        f = b[b.rindex(")") + 2:].split(" ")
        return f[0], int(f[1]), int(f[19])
    except (OSError, ValueError, IndexError):
        return None


class ShellHost:
    def __init__(self, world):
        self.w = world
        self.path = os.path.join(world.dir, "sh.sock")
        self.s = socket.socket(socket.AF_UNIX)
        self.s.bind(self.path)
        self.s.listen(512)
        self.s.settimeout(0.25)
        self.closing = False
        self.runs = []
        world.sh_broken = 0
        self.pids = set()
        self.busy = 0
        self.policy = lambda run: 0
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        # The thread that accepts is the one that closes: closing a descriptor another thread is blocked on lets
        # that thread pick up whatever reuses the number.
        while not self.closing:
            try:
                c, _ = self.s.accept()
            except TimeoutError:
                continue
            except OSError:
                break
            c.settimeout(None)
            with self.w.lock:
                self.busy += 1
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()
        self.s.close()

    def _rd(self, c, n):
        b = b""
        while len(b) < n:
            d = c.recv(n - len(b))
            if not d:
                raise OSError("eof")
            b += d
        return b

    def _serve(self, c):
        w = self.w
        r = Run()
        r.conn = c
        registered = False
        try:
            r.pid, ac, ec = struct.unpack("<III", self._rd(c, 12))

            def s():
                (n,) = struct.unpack("<I", self._rd(c, 4))
                return self._rd(c, n).decode("utf8", "surrogateescape")

            r.argv = [s() for _ in range(ac)]
            r.envl = [s() for _ in range(ec)]
            r.env = dict(x.split("=", 1) for x in r.envl if "=" in x)
            st = pstat(r.pid)
            r.stat0 = st and st[1:]
            with w.lock:
                if r.kind == "TE" and st:
                    for o in self.runs[-40:]:
                        if o.kind == "TE" and o.stat0 and o.stat0[0] == r.stat0[0]:
                            s2 = pstat(o.pid)
                            if s2 and s2[0] not in "ZX" and s2[1:] == o.stat0:
                                r.overlap.append(o)
                r.seq = w.next_seq()
                r.t_start = w.now()
                self.runs.append(r)
                self.pids.add(r.pid)
                registered = True
            p = self.policy(r)
            if p is not None and p != "hold":
                r.finish(p)
                # wait for it to die before we call the run handled
                try:
                    c.recv(1)
                except OSError:
                    pass
                with w.lock:
                    r.status = "done"
                    r.t_end = w.now()
                    r.end_seq = w.next_seq()
                    self.busy -= 1
                return
            with w.lock:
                r.status = "held"
                self.busy -= 1
            try:
                c.recv(1)
            except OSError:
                pass
            with w.lock:
                r.status = "done" if r.told is not None else "killed"
                r.t_end = w.now()
                r.end_seq = w.next_seq()
        except (OSError, struct.error) as e:
            w.log("shell run broken:", repr(e), "pid", r.pid, r.argv, "registered", registered)
            w.sh_broken += 1
            with w.lock:
                if not registered:
                    self.busy -= 1
                elif r.status == "running":
                    r.status = "broken"
                    self.busy -= 1
        finally:
            try:
                c.close()
            except OSError:
                pass

    def close(self):
        self.closing = True


# --------------------------------------------------------------------------- accounts / config
def cstr(s):
    """A string literal of pizauth.conf."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Acct:
    """What the configuration says about an account (python values; None = omitted)."""

    SECURE = ("auth_uri", "auth_uri_fields", "client_id", "client_secret", "redirect_uri", "scopes", "token_uri")

    def __init__(self, name, **kw):
        self.name = name
        self.auth_uri = kw.get("auth_uri", "https://auth.example.com/%s/authorize" % quote(name, safe=""))
        self.token_uri = kw.get("token_uri")
        self.client_id = kw.get("client_id", "cid-" + name)
        self.client_secret = kw.get("client_secret", "sec-" + name + "-secretsecret")
        self.scopes = kw.get("scopes", ["s1", "s2"])
        self.auth_uri_fields = kw.get("auth_uri_fields")
        self.redirect_uri = kw.get("redirect_uri")
        self.login_hint = kw.get("login_hint")
        self.refresh_at_least = kw.get("refresh_at_least")
        self.refresh_before_expiry = kw.get("refresh_before_expiry")
        self.refresh_retry = kw.get("refresh_retry")
        self.ts = kw.get("ts")  # TokenServer

    def copy(self, **kw):
        a = Acct(self.name)
        a.__dict__.update(self.__dict__)
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def text(self, rng=None):
        o = []
        o.append("auth_uri = %s;" % cstr(self.auth_uri))
        o.append("token_uri = %s;" % cstr(self.token_uri))
        o.append("client_id = %s;" % cstr(self.client_id))
        if self.client_secret is not None:
            o.append("client_secret = %s;" % cstr(self.client_secret))
        if self.scopes is not None:
            o.append("scopes = [%s];" % ", ".join(map(cstr, self.scopes)))
        if self.auth_uri_fields is not None:
            o.append("auth_uri_fields = { %s };" % ", ".join("%s: %s" % (cstr(a), cstr(b)) for a, b in self.auth_uri_fields))
        if self.redirect_uri is not None:
            o.append("redirect_uri = %s;" % cstr(self.redirect_uri))
        if self.login_hint is not None:
            o.append("login_hint = %s;" % cstr(self.login_hint))
        for k in ("refresh_at_least", "refresh_before_expiry", "refresh_retry"):
            if getattr(self, k) is not None:
                o.append("%s = %s;" % (k, getattr(self, k)))
        if rng:
            rng.shuffle(o)
        return "account %s {\n  %s\n}\n" % (cstr(self.name), "\n  ".join(o))

    def secure(self):
        f = list(self.auth_uri_fields or [])
        if self.login_hint is not None:
            f = f + [("login_hint", self.login_hint)]
        return (self.auth_uri, tuple(map(tuple, f)), self.client_id, self.client_secret, self.redirect_uri or "http://localhost/",
                tuple(self.scopes or ()), self.token_uri)


def conf_text(accts, glob, rng=None):
    o = ["%s = %s;\n" % (k, v) for k, v in glob.items()]
    o += [a.text(rng) for a in accts]
    if rng:
        rng.shuffle(o)
    return "".join(o)


CMDS = {"auth_notify_cmd": '"AN run"', "error_notify_cmd": '"EN run"', "token_event_cmd": '"TE run"', "transient_error_if_cmd": '"TR run"'}


class Res:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[:300], self.err[:300])


def jbody(tok, expires_in=3600, refresh=None, **kw):
    d = {"access_token": tok, "token_type": "Bearer", "expires_in": expires_in}
    if refresh is not None:
        d["refresh_token"] = refresh
    d.update(kw)
    return d


_worlds = []


def _cleanup():
    for w in list(_worlds):
        try:
            w.close()
        except Exception:
            pass


atexit.register(_cleanup)


class Stats:
    """Totals over all worlds of this process, for the evidence."""

    def __init__(self):
        self.d = {}

    def add(self, k, n=1):
        self.d[k] = self.d.get(k, 0) + n


STATS = Stats()


def become_reaper():
    """Orphans of our children become our children, so that we learn how detached servers end."""
    ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)


class Detached:
    """A detached server, looking enough like a Popen."""

    def __init__(self, pid):
        self.pid, self.returncode = pid, None

    def poll(self):
        if self.returncode is None:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
                if p:
                    self.returncode = os.waitstatus_to_exitcode(st)
            except ChildProcessError:
                s = pstat(self.pid)
                if s is None or s[0] in "ZX":
                    self.returncode = -999
        return self.returncode

    def wait(self, timeout=None):
        t0 = time.monotonic()
        while self.poll() is None:
            if timeout is not None and time.monotonic() - t0 > timeout:
                raise subprocess.TimeoutExpired("detached server", timeout)
            time.sleep(.003)
        return self.returncode

    def send_signal(self, n):
        if self.poll() is None:
            os.kill(self.pid, n)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class Syslog:
    """What stands behind /dev/log for the servers of a world."""

    def __init__(self, w):
        self.msgs = []
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        self.s.bind(os.path.join(w.dir, "syslog.sock"))
        self.s.settimeout(.25)
        self.w = w
        threading.Thread(target=self._run, daemon=True).start()

    def _run(self):
        while not self.w.closed:
            try:
                self.msgs.append(self.s.recv(1 << 17))
            except TimeoutError:
                continue
            except OSError:
                break
        self.s.close()


# What zone the server lives in must not matter to anything but how times are written.
TZS = ["UTC", "UTC", "Asia/Kolkata", "EST5EDT,M3.2.0,M11.1.0", "Pacific/Kiritimati", "America/St_Johns", "UTC", "Antarctica/Troll", "XYZ11:30", "", "Nowhere/Nothing"]


ODD_ENDS = ["", "", "", "", "", "", "", " ", "\t", "\n", "=", "+/", "&x=%20", "\"\\", "é", "😀", ":", "\r\n", "\0"]


def tls_client(s, alpn=("h2", "http/1.1"), tls=None, sni="localhost"):
    """Talk TLS over s as a browser does (the certificate is self-signed, and accepted)."""
    cx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    cx.check_hostname = False
    cx.verify_mode = ssl.CERT_NONE
    if alpn:
        cx.set_alpn_protocols(list(alpn))
    if tls:
        cx.minimum_version = cx.maximum_version = tls
    try:
        t = cx.wrap_socket(s, server_hostname=sni)
    except ssl.SSLError as e:
        if "ALERT" in str(e.reason):
            raise Violation(["C24"], "a TLS handshake (ALPN %s, %s, SNI %s) was refused: %s" % (alpn, tls, sni, e))
        raise
    p = t.selected_alpn_protocol()
    if p not in (None, "http/1.1"):
        raise Violation(["C24"], "offered %s, the HTTPS listener chose %s" % (alpn, p))
    return t


class World:
    def __init__(self, built, seed=1, frozen=True, chaos=None, base="/tmp", verbose=2, shim=True, debug=False):
        self.built, self.frozen, self.debug = built, frozen, debug
        self.rng = random.Random(seed)
        self.seed = seed
        self.lock = threading.RLock()
        self.closed = False
        self._seq = 0
        self.dir = tempfile.mkdtemp(prefix="vp-", dir=base)
        os.chmod(self.dir, 0o755)
        _worlds.append(self)
        self.run_dir = os.path.join(self.dir, "run")
        os.mkdir(self.run_dir)
        self.home = os.path.join(self.dir, "home")
        os.makedirs(os.path.join(self.home, ".config"))
        self.conf = os.path.join(self.home, ".config", "pizauth.conf")
        self.errlog = os.path.join(self.dir, "server.err")
        self.openlog = os.path.join(self.dir, "open.log")
        self.verbose = verbose
        self.shim = shim
        # control block
        self.ctlpath = os.path.join(self.dir, "ctl")
        with open(self.ctlpath, "wb") as fh:
            fh.truncate(ctypes.sizeof(_Ctl))
        fd = os.open(self.ctlpath, os.O_RDWR)
        self._mm = mmap.mmap(fd, ctypes.sizeof(_Ctl))
        os.close(fd)
        self.ctl = _Ctl.from_buffer(self._mm)
        self.ctl.mode = 1 if frozen else 0
        self.ctl.mono_off, self.ctl.boot_off, self.ctl.real_off = MONO0 * NS, BOOT0 * NS, REAL0 * NS
        self.ctl.epoch = 1
        self.ctl.chaos_seed = seed & 0x7FFFFFF or 1
        self.ctl.chaos_atomic = [0, 1000, 300][seed % 3]
        self._zombies = {}
        if chaos:
            self.ctl.chaos_prob, self.ctl.chaos_max_us = chaos
        self.reqs = []
        self.servers = {}
        self.sh = ShellHost(self)
        self.proc = None
        self.accts, self.glob = [], {}
        self.issued = {}  # token -> (act, kind)
        self._tokn = 0
        self.trace = []
        self.env = {
            "PATH": "/usr/bin:/bin", "HOME": self.home, "XDG_RUNTIME_DIR": self.run_dir, "TZ": TZS[seed % len(TZS)], "RUST_BACKTRACE": "0",
            "USER": "root", "SHELL": self.built["vpsh"], "VPSH_SOCK": self.sh.path,
        }
        self.nocli = 0
        self.expect_exit = False
        self.addrs = {}  # listener -> address, if not 127.0.0.1
        self.fixed_ports = False  # does the configuration name ports somebody else might take?
        self.killed = None

    # ---- small things
    def next_seq(self):
        self._seq += 1
        return self._seq

    def log(self, *a):
        self.trace.append("%10.3f " % self.now() + " ".join(str(x) for x in a))

    def now(self):
        """Virtual seconds since the world began (real seconds when not frozen)."""
        return self.ctl.base / NS if self.frozen else time.monotonic()

    def boot_now(self):
        return (self.ctl.base + self.ctl.boot_off) / NS - BOOT0

    def real_now(self):
        return (self.ctl.base + self.ctl.real_off) / NS

    def server_for(self, name):
        if name not in self.servers:
            self.servers[name] = TokenServer(self, name)
        return self.servers[name]

    def acct(self, name, **kw):
        ts = kw.pop("ts", None) or self.server_for(name)
        kw.setdefault("token_uri", ts.uri("/%s/token" % quote(name, safe="")))
        return Acct(name, ts=ts, **kw)

    def mint(self, act, kind="AT"):
        with self.lock:
            self._tokn += 1
            t = "%s-%s-%d-%s" % (kind, re.sub("[^a-zA-Z0-9]", "", act)[:12], self._tokn, hashlib.sha256(b"%d-%d" % (self.seed, self._tokn)).hexdigest()[:16])
            if kind == "RT":
                # refresh tokens are opaque: what was issued is what must be sent
                t += ODD_ENDS[int(t[-2:], 16) % len(ODD_ENDS)]
                if t[-1] in " \t" and len(t) % 2:
                    t = t[-1] + t
            self.issued[t] = (act, kind)
            return t

    def grant(self, r, expires_in=3600, refresh=True, **kw):
        """A successful token reply for request r; remembers what was issued in r.issued."""
        at = self.mint(r.act, "AT")
        rt = self.mint(r.act, "RT") if refresh else None
        r.issued = {"access": at, "refresh": rt, "expires_in": expires_in}
        return J(jbody(at, expires_in, rt, **kw))

    def default_policy(self, r):
        return self.grant(r)

    # ---- config / server
    def write_conf(self, accts=None, glob=None, text=None, rng=None):
        if accts is not None:
            self.accts = list(accts)
        if glob is not None:
            self.glob = dict(glob)
        t = text if text is not None else conf_text(self.accts, self.glob, rng)
        tmp = self.conf + ".new"
        with open(tmp, "w" if isinstance(t, str) else "wb") as fh:
            fh.write(t)
        os.replace(tmp, self.conf)
        return t

    def spawn_env(self):
        e = dict(self.env)
        if self.shim:
            e["LD_PRELOAD"] = self.built["shim"]
            e["VPSHIM_CTL"] = self.ctlpath
            e["VPSHIM_OPENLOG"] = self.openlog
            e["VPSHIM_SYSLOG"] = os.path.join(self.dir, "syslog.sock")
        return e

    def start(self, accts=None, glob=None, args=None, wait=True, text=None):
        if accts is not None or glob is not None or text is not None:
            self.write_conf(accts, glob, text)
        self.err_f = open(self.errlog, "ab")
        a = [self.built["bin"], "server", "-d"] + (["-" + "v" * self.verbose] if self.verbose else []) + (args or [])
        self.proc = subprocess.Popen(a, env=self.spawn_env(), stdin=subprocess.DEVNULL, stdout=self.err_f, stderr=self.err_f, cwd=self.dir)
        self.log("start server pid", self.proc.pid)
        STATS.add("servers")
        self.ports = {}
        if wait:
            self.wait_up()
        return self.proc

    def start_daemon(self, accts=None, glob=None, args=(), text=None, env=None, cwd=None, umask=None):
        """`pizauth server` without -d. -> (exit code, stdout+stderr); self.proc is the detached server, if there is one."""
        become_reaper()
        if accts is not None or glob is not None or text is not None:
            self.write_conf(accts, glob, text)
        if not hasattr(self, "syslog"):
            self.syslog = Syslog(self)
        self.err_f = open(self.errlog, "ab")
        cwd = cwd or self.dir
        before = set(self._servers(cwd))
        p = subprocess.Popen([self.built["bin"], "server"] + list(args), env=env or self.spawn_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             cwd=cwd, umask=-1 if umask is None else umask)
        try:
            gone = 0
            for i in range(20):
                try:
                    o, _ = p.communicate(timeout=2)
                    break
                except subprocess.TimeoutExpired:
                    gone += p.poll() is not None
                    if gone > 2 and [x for x in self._servers(cwd) if x not in before]:
                        raise Violation(["C30"], "`pizauth server` has returned (%d), but the server it left behind still holds on to its standard output or error" % p.returncode)
            else:
                p.kill()
                raise Inconclusive("`pizauth server` neither detached nor failed")
        finally:
            new = [x for x in self._servers(cwd) if x not in before]
            self.proc = Detached(new[0]) if new else None
        self.log("detached server", p.returncode, o, new)
        STATS.add("servers")
        STATS.add("detached_servers", len(new))
        return p.returncode, o.decode("utf8", "replace")

    def _servers(self, cwd):
        out = []
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/cmdline" % d, "rb") as fh:
                        a = fh.read().split(b"\0")
                    if len(a) > 1 and a[0] == self.built["bin"].encode() and a[1] == b"server" and os.readlink("/proc/%s/cwd" % d) == os.path.realpath(cwd):
                        s = pstat(int(d))
                        if s and s[0] not in "ZX":
                            out.append(int(d))
                except OSError:
                    pass
        return out

    def wait_up(self, timeout=30):
        t0 = time.monotonic()
        sp = os.path.join(self.run_dir, "pizauth", "pizauth.sock")
        while True:
            if self.proc.poll() is not None:
                self.killed = self.proc
                m = "server exited with %s at start: %s" % (self.proc.returncode, self.err_text()[-800:])
                if "in use" in m and self.fixed_ports or "panicked" in m:
                    raise Inconclusive(m)
                raise Violation(["C20", "C27"], m)
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(sp)
                s.sendall(b"info:")
                s.shutdown(socket.SHUT_WR)
                s.settimeout(10)
                b = b""
                while True:
                    d = s.recv(65536)
                    if not d:
                        break
                    b += d
                self.info = json.loads(b)
                self.ports = {k: int(self.info[k]) if self.info[k] != "none" else None for k in ("http_port", "https_port")}
                return
            except (OSError, ValueError):
                if time.monotonic() - t0 > timeout:
                    raise Inconclusive("server did not come up")
                time.sleep(0.005)
            finally:
                s.close()

    def err_text(self):
        try:
            with open(self.errlog, errors="replace") as fh:
                return fh.read()
        except OSError:
            return ""

    def panics(self):
        ls = self.err_text().splitlines()
        if not any("panicked at" in l for l in ls):
            ls = self.opens()  # detached servers
        return [l for l in ls if "panicked at" in l]

    def opens(self):
        """What the shim noted: files opened for writing, sockets bound, panics."""
        try:
            with open(self.openlog, errors="replace") as fh:
                return fh.read().splitlines()
        except OSError:
            return []

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def died(self):
        """How the server exited, if nobody made it."""
        if self.proc is None or self.expect_exit or self.killed is self.proc or self.closed:
            return None
        if self.proc.poll() is None:
            return None
        return "the server exited by itself (%s): %s" % (self.proc.returncode, self.err_text()[-600:])

    def kill(self, sig=signal.SIGKILL):
        if self.proc and self.proc.poll() is None:
            self.killed = self.proc
            self.proc.send_signal(sig)
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        if self.proc:
            self.log("server gone", self.proc.returncode)
            self.err_f.close()
        # children of a killed server (held fake shells) go away by themselves
        for r in self.sh.runs:
            if r.status in ("held", "running"):
                r.finish(0)
        for c in self.ctl.slots:
            c.tid = 0

    def close(self):
        if self.closed:
            return
        self.closed = True
        for k in ("n_clock", "n_wait", "n_timeout", "n_connect_ok", "n_connect_fail", "n_chaos", "n_atomic", "n_gate", "n_yield", "n_recv_to"):
            STATS.add("shim_" + k[2:], getattr(self.ctl, k))
        STATS.add("token_requests", len(self.reqs))
        STATS.add("shell_runs", len(self.sh.runs))
        try:
            self.kill()
        except Exception:
            pass
        for s in self.servers.values():
            s.close()
        self.sh.close()
        for r in self.reqs:
            r.ev.set()
        for r in self.sh.runs:
            r.finish(0)
        if self in _worlds:
            _worlds.remove(self)
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- clients
    def cli(self, *args, input=None, timeout=60, env=None, text=True):
        STATS.add("cli_commands")
        e = env or self.env
        p = subprocess.Popen([self.built["bin"]] + list(args), env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir)
        try:
            o, er = p.communicate(input, timeout=min(timeout, 20))
        except subprocess.TimeoutExpired:
            try:
                self._stuck("pizauth " + " ".join(args), p.pid)
                o, er = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                self.log("cli", args, "TIMEOUT")
                raise CliTimeout(args)
            finally:
                if p.poll() is None:
                    p.kill()
                    p.communicate()
        r = Res(p.returncode, o.decode("utf8", "replace") if text else o, er.decode("utf8", "replace"))
        self.log("cli", args, r if text else "rc=%s (%d bytes) err=%r" % (r.rc, len(r.out), r.err[:200]))
        return r

    def show(self, a, *fl):
        return self.cli("show", *fl, a)

    def token(self, a):
        """The token `show` prints, or None."""
        r = self.show(a, "-u")
        if r.rc == 0 and r.out.endswith("\n"):
            return r.out[:-1]
        return None

    def url_of(self, r):
        m = re.search(r"authorised with URL (\S+)", r.err)
        return m.group(1) if m else None

    def auth_url(self, a, cmd="show"):
        r = self.cli(cmd, a)
        u = self.url_of(r)
        if u is None:
            raise Inconclusive("no authorisation URL from %s %s: %r" % (cmd, a, r))
        return u

    def raw_sock(self, data, shut=True, timeout=30):
        STATS.add("raw_commands")
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        try:
            s.connect(os.path.join(self.run_dir, "pizauth", "pizauth.sock"))
            try:
                s.sendall(data)
                if shut:
                    s.shutdown(socket.SHUT_WR)
            except (BrokenPipeError, ConnectionResetError):
                pass
            b = b""
            while True:
                try:
                    d = s.recv(65536)
                except ConnectionResetError:
                    break
                except TimeoutError:
                    if shut and timeout >= 20:
                        self._stuck("the request %r" % data[:60])
                    raise
                if not d:
                    break
                b += d
            return b
        finally:
            s.close()

    def _sleepers(self, pid):
        """({thread: state}, cpu ticks used) of a process."""
        st, n = {}, 0
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as fh:
                b = fh.read()
            f = b[b.rindex(")") + 2:].split(" ")
            st[t] = f[0]
            n += int(f[11]) + int(f[12])
        return st, n

    def _stuck(self, what, client=None):
        """A client has waited for very long. If the server (and the client) are asleep, nothing will ever answer it. (The
        server's threads wake up now and then because the shim looks whether the clock has moved, so they need not be asleep
        at every single look; a thread that has work to do, but doesn't get a CPU, is never asleep.)"""
        pids = [self.proc.pid] + ([client] if client else [])
        try:
            a0 = self.ctl.activity
            c0 = [self._sleepers(p) for p in pids]
            asleep = {}
            for i in range(40):
                time.sleep(0.1)
                c = [self._sleepers(p) for p in pids]
                if client and set(c[1][0].values()) != {"S"}:
                    return
                for t, x in c[0][0].items():
                    asleep[t] = asleep.get(t, 0) + (x == "S")
            if set(c[0][0]) != set(asleep) or min(asleep.values()) < 25:
                return
            if c[0][1] - c0[0][1] > 80 or [x[1] for x in c[1:]] != [x[1] for x in c0[1:]] or self.ctl.activity != a0 or not self.alive():
                return
        except OSError:
            return
        self.log("STUCK", what, self._threads())
        raise Violation(["*", "C22", "C23", "C31"], "the server is idle but has not answered %s for over 20 s of real time: it is stuck" % what)

    def http_raw(self, data, https=False, timeout=30, pieces=None, port=None, shut=False):
        """Send raw bytes to a listener, return everything it answers."""
        STATS.add("http_requests")
        port = port or self.ports["https_port" if https else "http_port"]
        s = socket.create_connection((self.addrs.get("https" if https else "http", "127.0.0.1"), port), timeout=timeout)
        try:
            if https:
                s = tls_client(s)
            try:
                for p in pieces or [data]:
                    s.sendall(p)
                if shut and not https:
                    s.shutdown(socket.SHUT_WR)
            except (BrokenPipeError, ConnectionResetError, ssl.SSLError):
                pass
            b = b""
            while True:
                try:
                    d = s.recv(65536)
                except TimeoutError:
                    self._stuck("the request %r" % data[:200])
                    raise
                except (ssl.SSLError, ConnectionResetError):
                    break
                if not d:
                    break
                b += d
                if https and b"\r\n\r\n" in b and (b.endswith(b"</html>") or b.startswith(b"HTTP/1.1 4")):
                    break  # the HTTPS listener keeps the connection open during an exchange
            return b
        finally:
            s.close()

    def callback(self, url, code=None, error=None, extra=None, host=None, path=None, method="GET", state=None, https=None, headers=None, order=None):
        """What a browser does after authorisation at `url`: follow the redirect. Returns the status code."""
        q = dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))
        ru = urlsplit(q["redirect_uri"])
        https = (ru.scheme == "https") if https is None else https
        params = []
        if code is not None:
            params.append(("code", code))
        if error is not None:
            params.append(("error", error))
        st = q["state"] if state is None else state
        if st is not False:
            params.append(("state", st))
        params += extra or []
        if order:
            order(params)
        host = host or ru.netloc
        pq = (path or ru.path or "/") + ("&" if ru.query else "?") + "&".join("%s=%s" % (quote(k, safe=""), quote(v, safe="")) for k, v in params)
        if ru.query and not path:
            pq = (ru.path or "/") + "?" + ru.query + "&" + "&".join("%s=%s" % (quote(k, safe=""), quote(v, safe="")) for k, v in params)
        h = headers if headers is not None else ["Host: " + host, "User-Agent: vp", "Accept: */*"]
        raw = ("%s %s HTTP/1.1\r\n" % (method, pq) + "".join(x + "\r\n" for x in h) + "\r\n").encode()
        b = self.http_raw(raw, https)
        m = re.match(rb"HTTP/1\.[01] (\d+)", b)
        st = int(m.group(1)) if m else None
        self.log("callback", https, pq[:200], "->", st)
        return st

    def authorise(self, a, code=None, cmd="show", settle=True):
        u = self.auth_url(a, cmd)
        c = code or ("code-%s-%d" % (re.sub("[^a-z0-9]", "", a), self.rng.randrange(1 << 40)))
        st = self.callback(u, code=c)
        if st != 200:
            raise Inconclusive("genuine callback answered %s" % st)
        if settle:
            self.settle()
        return u, c

    # ---- virtual time
    def _bump(self):
        self.ctl.epoch += 1

    def advance(self, dt, settle=True):
        assert self.frozen and dt >= 0
        if settle:
            self.settle()
        self.log("advance", dt)
        STATS.add("clock_advances")
        self.ctl.base += int(dt * NS)
        self._bump()
        if settle:
            self.settle()

    def suspend(self, dt, settle=True):
        if settle:
            self.settle()
        self.log("suspend", dt)
        STATS.add("suspends")
        self.ctl.real_off += int(dt * NS)
        self.ctl.boot_off += int(dt * NS)
        self._bump()
        if settle:
            self.settle()

    def step_wall(self, dt, settle=True):
        self.log("step wall clock", dt)
        STATS.add("wall_steps")
        self.ctl.real_off += int(dt * NS)
        self._bump()
        if settle:
            self.settle()

    def thaw(self):
        pass

    # ---- connectivity faults
    def down(self, ts, err=111):
        for p in self.ctl.ports:
            if p.port in (0, ts.port):
                p.err = err
                p.hits = 0 if p.port == 0 else p.hits
                p.port = ts.port
                self.log("token server", ts.name, "down", err)
                return
        raise Inconclusive("port table full")

    def up(self, ts):
        for p in self.ctl.ports:
            if p.port == ts.port:
                p.err = 0
        self.log("token server", ts.name, "up")

    def conn_fails(self, ts):
        for p in self.ctl.ports:
            if p.port == ts.port:
                return p.hits
        return 0

    def name_down(self, host, err=-3):
        """Looking up `host` (below .vp) fails with this EAI_ code from now on; 0: it works."""
        for d in self.ctl.dns:
            if d.name in (b"", host.encode()):
                d.err = err
                d.name = host.encode()
                self.log("host name", host, "fails" if err else "resolves", err)
                return
        raise Inconclusive("name table full")

    def name_fails(self, host):
        return sum(d.hits for d in self.ctl.dns if d.name == host.encode())

    # ---- quiescence
    def _threads(self):
        pid = self.proc.pid
        st, kids = [], []
        try:
            for t in os.listdir("/proc/%d/task" % pid):
                try:
                    with open("/proc/%d/task/%s/stat" % (pid, t)) as fh:
                        b = fh.read()
                    st.append((int(t), b[b.rindex(")") + 2]))
                    with open("/proc/%d/task/%s/children" % (pid, t)) as fh:
                        kids += [int(x) for x in fh.read().split()]
                except (FileNotFoundError, ProcessLookupError):
                    st.append((int(t), "X"))
        except FileNotFoundError:
            pass
        return st, kids

    def _forgotten(self, pid):
        """A zombie nobody has waited for in a while."""
        try:
            with open("/proc/%d/stat" % pid) as fh:
                b = fh.read()
        except OSError:
            return False
        if b[b.rindex(")") + 2] != "Z":
            return False
        t = self._zombies.setdefault(pid, time.monotonic())
        return time.monotonic() - t > 1.5

    def _cpu(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as fh:
                b = fh.read()
            f = b[b.rindex(")") + 2:].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, ValueError):
            return 0

    def _sample(self):
        """None if something is visibly going on, else a fingerprint of the idle state."""
        c = self.ctl
        a0 = c.activity
        if c.chaos_until and time.monotonic_ns() < c.chaos_until + 3_000_000:
            return None  # an injected delay is running
        with self.lock:
            if self.sh.busy or any(s.busy for s in self.servers.values()):
                return None
            acc = sum(s.accepted for s in self.servers.values())
            held = {r.pid for r in self.sh.runs if r.status == "held"}
        if c.n_connect_ok != acc:
            self._connlag += 1
            if self._connlag < 40:
                return None
        else:
            self._connlag = 0
        st, kids = self._threads()
        if not st or any(x != "S" for _, x in st):
            return None
        if any(k not in held and not self._forgotten(k) for k in kids):
            return None
        if self.frozen:
            ep = c.epoch
            for s in c.slots:
                if s.tid and s.acked != ep:
                    return None
        if c.activity != a0:
            return None
        return (a0, tuple(t for t, _ in st), tuple(kids), len(self.reqs), len(self.sh.runs))

    def delay_late_threads(self):
        """From now on, only threads started from now on are delayed (those that serve a redirect or a refresh), so that
        what they are late for is not late as well."""
        self.ctl.chaos_above = max(int(x) for x in os.listdir("/proc/%d/task" % self.proc.pid))

    def delay_only(self, tid):
        """From now on, only this thread is delayed."""
        self.ctl.chaos_above = -tid

    def gate(self, tid, k, fine=True):
        """Stop the thread `tid` (None: the next one to be created) at the k-th point (fine: of those before and after it
        has a Mutex) it passes from now on."""
        c = self.ctl
        c.gate_tid = 0
        c.gate_fine = int(fine and bool(self.built.get("atomics")))
        c.gate_n, c.gate_at, c.gate_in = 0, k, 0
        c.gate_tid = tid or -max(self.threads())
        self._gate = c.gate_tid

    def gated(self, timeout=1.0, done=None):
        """Wait for it to be stopped there. False: it never got there, as far as one can see."""
        t0 = time.monotonic()
        while not self.ctl.gate_in:
            if time.monotonic() - t0 > timeout or done and done():
                time.sleep(.001)
                return bool(self.ctl.gate_in)
            time.sleep(.0002)
        return True

    def ungate(self):
        self.ctl.gate_tid = 0
        t0 = time.monotonic()
        while self.ctl.gate_in and time.monotonic() - t0 < 5:
            time.sleep(.0002)

    def impatient(self, fn, after=.25):
        """fn(), which might need a lock that the stopped thread holds: if it doesn't return soon, the thread is let go."""
        t = threading.Timer(after, self.ungate)
        t.start()
        try:
            return fn()
        finally:
            t.cancel()

    def threads(self):
        return sorted(int(x) for x in os.listdir("/proc/%d/task" % self.proc.pid))

    def settle(self, timeout=25, n=4, gap=0.0022):
        if not self.alive():
            return
        STATS.add("settles")
        t0 = time.monotonic()
        last, same = None, 0
        self._connlag = 0
        spin = None
        while True:
            x = self._sample()
            if x is None and self.frozen and time.monotonic() - t0 > 4:
                # busy with what? (no time passes, nobody asks for anything)
                k = (len(self.reqs), len(self.sh.runs), self.ctl.n_connect_ok, self.ctl.epoch)
                if spin is None or spin[0] != k:
                    spin = (k, time.monotonic(), self._cpu())
            if x is not None and x == last:
                same += 1
                if same >= n:
                    return
            else:
                same = 0
            last = x
            if not self.alive():
                return
            if time.monotonic() - t0 > timeout:
                if spin and time.monotonic() - spin[1] > 6:
                    cpu, el = self._cpu() - spin[2], time.monotonic() - spin[1]
                    if cpu > max(1.5, .15 * el) and not self.ctl.chaos_prob:
                        raise Violation(["*"], "the server is running in circles: %.1f s of CPU time in %.1f s without doing anything, while its clocks stand still" % (cpu, el))
                raise Inconclusive("server never became idle (%s)" % (self._why(),))
            time.sleep(gap)

    def _why(self):
        c = self.ctl
        return dict(busy=[(s.name, s.busy, s.accepted) for s in self.servers.values()], shbusy=self.sh.busy, conn=c.n_connect_ok, threads=self._threads(),
                    slots=[(s.tid, s.kind, s.acked, (s.deadline / NS - MONO0)) for s in c.slots if s.tid], epoch=c.epoch, activity=c.activity)

    def confirm(self, fn, extra=0.4):
        """Is fn() still true after waiting generously and settling again? (for 'missing' verdicts)"""
        if not fn():
            return False
        time.sleep(extra)
        self.settle()
        return fn()

    # ---- views
    def held(self, act=None):
        return [r for r in self.reqs if r.status == "held" and (act is None or r.act == act)]

    def runs(self, kind=None, act=None, since=0):
        return [r for r in self.sh.runs[since:] if (kind is None or r.kind == kind) and (act is None or r.act == act)]

    def dump(self):
        r = self.cli("dump", text=False)
        return r


class CliTimeout(Exception):
    pass

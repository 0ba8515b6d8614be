"""Helpers of the demonstrations: build vaults, run the program on a pseudo terminal, read its screen, serve releases."""
import base64, hashlib, http.server, io, json, os, pty, re, select, shutil, signal, socket, struct, subprocess, sys, tarfile, threading, time
import fcntl, termios

HERE = os.path.dirname(os.path.abspath(__file__))
REPO, TMP = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="")
ENV["PATH"] = "/usr/local/bin:/usr/local/go/bin:" + ENV.get("PATH", "")
ENV.setdefault("HOME", "/root")
PW = "correct horse"


def fail(msg):
    print("DEMO: property broken:", msg)
    sys.exit(1)


def ok(cond, msg):
    if not cond:
        fail(msg)


def uid(n):
    return hashlib.md5(str(n).encode()).hexdigest().upper()


_mk = None


def vault(path, items, password=PW, iterations=100, keys=""):
    """items: dicts with uid, category, title/url or overview, details, trashed, created, updated."""
    global _mk
    if _mk is None:
        _mk = os.path.join(TMP, "mkvault")
        subprocess.run(["go", "build", "-o", _mk, os.path.join(HERE, "mkvault.go")], check=True, env=ENV, cwd=TMP)
    out = []
    for i, it in enumerate(items):
        it = dict(it)
        ov = it.pop("overview", {})
        for k in ("title", "url"):
            if k in it:
                ov[k] = it.pop(k)
        it["overview"] = ov
        it.setdefault("uid", uid(i))
        it.setdefault("category", "001")
        it.setdefault("created", 1500000000)
        it.setdefault("updated", 1500000001)
        out.append(it)
    subprocess.run([_mk, path], input=json.dumps({"password": password, "iterations": iterations, "keys": keys, "items": out}).encode(), check=True)
    return path


def bands(path):
    """Reads every item record of a vault: {uid: (file, record)}."""
    res = {}
    d = os.path.join(path, "default")
    for f in sorted(os.listdir(d)):
        if f.startswith("band_"):
            for u, rec in json.loads(open(os.path.join(d, f)).read()[3:-2]).items():
                res[u] = (f, rec)
    return res


def set_bands(path, recs):
    files = {}
    for u, (f, rec) in recs.items():
        files.setdefault(f, {})[u] = rec
    for f, m in files.items():
        with open(os.path.join(path, "default", f), "w") as h:
            h.write("ld(" + json.dumps(m) + ");")


def home(name="home", vault="", notify=False, timeout=1, period=1, config=True):
    h = os.path.join(TMP, name)
    d = os.path.join(h, ".config", "1pass")
    if config:
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "1pass.yml"), "w") as f:
            f.write("opvault: %s\ntimeout: %d\nupdate-notification: %s\nupdate-period: %d\n"
                    % (json.dumps(vault), timeout, "true" if notify else "false", period))
    else:
        os.makedirs(h, exist_ok=True)
    return h


def app(url=None, cache=None, out="1pass-app", race=False, tags=None):
    """Builds the program from REPO; url/cache replace the release server and the update cache directory."""
    dst = os.path.join(TMP, out)
    st = os.path.join(REPO, "1pass-core/core/domain/static.go")
    src = open(st).read()
    src = re.sub(r'(GithubReleases\s+string\s*=\s*)"[^"]*"', lambda m: m.group(1) + json.dumps(url or "http://127.0.0.1:1/releases"), src)
    src = re.sub(r'(CacheDir\s+string\s*=\s*)"[^"]*"', lambda m: m.group(1) + json.dumps(cache or os.path.join(TMP, "cache-1pass")), src)
    rep = os.path.join(TMP, "static_%s.go" % out)
    open(rep, "w").write(src)
    ov = os.path.join(TMP, "overlay_%s.json" % out)
    json.dump({"Replace": {st: rep}}, open(ov, "w"))
    cmd = ["go", "build", "-overlay", ov, "-o", dst] + (["-race"] if race else []) + ["."]
    subprocess.run(cmd, check=True, env=ENV, cwd=os.path.join(REPO, "1pass-app"))
    return dst


def run(binary, h, args, inp="", expect=None, timeout=60, env=None, cwd=None, show=False):
    """Runs on a pseudo terminal. inp: text, or list of (wait-for, text to send). Returns (status, output)."""
    steps = list(inp) if isinstance(inp, list) else ([("", inp)] if inp else [])
    pid, fd = pty.fork()
    if pid == 0:
        try:
            if cwd:
                os.chdir(cwd)
            e = {"PATH": os.environ.get("PATH", ""), "HOME": h, "TERM": "xterm", "TZ": "UTC", "LANG": "C.UTF-8"}
            e.update(env or {})
            os.execve(binary, [binary] + args, e)
        except BaseException:
            os._exit(127)
    out, end = b"", time.time() + timeout
    seen = 0
    while True:
        if steps and steps[0][0].encode() in out[seen:]:
            w, t = steps.pop(0)
            seen = out.find(w.encode(), seen) + len(w.encode())
            time.sleep(0.05)
            os.write(fd, t.encode() if isinstance(t, str) else t)
            continue
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
            fail("the program did not finish in time; output so far: %r" % out[-400:])
        r, _, _ = select.select([fd], [], [], 0.2)
        if r:
            try:
                b = os.read(fd, 65536)
            except OSError:
                b = b""
            if not b:
                break
            out += b
    _, st = os.waitpid(pid, 0)
    os.close(fd)
    text = out.decode("utf8", "replace").replace("\r\n", "\n")
    if show:
        print(text)
    return os.waitstatus_to_exitcode(st), text


def cli(binary, h, *args, password=PW, **kw):
    return run(binary, h, list(args), [("Password:", password + "\n")], **kw)


class Gui:
    """The program's GUI on a pseudo terminal, with enough of a VT100 to know the screen."""

    def __init__(self, binary, h, *args, rows=24, cols=80, env=None):
        self.rows, self.cols = rows, cols
        self.buf, self.st, self.frames = b"", None, []
        self.grid = [[" "] * cols for _ in range(rows)]
        self.bg = [[0] * cols for _ in range(rows)]
        self.x = self.y = self.cbg = 0
        self.raw = b""
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        e = {"PATH": os.environ.get("PATH", ""), "HOME": h, "TERM": "xterm", "TZ": "UTC", "LANG": "C.UTF-8"}
        e.update(env or {})

        def pre():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        self.p = subprocess.Popen([binary] + list(args), stdin=s, stdout=s, stderr=s, env=e, preexec_fn=pre, close_fds=True)
        os.close(s)
        self.fd = m

    def pump(self, quiet=0.25, limit=10):
        end = time.time() + limit
        while time.time() < end:
            r, _, _ = select.select([self.fd], [], [], quiet)
            if not r:
                return
            try:
                b = os.read(self.fd, 65536)
            except OSError:
                b = b""
            if not b:
                return
            self.raw += b
            self.feed(b)

    def feed(self, b):
        data = self.buf + b
        i, n = 0, len(data)
        while i < n:
            c = data[i]
            if c == 0x1b:
                m = re.match(rb"\x1b\[([0-9;?]*)([@-~])", data[i:])
                if m:
                    self.csi(m.group(1).decode(), m.group(2).decode())
                    i += m.end()
                    continue
                m = re.match(rb"\x1b[()][A-Z0-9]", data[i:]) or re.match(rb"\x1b[^\[()]", data[i:])
                if not m:
                    break
                i += m.end()
                continue
            if c < 32:
                if c == 13:
                    self.x = 0
                elif c == 10:
                    self.y = min(self.y + 1, self.rows - 1)
                i += 1
                continue
            ln = 1 if c < 0x80 else 2 if c < 0xe0 else 3 if c < 0xf0 else 4
            if i + ln > n:
                break
            ch = data[i:i + ln].decode("utf8", "replace")
            if self.x < self.cols and self.y < self.rows:
                self.grid[self.y][self.x] = ch
                self.bg[self.y][self.x] = self.cbg
            self.x += 1
            i += ln
        self.buf = data[i:]

    def csi(self, arg, fin):
        if arg.startswith("?"):
            return
        v = [int(a) if a else 0 for a in arg.split(";")]
        if fin == "H":
            self.y, self.x = max(v[0], 1) - 1, (max(v[1], 1) - 1) if len(v) > 1 else 0
        elif fin == "J":
            for y in range(self.rows):
                for x in range(self.cols):
                    self.grid[y][x], self.bg[y][x] = " ", 0
        elif fin == "m":
            k = 0
            while k < len(v):
                a = v[k]
                if a == 0:
                    self.cbg = 0
                elif 40 <= a <= 47:
                    self.cbg = a - 39
                elif a == 49:
                    self.cbg = 0
                elif a == 38 and k + 2 < len(v):
                    k += 2
                elif a == 48 and k + 2 < len(v):
                    self.cbg = v[k + 2] + 1
                    k += 2
                k += 1
        elif fin == "C":
            self.x += max(v[0], 1)
        elif fin == "K":
            for x in range(self.x, self.cols):
                self.grid[self.y][x] = " "

    def text(self):
        return "\n".join("".join(r).rstrip() for r in self.grid)

    def marked(self):
        """Texts drawn on a coloured background."""
        return [t for t in ("".join(c for c, b in zip(r, g) if b).strip() for r, g in zip(self.grid, self.bg)) if t]

    def send(self, keys, quiet=0.25):
        os.write(self.fd, keys.encode() if isinstance(keys, str) else keys)
        self.pump(quiet)

    def keys(self, ks, quiet=0.12):
        for k in ks:
            self.send(k, quiet)

    def wait(self, text, limit=10):
        end = time.time() + limit
        while time.time() < end:
            self.pump(0.1, 1)
            if text in self.text():
                return True
            if self.p.poll() is not None:
                return False
        return False

    def unlock(self, password=PW):
        ok(self.wait("Password"), "no password prompt in the GUI:\n" + self.text())
        for ch in password:
            self.send(ch, 0.03)
        self.send("\r", 0.4)

    def quit(self, limit=10):
        try:
            self.send(b"\x11", 0.3)
        except OSError:
            pass
        end = time.time() + limit
        while self.p.poll() is None and time.time() < end:
            self.pump(0.1, 0.5)
        rc = self.p.poll()
        if rc is None:
            self.p.kill()
            self.p.wait()
        os.close(self.fd)
        return rc


class Hub:
    """A release server on the loopback interface."""

    def __init__(self, tag="v9.0.0", archive=None, checksum=None, releases=None, hook=None, program=b"#!/bin/sh\necho new\n"):
        self.log, self.program = [], program
        self.archive = archive if archive is not None else targz([("1pass", program)])
        self.checksum = checksum if checksum is not None else (hashlib.md5(program).hexdigest() + "  1pass\n").encode()
        hub = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do_GET(self):
                hub.log.append(self.path)
                if hook and hook(self):
                    return
                if self.path.startswith("/releases"):
                    body = json.dumps(releases if releases is not None else hub.releases(tag)).encode()
                elif self.path.endswith(".tar.gz"):
                    body = hub.archive
                elif self.path.endswith(".md5"):
                    body = hub.checksum
                else:
                    self.send_error(404)
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.base = "http://127.0.0.1:%d" % self.srv.server_address[1]
        self.url = self.base + "/releases"
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def releases(self, tag):
        return [{"tag_name": tag, "body": "changes", "assets": [
            {"name": "1pass.tar.gz", "browser_download_url": self.base + "/a/1pass.tar.gz"},
            {"name": "checksum.md5", "browser_download_url": self.base + "/a/checksum.md5"}]}]

    def close(self):
        self.srv.shutdown()


def targz(entries):
    """entries: (name, bytes) or tarfile.TarInfo with optional bytes."""
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz", format=tarfile.GNU_FORMAT) as t:
        for name, data in entries:
            ti = name if isinstance(name, tarfile.TarInfo) else tarfile.TarInfo(name)
            if isinstance(name, str):
                ti.mode = 0o755
            ti.size = len(data) if ti.isreg() else 0
            t.addfile(ti, io.BytesIO(data) if ti.isreg() else None)
    return b.getvalue()


def install(binary, name="inst"):
    d = os.path.join(TMP, name)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "1pass")
    shutil.copy2(binary, p)
    os.chmod(p, 0o755)
    return p


def snapshot(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for f in fs + ds:
            p = os.path.join(d, f)
            st = os.lstat(p)
            res[os.path.relpath(p, root)] = (st.st_mode, open(p, "rb").read() if os.path.isfile(p) and not os.path.islink(p) else None)
    return res


def field(name, value, designation=""):
    return {"name": name, "value": value, "type": "T", "designation": designation}

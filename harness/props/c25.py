"""C25: installation of header archives through failures and kills.

Every session is a child process whose files all lie in a scratch directory.
The network and the hash of the stand-in archive are replaced; a session is
killed at its n-th operation on files.
"""
import io
import json
import os
import shutil
import sys
import tempfile

HISTORY = False
TRACE = "InstallTrace"
MC = [dict(module="InstallMC", cfg="InstallMC.cfg", workers=2)]
MC_THOROUGH = [dict(module="InstallMC", cfg="InstallMC_thorough.cfg",
                    workers=6)]
NPROC = {"interp": 7}
# the published archives
KIT = {
    "cub": dict(mod="africanus.util.cub", sub="cub", zip="cub-1.8.0.zip",
                fn="cub_dir", exc="InstallCubException", top="cub-1.8.0",
                sha="836f523a34c32a7e99fba36b30abfe7a68d41d4b",
                header="cub/cub.cuh",
                version="Current release: v1.8.0 (02/16/2018)"),
    "trove": dict(mod="africanus.util.trove", sub="trove",
                  zip="trove-master.zip", fn="trove_dir",
                  exc="InstallTroveException", top="trove-master",
                  sha="183c9ce229b3c0b2afeb808a9f4b07c9d9b9035d",
                  header=None, version=None)}


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 8
    inits = sorted({json.dumps(x, sort_keys=True)
                    for _, em in emitted for x in em})

    def net(first=()):
        x = list(first)
        while len(x) < 8:
            x.append(rng.choice(["good", "good", "bad", "short", "cut",
                                 "refused"]))
        return x

    def session(first=(), kill=0, thr=1):
        calls = rng.choice([1, 1, 2, 3]) if thr == 1 else thr
        return dict(net=net(first), kill=kill, thr=thr, calls=calls,
                    seed=rng.randint(0, 10**6), run=rng.choice([1, 2, 8, 30]))

    def add(name, sess, **c):
        c.setdefault("dir", rng.choice(["none", "none", "old", "noread",
                                        "nohead"]))
        c.setdefault("arch", rng.choice(["none", "none", "part", "good"]))
        cases.append(dict(kind=name, modes=["interp"], grp="", **{"in": dict(
            fn="hist", kit=rng.choice(["cub", "cub", "trove"]), sess=sess,
            xdev=rng.random() < 0.6, nfile=rng.randint(0, 3),
            lone=rng.random() < 0.5, **c)}))
    for s in inits:
        x = json.loads(s)
        add("model", [session(x["net"], thr=rng.choice([1, 2])), session()],
            dir=x["dir"], arch=x["arch"])
    for i in range(100*q):
        add("sequence", [session() for _ in range(rng.randint(1, 3))])
    for i in range(60*q):
        add("threads", [session(thr=rng.randint(2, 4)) for _ in range(2)])
    for i in range(400*q):
        k = rng.randint(1, 3)
        add("killed", [session(["good"] if rng.random() < 0.6 else [],
                               kill=rng.randint(1, 60))
                       for _ in range(k)] + [session(["good"])])
    return cases


def contents(k, c):
    """The archive's files and their contents."""
    f = {"README.md": "Read\n" + (k["version"] or "me") + "\n",
         "LICENSE.TXT": "free\n"}
    if k["header"]:
        f[k["header"]] = "#pragma once\n"
        f["cub/util.cuh"] = "int x;\n"
    for i in range(c["nfile"]):
        f["%s/z%d.cuh" % (k["sub"], i)] = "int z%d;\n" % i
        f["a%d/deep/a.h" % i] = "int a;\n"
    return f


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for x in fs:
            q = os.path.join(p, x)
            with open(q) as f:
                out[os.path.relpath(q, d)] = f.read()
    return out


def write(d, files):
    for n, s in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(s)


def archive(k, files):
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n, s in files.items():
            z.writestr(k["top"] + "/" + n, s)
    return b.getvalue()


def state(k, p, files, good, old):
    """What is on disk."""
    o = dict(dir="none", looks=False, good=False)
    d = p["dir"]
    if os.path.isdir(d):
        t = tree(d)
        o["dir"] = "full" if t == files else \
            "old" if old and t == old else "part"
        r = t.get("README.md")
        o["looks"] = r is not None and \
            (k["version"] is None or k["version"] in r) and \
            (k["header"] is None or k["header"] in t)
    elif os.path.lexists(d):
        o["dir"] = "part"
    if os.path.isfile(p["arch"]):
        with open(p["arch"], "rb") as f:
            o["good"] = f.read() == good
    return o


def execute(case, mode):
    c = case["in"]
    k = KIT[c["kit"]]
    import africanus
    root = tempfile.mkdtemp(prefix="vf-inst-")
    try:
        base = os.path.join(root, "data", "codex-africanus",
                            africanus.__version__)
        p = dict(root=root, dir=os.path.join(base, "include", k["sub"]),
                 inc=os.path.join(base, "include"),
                 tmp=os.path.join(root, "tmp"),
                 arch=os.path.join(base, "downloads", k["zip"]))
        os.makedirs(p["tmp"])
        if not c["lone"]:
            os.makedirs(p["inc"])
        files = contents(k, c)
        good = archive(k, files)
        old = None
        if c["dir"] == "full":
            write(p["dir"], files)
        elif c["dir"] == "old":
            # another version, with the header where it has to be
            old = {x: s.replace("v1.8.0", "v1.7.9")
                   for x, s in files.items()
                   if k["version"] or x != "README.md"}
            old["gone.h"] = "int gone;\n"
            write(p["dir"], old)
        elif c["dir"] == "noread":
            old = {x: s for x, s in files.items() if x != "README.md"}
            write(p["dir"], old)
        elif c["dir"] == "nohead":
            old = {x: s for x, s in files.items()
                   if x != (k["header"] or "README.md")}
            write(p["dir"], old)
        if c["arch"] != "none":
            os.makedirs(os.path.dirname(p["arch"]))
            with open(p["arch"], "wb") as f:
                f.write(good if c["arch"] == "good" else good[:40])
        o = dict(init=state(k, p, files, good, old), s=[])
        for x in c["sess"]:
            y = session(c, k, x, p, files, good)
            y.update(state(k, p, files, good, old))
            o["s"].append(y)
            if not y["end"] and not y["killed"]:
                break
        return o
    finally:
        shutil.rmtree(root, ignore_errors=True)


def session(c, k, x, p, files, good):
    out = os.path.join(p["root"], "out.json")
    if os.path.exists(out):
        os.remove(out)
    before = set(os.listdir(p["tmp"])) | \
        (set(os.listdir(p["inc"])) if os.path.isdir(p["inc"]) else set())
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            child(c, k, x, p, files, good, out)
            rc = 0
        except BaseException:
            if os.environ.get("VF_DEBUG"):
                import traceback
                traceback.print_exc()
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    y = dict(end=rc == 0, killed=rc == 71, res=[], there=[], got=0)
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                e = json.loads(line)
                if e[0] == "got":
                    y["got"] += 1
                else:
                    y["res"].append(e[1])
                    y["there"].append(e[2])
        os.remove(out)
    after = set(os.listdir(p["tmp"])) | \
        (set(os.listdir(p["inc"])) if os.path.isdir(p["inc"]) else set())
    y["left"] = len(after - before - {k["sub"]})
    return y


class Response(io.RawIOBase):
    """What the network sends."""
    def __init__(self, data, cut):
        self.data, self.pos, self.cut = data, 0, cut
        self.headers = {"Content-Length": str(len(data))}
        self.status = self.code = 200

    def readable(self):
        return True

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def read(self, n=-1):
        if self.pos >= len(self.data):
            if self.cut:
                raise ConnectionResetError("connection lost")
            return b""
        m = len(self.data) if n is None or n < 0 else n
        m = min(m, max(len(self.data)//2, 1))
        b = self.data[self.pos:self.pos + m]
        self.pos += len(b)
        if n is None or n < 0:
            b += self.read(-1)
        return b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)


def child(c, k, x, p, files, good, out):
    import errno
    import hashlib
    import importlib
    import threading
    import urllib.error
    import urllib.request
    log = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def note(*a):
        os.write(log, (json.dumps(a) + "\n").encode())
    os.environ["XDG_DATA_HOME"] = os.path.join(p["root"], "data")
    os.environ["HOME"] = p["root"]
    os.environ["TMPDIR"] = p["tmp"]
    tempfile.tempdir = p["tmp"]
    got = []
    real_sha = hashlib.sha1

    def sha1(data=b"", **kw):
        h = real_sha(data, **kw)

        class Sha:
            name, digest_size, block_size = "sha1", 20, 64

            def update(self, b):
                h.update(b)

            def hexdigest(self):
                return self.digest().hex()

            def digest(self):
                d = h.digest()
                if d == real_sha(good).digest():
                    return bytes.fromhex(k["sha"])
                return d

            def copy(self):
                raise NotImplementedError
        return Sha()
    hashlib.sha1 = sha1

    def urlopen(*a, **kw):
        kind = x["net"][len(got)]
        got.append(kind)
        note("got", kind)
        if kind == "refused":
            raise urllib.error.URLError("refused")
        if kind == "bad":
            return Response(good[:30] + b"!" + good[31:], False)
        if kind in ("short", "cut"):
            return Response(good[:len(good)//2], kind == "cut")
        return Response(good, False)
    urllib.request.urlopen = urlopen
    if c["xdev"]:
        def other(a, b):
            a, b = os.path.abspath(a), os.path.abspath(b)
            return a.startswith(p["tmp"]) != b.startswith(p["tmp"])

        def device(f):
            def g(a, b, **kw):
                if other(a, b):
                    raise OSError(errno.EXDEV, "other device", a, None, b)
                return f(a, b, **kw)
            return g
        os.rename, os.replace = device(os.rename), device(os.replace)
    for m in ("africanus.util.appdirs", "africanus.util.files", k["mod"]):
        sys.modules.pop(m, None)
    mod = importlib.import_module(k["mod"])
    exc = getattr(mod, k["exc"])
    fn = getattr(mod, k["fn"])
    count = [0]

    def hook(event, args):
        if event == "open":
            if not (isinstance(args[0], str)
                    and (args[2] or 0) & (os.O_WRONLY | os.O_RDWR)):
                return
        elif not event.startswith(("os.", "shutil.")) or \
                event in ("os.listdir", "os.scandir", "os.walk"):
            return
        if any(isinstance(a, str) and a.startswith(p["root"]) for a in args)\
                or event in ("os.remove", "os.rmdir"):
            count[0] += 1
            if count[0] == x["kill"]:
                os._exit(71)
    if x["kill"]:
        sys.addaudithook(hook)

    def call():
        try:
            d = fn()
        except exc:
            note("res", "hash", True)
        except (OSError, urllib.error.URLError):
            note("res", "net", True)
        else:
            there = os.path.abspath(d) == os.path.abspath(p["dir"]) and \
                os.path.isdir(d) and tree(d) == files
            note("res", "ok", bool(there))
    if x["thr"] == 1:
        for i in range(x["calls"]):
            call()
        return
    import random
    import vtime
    clock = vtime.install()
    rng = random.Random(x["seed"])
    last = [0, 0]

    def choose(n):
        if last[1] <= 0 or last[0] >= n:
            last[:] = [rng.randrange(n), rng.randint(1, x["run"])]
        last[1] -= 1
        return last[0]
    ls = vtime.Lockstep(clock, [mod.__file__, __file__], choose)
    ls.free = False
    ths = [threading.Thread(target=call, daemon=True)
           for _ in range(x["thr"])]
    threading.settrace(ls.trace)
    try:
        for t in ths:
            clock.known.add(t)
            t.start()
        done = ls.run(ths, limit=20000)
    finally:
        threading.settrace(None)
        ls.stop()
    for t in ths:
        t.join(5)
    if not done or any(t.is_alive() for t in ths):
        raise RuntimeError("deadlock")

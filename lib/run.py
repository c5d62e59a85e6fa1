"""Running cases: a pool of worker processes, each with its own vegadrv."""
import atexit, multiprocessing as mp, os, shutil, subprocess, sys, tempfile, time
from lib import build as _b

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 256 << 20:
                    return d
            except OSError:
                pass
    return os.path.join(_b.VERIF, "tmp")

class Driver:
    def __init__(self, root):
        self.root = root
        self.n = 0
        self.p = None
    def start(self):
        self.p = subprocess.Popen([os.path.join(_b.BUILD, "vegadrv")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env={"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C"})
    def ask(self, *fields):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(("\x1f".join(fields) + "\n").encode()); self.p.stdin.flush()
        a = self.p.stdout.readline().decode().split()
        if not a:
            raise RuntimeError("driver died")
        return a
    def case_dir(self):
        self.n += 1
        d = os.path.join(self.root, "c%d" % (self.n % 4))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d
    def close(self):
        if self.p:
            try:
                self.p.stdin.close(); self.p.wait(5)
            except Exception:
                self.p.kill()

class Result:
    """status: ('exit',n) | ('signal',n) | ('timeout',0)"""
    __slots__ = ("status", "dir", "ops", "out", "err", "files")
    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), errors="replace") as f:
                return f.read()
        except OSError:
            return None
    @property
    def ok(self):
        return self.status == ("exit", 0)

_drv = None
_root = None

def drv():
    global _drv, _root
    if _drv is None or _drv[0] != os.getpid():
        _root = tempfile.mkdtemp(prefix="vega%d_" % os.getpid(), dir=scratch_root())
        _drv = (os.getpid(), Driver(_root))
    return _drv[1]

def cleanup():
    if _drv is not None and _drv[0] == os.getpid():
        _drv[1].close()
        shutil.rmtree(_root, ignore_errors=True)
atexit.register(cleanup)

TIMEOUT = 30

def run(files, args, env=None, dump=True, timeout=None, keep=None):
    """files: {name: text}; args with {dir} substituted.  Runs the program in a fresh directory."""
    d = drv().case_dir() if keep is None else keep
    for n, t in files.items():
        p = os.path.join(d, n)
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode("latin-1", "replace"))
    e = dict(env or {})
    if dump:
        e["dump"] = "1"
    es = ";".join("%s=%s" % kv for kv in e.items()).replace("{dir}", d)
    a = drv().ask("R", d, str(timeout or TIMEOUT), es, *[x.replace("{dir}", d) for x in args])
    r = Result()
    if a[0] == "timeout":
        r.status = ("timeout", 0); r.ops = int(a[1])
    else:
        r.status = (a[0], int(a[1])); r.ops = int(a[2])
    r.dir = d
    r.out = r.read("stdout.log"); r.err = r.read("stderr.log")
    return r

def translate(deck, target, extra=(), extra_files=None, **kw):
    """Translate a Nastran deck to ASTER | SYSTUS | NASTRAN."""
    files = {"in.dat": deck}
    files.update(extra_files or {})
    return run(files, list(extra) + ["in.dat", "NASTRAN", target], **kw)

# ------------------------------------------------------------------ parallel exploration
_fn = None
def _call(chunk):
    out = []
    for i, c in chunk:
        try:
            out.append((i, _fn(c), None))
        except Exception:
            import traceback
            out.append((i, None, traceback.format_exc()))
    return out

def _init():
    # workers own their driver; cleanup through the finalizers of multiprocessing
    import multiprocessing.util as u
    u.Finalize(None, cleanup, exitpriority=10)

def explore(cases, fn, jobs=None, deadline=None, chunk=8):
    """Apply fn to every case (deterministic order of results). Returns [(case, result)], complete flag."""
    global _fn
    _fn = fn
    cases = list(cases)
    jobs = jobs or min(8, os.cpu_count() or 8)
    res = [None] * len(cases)
    done = 0
    chunks = [[(i, cases[i]) for i in range(s, min(s + chunk, len(cases)))] for s in range(0, len(cases), chunk)]
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, initializer=_init) as pool:
        it = pool.imap_unordered(_call, chunks)
        for part in it:
            for i, r, e in part:
                if e:
                    pool.terminate()
                    raise RuntimeError("oracle error on case %r:\n%s" % (cases[i], e))
                res[i] = r; done += 1
        pool.close(); pool.join()
    return list(zip(cases, res))

"""Run the real CrypTen code of /repo with N parties and collect what happened.

A *world* is a set of party processes (forked from this process, talking gloo
over loopback, exactly the way users run CrypTen).  Each party runs the same
body function, which emits plain-Python records; a crash, an exception or a
hang is recorded too, it never becomes an error of the check.
"""
import json, os, pickle, random, shutil, signal, sys, tempfile, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("GLOO_SOCKET_IFNAME", "lo")
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["MKL_NUM_THREADS"] = "1"
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings("ignore")

SEED = int(os.environ.get("VERIF_SEED", "1"))

_torch = None
def load():
    """Import torch and crypten from /repo (once, in the parent)."""
    global _torch
    if _torch is None:
        import torch
        torch.set_num_threads(1)
        import crypten
        assert os.path.realpath(crypten.__file__).startswith(os.path.realpath(REPO)), crypten.__file__
        import logging
        logging.disable(logging.CRITICAL)
        _torch = torch
    return _torch


class Party:
    """Handed to the body: rank, world size and a place to put records."""
    def __init__(self, rank, ws, f):
        self.rank, self.ws, self._f, self.n = rank, ws, f, 0
    def emit(self, rec):
        b = pickle.dumps(rec)
        self._f.write(len(b).to_bytes(8, "little") + b)
        self._f.flush()
        self.n += 1


class Urandom:
    """Reproducible replacement for os.urandom (per rank, per run)."""
    def __init__(self, seed):
        self.r = random.Random(seed)
    def __call__(self, n):
        return self.r.randbytes(n)


def _read(path):
    out = []
    try:
        with open(path, "rb") as f:
            while True:
                h = f.read(8)
                if len(h) < 8:
                    break
                n = int.from_bytes(h, "little")
                b = f.read(n)
                if len(b) < n:
                    break
                out.append(pickle.loads(b))
    except FileNotFoundError:
        pass
    return out


class Result:
    def __init__(self, ws, recs, status, spec):
        self.ws, self.recs, self.status, self.spec = ws, recs, status, spec
    @property
    def ok(self):
        return all(s == "ok" for s in self.status)
    def error(self):
        """First non-ok status, shortened; exceptions win over hangs."""
        bad = [(r, s) for r, s in enumerate(self.status) if s != "ok"]
        if not bad:
            return None
        bad.sort(key=lambda x: (x[1].startswith("hang") or "onnection closed" in x[1] or "Connection reset" in x[1]))
        return "party %d: %s" % bad[0]


class World:
    """A started world; .wait() gives its Result."""
    def __init__(self, body, ws, provider="TFP", cfg=None, seed=0, init=True, timeout=90, patch_urandom=True, party_hook=None, args=()):
        load()
        self.ws, self.spec = ws, dict(ws=ws, provider=provider, cfg=cfg or {}, seed=seed)
        self.dir = tempfile.mkdtemp(prefix="cworld-")
        self.deadline = time.time() + timeout
        self.ttp = provider == "TTP"
        self.pids = {}
        n = ws + (1 if self.ttp else 0)
        rdv = os.path.join(self.dir, "rdv")
        sys.stdout.flush(); sys.stderr.flush()
        for rank in range(n):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    log = os.open(os.path.join(self.dir, "log%d" % rank), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(log, 1); os.dup2(log, 2)
                    self._child(body, rank, provider, cfg or {}, seed, init, rdv, patch_urandom, party_hook, args)
                except BaseException as e:
                    code = 3
                    try:
                        with open(os.path.join(self.dir, "err%d" % rank), "w") as f:
                            tb = traceback.extract_tb(e.__traceback__)
                            loc = ["%s:%d" % (os.path.relpath(t.filename, REPO), t.lineno) for t in tb if REPO in t.filename][-2:]
                            f.write("%s: %s @ %s" % (type(e).__name__, str(e)[:300].replace("\n", " "), " ".join(loc)))
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            self.pids[rank] = pid

    def _child(self, body, rank, provider, cfgd, seed, init, rdv, patch_urandom, party_hook, args):
        import torch, crypten
        from crypten.config import cfg
        os.environ.update(WORLD_SIZE=str(self.ws), RANK=str(rank), RENDEZVOUS="file://" + rdv, DISTRIBUTED_BACKEND="gloo")
        if patch_urandom:
            os.urandom = Urandom(hash((seed, rank, 77)) & 0xffffffff)
        torch.manual_seed((seed * 1000003 + rank * 7919 + 13) & 0x7fffffff)
        random.seed(seed * 31 + rank)
        import numpy
        numpy.random.seed((seed * 131 + rank) & 0x7fffffff)
        if provider:
            cfg.mpc.provider = provider
        for k, v in cfgd.items():
            o = cfg
            *path, last = k.split(".")
            for q in path:
                o = getattr(o, q)
            setattr(o, last, v)
        if party_hook:
            party_hook(rank, self.ws)
        if self.ttp and rank == self.ws:
            if init:
                crypten.init()
                crypten.mpc.provider.TTPServer()
                self._linger()
            return
        with open(os.path.join(self.dir, "rec%d" % rank), "wb") as f:
            pty = Party(rank, self.ws, f)
            if init:
                crypten.init()
            body(pty, *args)
        if init:
            # gloo's own teardown can dead-lock under load, so a world that does not study
            # shutdown ends without it: everyone stays connected until all bodies are done
            open(os.path.join(self.dir, "done%d" % rank), "w").close()
            self._linger()

    def _done(self):
        return all(os.path.exists(os.path.join(self.dir, "done%d" % r)) for r in range(self.ws))

    def _linger(self):
        while not self._done():
            time.sleep(0.005)
        os._exit(0)

    def _kill(self):
        for pid in list(self.pids.values()):
            for t in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                try:
                    t()
                except (ProcessLookupError, PermissionError):
                    pass

    def wait(self):
        status = {}
        fail_at = None
        while len(status) < len(self.pids):
            for rank, pid in self.pids.items():
                if rank in status:
                    continue
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                        status[rank] = "ok"
                    else:
                        try:
                            status[rank] = "exception " + open(os.path.join(self.dir, "err%d" % rank)).read()
                        except FileNotFoundError:
                            status[rank] = "crash status=%d" % st
                        fail_at = fail_at or time.time()
            now = time.time()
            if self.ttp and self.ws not in status and all(status.get(r) == "ok" for r in range(self.ws)) and self._done():
                status[self.ws] = "ok"
                break
            if now > self.deadline or (fail_at and now > fail_at + 4):
                for rank in self.pids:
                    if rank not in status:
                        status[rank] = "hang"
                break
            time.sleep(0.01)
        self._kill()
        for rank, pid in self.pids.items():
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        recs = [_read(os.path.join(self.dir, "rec%d" % r)) for r in range(self.ws)]
        shutil.rmtree(self.dir, ignore_errors=True)
        return Result(self.ws, recs, [status[r] for r in sorted(status)], self.spec)


def run_worlds(specs, procs=8):
    """specs: list of kwargs for World (with 'body'); runs them with bounded parallelism, keeps order."""
    load()
    results = [None] * len(specs)
    active, queue = [], list(enumerate(specs))
    import threading
    def weight(s):
        return s["ws"] + (1 if s.get("provider") == "TTP" else 0)
    load_ = 0
    retried = set()
    # simple sequential scheduler with polling: start as many as fit
    waiting = []
    while queue or waiting:
        while queue and (not waiting or load_ + weight(queue[0][1]) <= procs):
            i, s = queue.pop(0)
            s2 = dict(s)
            waiting.append((i, World(**s2), weight(s)))
            load_ += weight(s)
        # wait for any to finish: poll
        done = None
        for j, (i, w, k) in enumerate(waiting):
            if all(_exited(pid) for r, pid in w.pids.items() if r < w.ws) or time.time() > w.deadline or _anyfail(w):
                done = j
                break
        if done is None:
            time.sleep(0.02)
            continue
        i, w, k = waiting.pop(done)
        r = w.wait()
        load_ -= k
        if not r.ok and i not in retried and all(q == "ok" or q == "hang" or "onnect" in q for q in r.status):
            # only lost connections or no progress: once more, so that an overloaded machine is not mistaken for a dead-lock
            retried.add(i)
            queue.insert(0, (i, specs[i]))
            continue
        results[i] = r
    return results


def _exited(pid):
    try:
        return os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT) is not None
    except ChildProcessError:
        return True


def _anyfail(w):
    for pid in w.pids.values():
        try:
            st = os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT)
        except ChildProcessError:
            return True
        if st is not None and (st.si_code != os.CLD_EXITED or st.si_status != 0):
            return True
    return False


# --------------------------------------------------------------- value encodings
def limbs(v):
    v &= (1 << 64) - 1
    return [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48]

def words(t):
    """int64 tensor -> flat list of 4-limb words"""
    return [limbs(int(x)) for x in t.reshape(-1).tolist()]

def unlimb(w):
    v = w[0] | w[1] << 16 | w[2] << 32 | w[3] << 48
    return v - (1 << 64) if v >> 63 else v

"""Run a function in n CrypTen parties (forked, gloo over loopback, code of the current directory)."""
import os, sys, tempfile, pickle, signal, time, shutil, warnings, traceback
os.environ.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", GLOO_SOCKET_IFNAME="lo", CUDA_VISIBLE_DEVICES="")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
import torch
torch.set_num_threads(1)
import crypten
import logging
logging.disable(logging.CRITICAL)
assert os.path.realpath(crypten.__file__).startswith(os.path.realpath(os.getcwd())), crypten.__file__


def parties(n, fn, provider="TFP", timeout=60, cfg=None, tries=2, init=True):
    """list of the n return values of fn(rank); raises if a party fails or nothing happens in time"""
    d = tempfile.mkdtemp(prefix="demo-")
    kids = {}
    ttp = provider == "TTP"
    for r in range(n + (1 if ttp else 0)):
        pid = os.fork()
        if pid == 0:
            try:
                os.environ.update(WORLD_SIZE=str(n), RANK=str(r), RENDEZVOUS="file://%s/rdv" % d, DISTRIBUTED_BACKEND="gloo")
                torch.manual_seed(1000 + r)
                from crypten.config import cfg as C
                C.mpc.provider = provider
                for k, v in (cfg or {}).items():
                    o = C
                    *p, last = k.split(".")
                    for q in p:
                        o = getattr(o, q)
                    setattr(o, last, v)
                if init:
                    crypten.init()
                if r == n:
                    crypten.mpc.provider.TTPServer()
                    os._exit(0)
                v = fn(r)
                with open("%s/out%d.tmp" % (d, r), "wb") as f:
                    pickle.dump(v, f)
                os.rename("%s/out%d.tmp" % (d, r), "%s/out%d" % (d, r))
                while not all(os.path.exists("%s/out%d" % (d, q)) for q in range(n)):
                    time.sleep(.01)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
        kids[r] = pid
    end = time.time() + timeout
    bad = None
    left = {r: p for r, p in kids.items() if r < n}
    while left and bad is None:
        for r, p in list(left.items()):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                del left[r]
                if st:
                    bad = "party %d failed" % r
        if time.time() > end:
            bad = "no end after %d s" % timeout
        time.sleep(.01)
    for p in kids.values():
        try:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        except (ProcessLookupError, ChildProcessError):
            pass
    try:
        if bad:
            if tries > 1 and bad.startswith("no end"):
                return parties(n, fn, provider, timeout, cfg, tries - 1, init)
            raise RuntimeError(bad)
        return [pickle.load(open("%s/out%d" % (d, r), "rb")) for r in range(n)]
    finally:
        shutil.rmtree(d, ignore_errors=True)

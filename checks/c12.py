"""C12: parties as threads - InProc.tla (all interleavings) and controlled schedules of the real class."""
from _comm import *
import os, pickle, random, tempfile, time, threading
from vlib.sched import Sched
ALL = '{"bcast","scatter","gather","allgather","send","sendany"}'
CFG = "SPECIFICATION %s\nCONSTANTS N=%d MaxLen=%d Matching=%s Kinds=%s\n%sCHECK_DEADLOCK FALSE\n"


def value(torch, rng, n, p, shape, dt, k=0):
    t = torch.arange(max(1, int(torch.tensor(shape).prod()) if shape else 1)).reshape(shape if shape else ()) + 1000 * (n + 1) + 100 * p + 10 * k
    return t.to(dt)


def run_case(torch, case):
    """one program under one schedule on the real InProcessCommunicator; returns events"""
    import crypten.communicator.in_process_communicator as mod
    import crypten.communicator.communicator as base
    N, prog, sched, seed, lines = case["N"], case["prog"], case["sched"], case["seed"], case["lines"]
    rng = random.Random(seed)
    S = Sched(N, sched, seed, "in_process_communicator.py" if lines else None)
    saved = S.patch([mod, base]) if not case.get("free") else []
    C = mod.InProcessCommunicator
    evs = []
    for n, o in enumerate(prog):
        shape = rng.choice([(), (1,), (3,), (2, 2)])
        dt = rng.choice([torch.long, torch.long, torch.float32, torch.int32, torch.uint8 if n < 0 else torch.float64])
        k = o["k"]
        op = {"sendany": "send"}.get(k, k)
        if k == "gather" and rng.random() < .4: op = "reduce"
        if k == "allgather" and rng.random() < .5: op = "allreduce"
        grp = [o["a"], o["b"]] if op == "send" else list(range(N))
        if op == "scatter":
            inp = [[value(torch, rng, n, p, shape, dt, i) for i in range(N)] if p == o["a"] else [] for p in range(N)]
        elif op == "send":
            inp = [[value(torch, rng, n, p, shape, dt)] if p == o["a"] else [] for p in range(N)]
        else:
            inp = [[value(torch, rng, n, p, shape, dt)] for p in range(N)]
        evs.append(dict(op=op, ws=N, root=o["a"], to=o["b"], red="SUM", grp=grp, any=k == "sendany", nb=rng.random() < .4, kw=rng.random() < .3,
                        tin=inp, res=[None] * N, early=[None] * N, aft=[[] for _ in range(N)], inp=[tens(x) for x in inp], done=[False] * N, shape=shape, dt=dt))
    ready = [0]
    def party(p):
        def go():
            C.initialize(p, N)
            c = C.get()
            assert c.get_rank() == p and c.get_world_size() == N
            for n, e in enumerate(evs):
                if p not in e["grp"]:
                    continue
                x = e["tin"][p]
                kw = e["kw"]
                if e["op"] == "bcast": r = c.broadcast(x[0], src=e["root"]) if kw else c.broadcast(x[0], e["root"])
                elif e["op"] == "scatter": r = c.scatter(x if p == e["root"] else None, e["root"], size=e["shape"])
                elif e["op"] == "gather": r = c.gather(x[0], dst=e["root"]) if kw else c.gather(x[0], e["root"])
                elif e["op"] == "allgather": r = c.all_gather(x[0])
                elif e["op"] == "reduce": r = c.reduce(x[0], e["root"])
                elif e["op"] == "allreduce": r = c.all_reduce(x[0])
                elif p == e["root"]:
                    r = None
                    if e["nb"]: c.isend(x[0], e["to"]).wait()
                    else: c.send(x[0], e["to"])
                else:
                    buf = torch.zeros(e["shape"], dtype=e["dt"])
                    src = None if e["any"] else e["root"]
                    if e["nb"]:
                        q = c.irecv(buf, src=src); q.wait(); r = buf
                    else: r = c.recv(buf, src)
                e["aft"][p] = tens(x)
                if e["op"] == "gather" and p != e["root"]: r = None
                e["res"][p] = r
                own = set(t.data_ptr() for t in x)
                rs = [] if r is None else [r] if torch.is_tensor(r) else list(r)
                if any(t.data_ptr() in own for t in rs):
                    e["early"][p] = tens(r)       # allowed for the caller's own tensor: do not disturb it
                else:
                    for t in x: t.fill_(-7)       # a sender may reuse its buffers at once
                e["done"][p] = True
        return go
    try:
        if case.get("free"):
            ths = [threading.Thread(target=party(p), daemon=True) for p in range(N)]
            [t.start() for t in ths]; [t.join(20) for t in ths]
            S.dead = [i for i, t in enumerate(ths) if t.is_alive()] or None
        else:
            S.run([party(p) for p in range(N)])
    finally:
        S.unpatch(saved)
        C.shutdown()
    out = [dict(op="begin", ws=N, prog="%s seed=%s%s" % (" ".join("%s%d%s" % (o["k"], o["a"], o["b"]) for o in prog), seed, " lines" if lines else ""))]
    if S.uncontrolled:
        return None
    bad = None
    if S.dead: bad = "dead-lock: parties %s never finish" % S.dead
    for i, m in enumerate(S.err):
        if m: bad = "party %d: %s" % (i, m)
    for e in evs:
        if not all(e["done"][p] for p in e["grp"]):
            break
        o = [e["early"][p] if e["early"][p] is not None else tens(e["res"][p]) for p in range(N)]
        out.append(dict(op=e["op"], ws=N, root=e["root"], to=e["to"], red="SUM", grp=e["grp"], inp=e["inp"], out=o, aft=[e["aft"][p] if p in e["grp"] else e["inp"][p] for p in range(N)], err="", verbose=False, osz=[]))
    if bad:
        out.append(dict(op="world", ws=N, err=bad))
    return out


def run_many(cases, procs=7):
    """forked workers; each runs a chunk of cases"""
    torch = load()
    chunks = [cases[i::procs] for i in range(procs)]
    pids = []
    d = tempfile.mkdtemp(prefix="cthr-")
    for i, ch in enumerate(chunks):
        pid = os.fork()
        if pid == 0:
            try:
                f = os.open(os.devnull, os.O_WRONLY); os.dup2(f, 1); os.dup2(f, 2)
                res = []
                for k in ch:
                    r = run_case(torch, k)
                    if r is None:                      # a primitive we do not control: let it run freely
                        r = run_case(torch, dict(k, free=True, lines=False)) or []
                        k["unc"] = True
                    res.append(r)
                with open("%s/%d" % (d, i), "wb") as g:
                    pickle.dump((res, sum(1 for k in ch if k.get("unc"))), g)
            except BaseException as e:
                import traceback
                with open("%s/err%d" % (d, i), "w") as g: g.write(traceback.format_exc())
            finally:
                os._exit(0)
        pids.append(pid)
    end = time.time() + 300
    for pid in pids:
        while time.time() < end and not os.waitpid(pid, os.WNOHANG)[0]:
            time.sleep(.05)
    out, unc = [], 0
    for i in range(procs):
        try:
            with open("%s/%d" % (d, i), "rb") as g:
                r, u = pickle.load(g)
            out.append(r); unc += u
        except FileNotFoundError:
            try: msg = open("%s/err%d" % (d, i)).read()[-300:]
            except FileNotFoundError: msg = "no answer (process hung or died)"
            out.append([[dict(op="begin", ws=0, prog="chunk %d" % i), dict(op="world", ws=0, err=msg)]])
    import shutil; shutil.rmtree(d, ignore_errors=True)
    return out, unc


def go(c):
    inv = "INVARIANT Right NoDeadlock Clean\n"
    c.model("InProc", CFG % ("Spec", 2, 3, "TRUE", ALL, inv), "InProc N=2 L=3", workers=2)
    if c.thorough:
        c.model("InProc", CFG % ("Spec", 3, 2, "TRUE", ALL, inv), "InProc N=3 L=2", workers=2)
        c.model("InProc", CFG % ("Spec", 3, 3, "TRUE", '{"bcast","gather","allgather","send"}', inv), "InProc N=3 L=3", workers=4, timeout=900)
    else:
        c.model("InProc", CFG % ("Spec", 3, 2, "TRUE", '{"bcast","scatter","gather","allgather","send"}', inv), "InProc N=3 L=2", workers=3)
    # schedules generated from the specification
    cases = []
    gens = [(2, 6), (3, 5), (3, 8), (4, 4)]
    ps = [(N, L, tlc.start("InProc", CFG % ("GSpec", N, L, "TRUE", ALL.replace(',"sendany"', "") if L > 4 else ALL, "INVARIANT Emit Right\n"), simulate=120 * (8 if c.thorough else 1), depth=400, seed=SEED * 77 + N * 10 + L)) for N, L in gens]
    for N, L, p in ps:
        r = tlc.finish(p, 200)
        if r.violated: raise Machinery("InProc generator " + r.out[-1500:])
        for x in r.printed:
            if "prog" in x and len(cases) < 20000:
                prog = x["prog"]
                if any(o["k"] == "sendany" and any(q is not o and q["k"] in ("send", "sendany") and q["b"] == o["b"] and q["a"] != o["a"] for q in prog) for o in prog):
                    continue
                cases.append(dict(N=N, prog=prog, sched=x["sched"], seed=c.rng.randrange(1 << 30), lines=False))
    if not cases: raise Machinery("no schedules generated")
    n = len(cases)
    for k in list(cases):                                   # the same programs, interleaved line by line
        cases.append(dict(k, sched=[], seed=c.rng.randrange(1 << 30), lines=True))
    res, unc = run_many(cases)
    c.detail.update(programs=len(cases), spec_schedules=n, line_schedules=len(cases) - n, uncontrolled=unc)
    c.sample(dict(N=cases[0]["N"], prog=cases[0]["prog"], sched=cases[0]["sched"][:20]))
    traces = []
    for i, chunk in enumerate(res):
        ev = [e for case in chunk for e in case]
        traces.append(("threads%d" % i, ev, None))
    c.validate(traces, "CommTrace", cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
    c.assumptions.append("threads switch only at synchronisation operations or between source lines of the communicator module")


main("C12", go)

"""Call forms of data-movement operations, valid for ordinary and private tensors alike."""


def prodl(s):
    n = 1
    for d in s:
        n *= d
    return n


def forms(rng, torch, shape, first=True):
    """a random call form valid for a tensor of this shape: (note, f, extra_shapes, kind)
    f(tensors) works on ordinary and private tensors alike"""
    nd = len(shape)
    dim = rng.randrange(-nd, nd) if nd else 0
    n = prodl(shape)
    R = rng
    def fac(n):
        out = []
        while n > 1 and R.random() < .7:
            d = R.choice([q for q in range(1, n + 1) if n % q == 0])
            out.append(d); n //= d
        return out + [n] if R.random() < .8 or n > 1 or not out else out
    c = R.choice(["reshape", "view", "flatten", "transpose", "permute", "t", "flip", "roll", "roll0", "narrow", "getitem", "getitem", "getitem", "gather", "index_select",
                  "take", "takedim", "squeeze", "unsqueeze", "expand", "repeat", "unfold", "pad", "split", "unbind", "cat", "stack", "set", "set", "scatter", "clone", "wrapn"])
    if c == "view" and not first:
        c = "reshape"   # views need contiguous memory, as for ordinary tensors
    if c in ("reshape", "view"):
        s = fac(n)
        if R.random() < .4 and n > 0:
            s[R.randrange(len(s))] = -1
        v = R.random() < .5
        return "%s%s" % (c, s), lambda t: getattr(t[0], c)(*s) if v else getattr(t[0], c)(tuple(s)), [], "A"
    if c == "flatten":
        a = R.choice([(), (0,), (0, -1)] + ([(dim,)] if nd else []))
        if nd == 0: a = ()
        return "flatten%s" % (a,), lambda t: t[0].flatten(*a), [], "A"
    if c == "transpose" and nd:
        d2 = R.randrange(-nd, nd)
        return "transpose %d %d" % (dim, d2), lambda t: t[0].transpose(dim, d2), [], "A"
    if c == "permute" and nd:
        q = list(range(nd)); R.shuffle(q)
        if R.random() < .3: q = [x - nd for x in q]
        v = R.random() < .5
        return "permute%s" % q, lambda t: t[0].permute(*q) if v else t[0].permute(q), [], "A"
    if c == "t" and nd <= 2:
        return "t", lambda t: t[0].t(), [], "A"
    if c == "flip" and nd:
        q = R.sample(range(nd), R.randint(1, nd))
        return "flip%s" % q, lambda t: t[0].flip(dims=q) if len(q) > 1 else t[0].flip(q[0]), [], "A"
    if c == "roll" and nd:
        k = R.randint(-4, 4)
        if nd > 1 and R.random() < .4:
            d2 = (dim % nd + 1) % nd
            return "roll2", lambda t: t[0].roll((k, 1), (dim, d2)), [], "A"
        return "roll %d %d" % (k, dim), lambda t: t[0].roll(k, dims=dim), [], "A"
    if c == "roll0" and nd:
        k = R.randint(-3, 3)
        return "roll %d" % k, lambda t: t[0].roll(k), [], "A"
    if c == "narrow" and nd and shape[dim] > 0:
        a = R.randrange(shape[dim]); l = R.randint(1, shape[dim] - a)
        return "narrow", lambda t: t[0].narrow(dim, a, l), [], "A"
    if c == "getitem" and nd:
        idx = []
        for i in range(R.randint(1, nd)):
            m = shape[i]
            k = R.choice(["int", "neg", "slice", "step", "full", "list", "ten"]) if not any(isinstance(x, (list, torch.Tensor)) for x in idx) else R.choice(["slice", "full"])
            if k == "int": idx.append(R.randrange(m))
            elif k == "neg": idx.append(-R.randint(1, m))
            elif k == "slice":
                a = R.randrange(m); idx.append(slice(a, R.choice([None, a + 1, m, -1 if a < m - 1 else None])))
            elif k == "step": idx.append(slice(R.choice([None, 0]), None, 2))
            elif k == "full": idx.append(slice(None))
            elif k == "list": idx.append([R.randrange(m) for _ in range(R.randint(1, 3))])
            else: idx.append(torch.tensor([R.randrange(m) for _ in range(R.randint(1, 3))]))
        if R.random() < .2 and not any(isinstance(x, (list, torch.Tensor)) for x in idx): idx.insert(0, None)
        if R.random() < .2 and len(idx) < nd: idx.insert(0, Ellipsis)
        if R.random() < .15:
            m = torch.tensor([R.random() < .6 for _ in range(n)]).reshape(shape)
            m.view(-1)[0] = True
            idx = [m]
        ix = tuple(idx) if len(idx) > 1 or R.random() < .5 else idx[0]
        return "[%s]" % (ix,), lambda t: t[0][ix], [], "A"
    if c == "gather" and nd:
        s2 = list(shape); s2[dim] = R.randint(1, 3)
        ix = torch.tensor([R.randrange(shape[dim]) for _ in range(prodl(s2))]).reshape(s2)
        return "gather %d" % dim, lambda t: t[0].gather(dim, ix), [], "A"
    if c == "index_select" and nd:
        ix = torch.tensor([R.randrange(shape[dim]) for _ in range(R.randint(1, 4))])
        return "index_select %d" % dim, lambda t: t[0].index_select(dim, ix), [], "A"
    if c == "take":
        ix = torch.tensor([R.randrange(n) for _ in range(4)]).reshape(R.choice([(4,), (2, 2), (1, 4)]))
        return "take", lambda t: t[0].take(ix), [], "A"
    if c == "takedim" and nd:
        ix = torch.tensor([R.randrange(shape[dim]) for _ in range(4)]).reshape(R.choice([(4,), (2, 2)]))
        def f(t):
            if torch.is_tensor(t[0]):
                return t[0][tuple([slice(None)] * (dim % nd) + [ix])]
            return t[0].take(ix, dim)
        return "take dim %d" % dim, f, [], "A"
    if c == "squeeze":
        if nd and R.random() < .6: return "squeeze %d" % dim, lambda t: t[0].squeeze(dim), [], "A"
        return "squeeze", lambda t: t[0].squeeze(), [], "A"
    if c == "unsqueeze":
        d = R.randrange(-nd - 1, nd + 1)
        return "unsqueeze %d" % d, lambda t: t[0].unsqueeze(d), [], "A"
    if c == "expand":
        s = [R.randint(1, 2) for _ in range(R.randint(0, 1))] + [R.randint(2, 3) if d == 1 else R.choice([d, -1]) for d in shape]
        return "expand%s" % s, lambda t: t[0].expand(*s) if s else t[0].expand(()), [], "A"
    if c == "repeat":
        s = [R.randint(1, 2) for _ in range(max(1, nd + R.randint(0, 1)))]
        return "repeat%s" % s, lambda t: t[0].repeat(*s), [], "A"
    if c == "unfold" and nd:
        k = R.randint(1, shape[dim]); st = R.randint(1, 2)
        return "unfold", lambda t: t[0].unfold(dim, k, st), [], "A"
    if c == "pad" and nd:
        p = []
        for i in range(R.randint(1, nd)):
            p += [R.randint(0, 2), R.randint(0, 2)]
        return "pad%s" % p, ("pad", p), [], "pad"
    if c == "split" and nd:
        if R.random() < .5:
            a = R.randint(1, shape[dim])
        else:
            a, left = [], shape[dim]
            while left:
                q = R.randint(1, left); a.append(q); left -= q
        m = len(torch.zeros(shape).split(a, dim))
        j = R.randrange(m)
        return "split %s %d [%d]" % (a, dim, j), lambda t: t[0].split(a, dim)[j] if R.random() < 2 else None, [], "A"
    if c == "unbind" and nd:
        j = R.randrange(shape[dim])
        return "unbind %d" % dim, lambda t: t[0].unbind(dim)[j], [], "A"
    if c == "cat" and nd:
        m = R.choice([1, 2, 2, 3])
        ex = []
        for _ in range(m - 1):
            s = list(shape); s[dim] = R.randint(1, 3); ex.append(s)
        return "cat %d" % dim, ("cat", dim), ex, "join"
    if c == "stack":
        d = R.randrange(-nd - 1, nd + 1)
        return "stack %d" % d, ("stack", d), [list(shape)] * R.choice([0, 1, 2]), "join"
    if c == "set" and nd:
        ix = R.choice([R.randrange(shape[0]), slice(0, R.randint(1, shape[0])), slice(None, None, 2), Ellipsis, torch.tensor(sorted(R.sample(range(shape[0]), R.randint(1, shape[0]))))])
        tgt = list(torch.zeros(shape)[ix].shape)
        return "setitem %s" % (ix,), ("set", ix), [R.choice([tgt, tgt, []])], "set"
    if c == "scatter" and nd:
        s2 = list(shape)
        m = shape[dim]
        # indices without duplicates along dim, so that the result does not depend on the order of writes
        k = R.randint(1, m)
        s2[dim] = k
        ix = torch.zeros(s2, dtype=torch.long)
        flat = ix.transpose(dim, 0).reshape(k, -1)
        cols = [R.sample(range(m), k) for _ in range(flat.shape[1])]
        ix = torch.tensor(cols).t().reshape([k] + [x for i, x in enumerate(ix.transpose(dim, 0).shape) if i]).transpose(dim, 0).contiguous()
        return "scatter %d" % dim, ("scatter", dim, ix), [s2], "set"
    if c == "clone":
        return "clone", lambda t: t[0].clone(), [], "A"
    return forms(rng, torch, shape, first)

"""Scenario generation for the AXI and AXI-lite slave and RAM families."""
import random
from gen_axi import log2, deck


def variant(rng, k, lite, lanes, full=False):
    aw = rng.choice([13, 14, 16, 20])
    v = dict(pfx="s%d" % k, lite=lite, lanes=lanes, aw=aw, idw=rng.choice([1, 2, 4]))
    full = rng.random() < .3 or full
    P = lambda p: full or rng.random() < p
    v["bresp"], v["rresp"] = P(.9), P(.9)
    v["strb"] = P(.9)
    v["buser"], v["ruser"] = (not lite) and P(.4), (not lite) and P(.4)
    v["attrs"] = {}
    p = v["pfx"] + "_"
    s = []
    for ch in ("aw", "ar"):
        s += [(p + ch + "addr", aw), (p + ch + "valid", 1), (p + ch + "ready", 1)]
        v["attrs"][ch] = []
        if not lite:
            s += [(p + ch + "id", v["idw"]), (p + ch + "len", 8), (p + ch + "size", 3), (p + ch + "burst", 2)]
        for a, w in ([("prot", 3)] if lite else [("lock", 1), ("cache", 4), ("prot", 3), ("qos", 4), ("region", 4), ("user", 5)]):
            if P(.6):
                s.append((p + ch + a, w))
                v["attrs"][ch].append((a, w))
    s += [(p + "wdata", 8 * lanes), (p + "wvalid", 1), (p + "wready", 1)]
    if v["strb"]:
        s.append((p + "wstrb", lanes))
    s += [(p + "bvalid", 1), (p + "bready", 1), (p + "rdata", 8 * lanes), (p + "rvalid", 1), (p + "rready", 1)]
    if not lite:
        s += [(p + "wlast", 1), (p + "bid", v["idw"]), (p + "rid", v["idw"]), (p + "rlast", 1)]
    if v["bresp"]:
        s.append((p + "bresp", 2))
    if v["rresp"]:
        s.append((p + "rresp", 2))
    if v["buser"]:
        s.append((p + "buser", 3))
    if v["ruser"]:
        s.append((p + "ruser", 3))
    v["signals"] = s
    return v


def burst(rng, v, hot, maxlen):
    """a legal burst: (payload, beat lanes)"""
    lanes, top, lite = v["lanes"], 2**v["aw"], v["lite"]
    mx = log2(lanes)
    if lite:
        a = (rng.choice(hot) + rng.randint(-2 * lanes, 2 * lanes)) % top
        q = dict(a=a, id=0, len=0, size=mx, burst=1)
        return q, [(0, lanes - 1)]
    size = mx if rng.random() < .5 else rng.randint(0, mx)
    nb = 2**size
    bt = rng.choice([0, 1, 1, 1, 2])
    a = (rng.choice(hot) + rng.randint(-4 * lanes, 4 * lanes)) % top
    if rng.random() < .4:
        a = a // nb * nb
    if bt == 1:
        n = rng.choice([1, 1, 2, 3, 4, rng.randint(1, 16), rng.randint(1, maxlen)])
        room = (0x1000 - (a & 0xfff) + nb - 1 + a % nb) // nb
        room = (0x1000 - (a // nb * nb & 0xfff)) // nb
        n = max(1, min(n, room))
        if rng.random() < .1:
            n = min(room, 256)
            if n > maxlen:
                n = min(maxlen, n)
    elif bt == 0:
        n = rng.choice([1, 2, 3, 4, rng.randint(1, 16)])
    else:
        n = rng.choice([2, 4, 8, 16])
        a = a // nb * nb
    q = dict(a=a, id=rng.randrange(2**v["idw"]), len=n - 1, size=size, burst=bt)
    ls = []
    al = a // nb * nb
    for k in range(n):
        if bt == 0:
            ba = al
        elif bt == 1:
            ba = al + k * nb
        else:
            t = nb * n
            low = a // t * t
            ba = low + (al - low + k * nb) % t
        lo = a % lanes if k == 0 or bt == 0 else ba % lanes
        ls.append((lo, ba % lanes + nb - 1))
    return q, ls


def wbeats(rng, v, q, ls):
    out = []
    mode = rng.random()
    for k, (lo, hi) in enumerate(ls):
        s = [0] * v["lanes"]
        for j in range(lo, hi + 1):
            s[j] = 1 if mode < .35 else rng.randint(0, 1) if mode < .9 else 0
        if not v["strb"]:
            s = [1] * v["lanes"]
        out.append(dict(d=[rng.getrandbits(8) for _ in range(v["lanes"])], s=s, l=int(k == len(ls) - 1)))
    return out


def target(rng, prop, lanes, top, bus):
    """chooses the memory behind a slave; returns (kind, size, failing ranges)"""
    fail = []
    r = rng.random()
    if r < (.25 if prop in ("V03", "A03") else .6):
        kind = "ram"
        size = rng.choice([x for x in (64, 256, 1024, 4096, 8192, 8192) if x >= 4 * lanes])
        if rng.random() < .2:
            size = size * 3 // 4 // lanes * lanes
    elif r < (.35 if prop in ("V03", "A03") else .75):
        kind = "one"
        size = min(8192, top)
        fail = [[size, top - 1]] if size < top else []
    else:
        kind = "space"
        size = min(8192, top)
        bus["span"] = rng.choice([size, top])
        pos, regs = 0, []
        g = rng.choice([1, lanes, 16, 64])
        while pos < size and len(regs) < 12:
            sz = rng.choice([16, 64, 256, 1024, 3000]) // g * g or g
            sz = min(sz, size - pos)
            kk = rng.choice(["mem", "mem", "mem", "fail", "gap"])
            if kk != "gap":
                regs.append([pos, sz, kk])
            if kk != "mem":
                fail.append([pos, pos + sz - 1])
            pos += sz
        if pos < size:
            fail.append([pos, size - 1])
        if size < top:
            fail.append([size, top - 1])
        rng.shuffle(regs)
        bus["regions"] = regs
    if kind != "ram" and rng.random() < .5:
        bus["delay"] = rng.choice([[0, 1], [0, 0, 3], [1, 2, 5]])
    bus["kind"] = kind
    return kind, size, fail


def scenario(rng, prop, v, n):
    lite, lanes = v["lite"], v["lanes"]
    top = 2**v["aw"]
    bus = dict(pfx=v["pfx"], rstlvl=rng.choice([1, 1, 0]), split=int(rng.random() < .25), strb=v["strb"], buser=v["buser"], ruser=v["ruser"],
               attrs=v["attrs"])
    kind, size, fail = target(rng, prop, lanes, top, bus)
    cfg = dict(lite=lite, lanes=lanes, size=size, fill=rng.randrange(256), fail=fail, bresp=v["bresp"], rresp=v["rresp"], P=prop)
    sp = lambda: rng.choice([1, 1, .8, .5, .2])
    drv = dict(seed=rng.getrandbits(32), paw=sp(), pw=sp(), par=sp(), pb=sp(), pr=sp())
    if rng.random() < .2:
        drv["paw"] = .05      # data well ahead of the address
    hot = [rng.choice([0, size - 1, 4096, top - 1, rng.randrange(top)]) for _ in range(2)]
    if fail:
        f = rng.choice(fail)
        hot += [f[0], f[1] + 1] * 2
    hot += [rng.randrange(min(top, size))]
    hot = [h % top for h in hot]
    acts = {}

    def add(cy, a):
        acts.setdefault(str(cy), []).append(a)
    maxlen = 40 if rng.random() < .9 else 256
    if lanes >= 8:
        maxlen = min(maxlen, 64)
    budget = n * (1 if rng.random() < .7 else 2)
    rate = rng.choice([.05, .15, .4])
    prof = rng.random()
    prst = dict(V04=.03, S02=.006).get(prop, 0)
    if prop == "V04" and rng.random() < .3:
        prst = .1
    inrst = False
    vv = v
    for cy in range(n):
        if budget > 0 and rng.random() < rate:
            for _ in range(rng.choice([1, 1, 2, 4])):
                if rng.random() < .55:
                    q, ls = burst(rng, vv, hot, maxlen)
                    if not v["strb"] and not lite:
                        mx = log2(lanes)
                        if q["size"] != mx or q["a"] % lanes:
                            continue
                    add(cy, ["w", q, wbeats(rng, v, q, ls)])
                    budget -= len(ls)
                else:
                    q, ls = burst(rng, vv, hot, maxlen)
                    add(cy, ["r", q])
                    budget -= len(ls)
        if prof < .4 and rng.random() < .06:
            ch = rng.choice(["aw", "w", "b", "ar", "r"])
            if rng.random() < .5:
                add(cy, ["pgen", ch, [rng.randint(0, 1) for _ in range(rng.randint(2, 15))] + [0]])
            else:
                add(cy, ["pause", ch, rng.random() < .4])
        if rng.random() < .04:
            add(cy, ["peek"])
        if prst and rng.random() < (prst if not inrst else .35):
            inrst = not inrst
            add(cy, ["rst", int(inrst), rng.choice(["mid", "mid", "edge", "post", "pre"])])
    return dict(cfg=cfg, bus=bus, acts=acts, drv=drv, n=n)


def scenarios(seed, prop, count, n=120, nvar=6, lite=False):
    rng = random.Random("slave/%s/%s/%s" % (seed, prop, lite))
    vs = [variant(rng, k, lite, l) for k, l in enumerate(deck(rng, nvar, lite))]
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, [scenario(rng, prop, rng.choice(vs), rng.choice([n // 2, n, n])) for _ in range(count)]

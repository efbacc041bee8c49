"""Scenario generation for the AXI and AXI-lite master families."""
import random
I0 = dict(t="i", v=0)


def log2(n):
    return (n - 1).bit_length()


def deck(rng, count, lite=False):
    """bus widths (in byte lanes) for a number of variants: every width gets its turn"""
    d = [4, 8, rng.choice([1, 2]), 16] if lite else [1, 2, 4, 8, 16]
    d += [rng.choice([4, 8]) if lite else 4]
    rng.shuffle(d)
    return [d[k % len(d)] for k in range(count)]


def variant(rng, k, prop, lite, lanes, full=False):
    aw = rng.choice([13, 14, 16]) if rng.random() < .8 else rng.choice([8, 10, 20])
    aws = dict(w=aw, r=aw if rng.random() < .8 else aw + rng.choice([-1, 1, 2]))
    idw = rng.choice([1, 2, 3, 4])
    ids = dict(w=idw, r=idw if rng.random() < .8 else rng.choice([1, 2, 3, 5]))
    v = dict(pfx="m%d" % k, lite=lite, lanes=lanes, aw=aws, idw=ids, bub=rng.choice([1, 4]), rub=rng.choice([1, 4]))
    full = rng.random() < .35 or full
    P = lambda p: full or rng.random() < p
    h = {}
    for d in "wr":
        h[d] = dict(prot=P(.6), resp=P(.85))
        for a in ("lock", "cache", "qos", "region", "user"):
            h[d][a] = False if lite else P(.6)
        h[d]["wuser"] = d == "w" and not lite and P(.5)
        h[d]["ruser"] = not lite and P(.5)
    v["h"] = h
    v["strb"] = rng.random() < .9
    p = v["pfx"] + "_"
    s = []
    for ch, d in (("aw", "w"), ("ar", "r")):
        s += [(p + ch + "addr", aws[d]), (p + ch + "valid", 1), (p + ch + "ready", 1)]
        if not lite:
            s += [(p + ch + "id", ids[d]), (p + ch + "len", 8), (p + ch + "size", 3), (p + ch + "burst", 2)]
        for a, w in (("lock", 1), ("cache", 4), ("prot", 3), ("qos", 4), ("region", 4), ("user", 5)):
            if h[d][a]:
                s.append((p + ch + a, w))
    s += [(p + "wdata", 8 * lanes), (p + "wvalid", 1), (p + "wready", 1)]
    if v["strb"]:
        s.append((p + "wstrb", lanes))
    if not lite:
        s.append((p + "wlast", 1))
        if h["w"]["wuser"]:
            s.append((p + "wuser", 6))
    s += [(p + "bvalid", 1), (p + "bready", 1)]
    if not lite:
        s.append((p + "bid", ids["w"]))
    if h["w"]["resp"]:
        s.append((p + "bresp", 2))
    if h["w"]["ruser"]:
        s.append((p + "buser", v["bub"]))
    s += [(p + "rdata", 8 * lanes), (p + "rvalid", 1), (p + "rready", 1)]
    if not lite:
        s += [(p + "rid", ids["r"]), (p + "rlast", 1)]
    if h["r"]["resp"]:
        s.append((p + "rresp", 2))
    if h["r"]["ruser"]:
        s.append((p + "ruser", v["rub"]))
    v["signals"] = s
    return v


def op(rng, v, k, maxb, budget, prop, bytes_ok=True):
    d = rng.choice("wr")
    lite, lanes, top = v["lite"], v["lanes"], 2**v["aw"][d]
    mx = log2(lanes)
    size = mx if lite or rng.random() < .5 else rng.randint(0, mx)
    nb = 2**size
    o = dict(k=k, dir=d, size=size, burst=1, bytes=True, id=-1, lock=0, cache=3, prot=2, qos=0, region=0, user=0, wu=I0)
    if size == mx and rng.random() < .5:
        o["nosize"] = True
    nbeats = rng.choice([1, 1, 2, 3, 4, rng.randint(1, 8), rng.randint(1, max(1, min(budget, 3 * maxb)))])
    n = max(1, min(rng.choice([nbeats * nb, nbeats * nb - rng.randint(0, nb - 1), rng.randint(1, max(1, nbeats * nb))]), top))
    if not lite and rng.random() < .12:
        o["burst"] = 0
        nbeats = min(nbeats, 16)
        n = nbeats * nb - (rng.randint(0, nb - 1) if rng.random() < .5 else 0)
        a = rng.randrange(0, top, nb) // nb * nb
        n = max(1, n)
    else:
        r = rng.random()
        if r < .25:
            a = top - n - (rng.randint(0, 3) if rng.random() < .6 else rng.randint(0, 2 * lanes))
        elif r < .55 and top > 4096:
            a = rng.randrange(4096, top, 4096) - rng.randint(0, min(n + 2 * lanes, 4096))
        elif r < .65:
            a = rng.randint(0, 2 * lanes)
        else:
            a = rng.randrange(top)
        if rng.random() < .4:
            a = a // nb * nb
        a = max(0, min(a, top - n))
        if not lite and rng.random() < .03:
            n = 0
            a = a // nb * nb
    o["a"], o["n"] = a, n
    if not lite:
        if rng.random() < .6:
            o["id"] = rng.randrange(2**v["idw"][d])
        elif rng.random() < .3:
            o["noid"] = True
        h = v["h"][d]
        for f, w in (("lock", 1), ("cache", 4), ("qos", 4), ("region", 4), ("user", 5)):
            if h[f] and rng.random() < .6:
                o[f] = rng.getrandbits(w)
        if d == "w" and h["wuser"]:
            r = rng.random()
            if r < .3:
                o["wu"] = dict(t="i", v=rng.getrandbits(6))
            elif r < .7:
                o["wu"] = dict(t="l", v=[rng.getrandbits(6) for _ in range(rng.randint(0, nbeats + 3))])
    if v["h"][d]["prot"] and rng.random() < .6:
        o["prot"] = rng.getrandbits(3)
    if rng.random() < .5:
        o["init"] = True
    if rng.random() < .3:
        o["sub"] = True
    if all(o[f] == z for f, z in (("lock", 0), ("cache", 3), ("prot", 2), ("qos", 0), ("region", 0), ("user", 0))) and o["wu"] == I0 \
            and rng.random() < .5:
        o["dflt"] = True
    if prop == "M06" and rng.random() < .6:
        spoil(rng, v, o)
    o["d"] = [rng.getrandbits(8) for _ in range(max(0, o["n"]))] if d == "w" else []
    return o


def spoil(rng, v, o):
    """move one argument to (or just across) a limit"""
    lite, lanes, top, d = v["lite"], v["lanes"], 2**v["aw"][o["dir"]], o["dir"]
    h = v["h"][d]
    o.pop("dflt", None)
    ch = rng.choice(["addr", "ext", "ext", "neg", "bytes", "prot"] if lite else
                    ["addr", "ext", "ext", "neg", "bytes", "id", "id", "size", "size", "lock", "cache", "prot", "qos", "region", "user", "wuser"])
    if ch == "addr":
        o["a"] = rng.choice([top, top - 1, -1, top + 5, 0, -top, 2 * top, top // 2])
        o["n"] = rng.choice([1, 1, 0, 2]) if not lite else rng.choice([1, 1, 2])
        if o["n"] == 0 and 0 <= o["a"] < top:
            o["a"] = o["a"] // lanes * lanes
        if o["burst"] == 0 and 0 <= o["a"]:
            o["a"] = o["a"] // 2**o["size"] * 2**o["size"]
    elif ch == "ext":
        o["burst"] = 1
        o["n"] = max(1, min(o["n"], 3 * lanes))
        o["a"] = top - o["n"] + rng.choice([-1, 0, 1, 1, o["n"] - 1])
    elif ch == "neg" and d == "r":
        o["n"] = rng.choice([-1, -2, -100])
    elif ch == "bytes" and d == "w":
        o["bytes"] = False
    elif ch == "id":
        o["id"] = 2**v["idw"][d] + rng.choice([-1, -1, 0, 0, 1, 2**v["idw"][d]])
        o.pop("noid", None)
    elif ch == "size":
        o.pop("nosize", None)
        o["size"] = log2(lanes) + rng.choice([0, 1, 1, 2])
        if o["burst"] == 0:
            o["burst"] = 1
        o["n"] = max(1, min(o["n"], 4 * lanes))
        if o["a"] + o["n"] > top:
            o["a"] = top - o["n"]
    elif ch == "lock":
        o["lock"] = 1
    elif ch == "prot":
        o["prot"] = rng.choice([0, 1, 3, 6])
    elif ch in ("cache", "qos", "region", "user"):
        o[ch] = rng.choice([0, 1, 2, 7])
    elif ch == "wuser" and d == "w":
        o["wu"] = rng.choice([dict(t="i", v=1), dict(t="i", v=0), dict(t="l", v=[1, 2])])


def scenario(rng, prop, v, n):
    lite = v["lite"]
    maxb = rng.choice([1, 2, 3, 4, 7, 8, 16, 16, 64, 256])
    if lite:
        maxb = 1
    maxarg = maxb
    if maxb == 256 and rng.random() < .3:
        maxarg = 1000
    if maxb == 1 and rng.random() < .3:
        maxarg = 0
    cfg = dict(apb=False, lite=lite, lanes=v["lanes"], size={d: 2**v["aw"][d] for d in "wr"}, ids={d: 1 if lite else 2**v["idw"][d] for d in "wr"}, maxb=maxb, strb=v["strb"], h=v["h"], P=prop)
    bus = dict(pfx=v["pfx"], rstlvl=rng.choice([1, 1, 0]), split=int(rng.random() < .25), bub=v["bub"], rub=v["rub"], maxarg=maxarg)
    prof = rng.random()
    sp = lambda: rng.choice([1, .9, .7, .4, .15])
    slv = dict(seed=rng.getrandbits(32), paw=sp(), pw=sp(), par=sp(), pb=sp(), pr=sp(), stick=rng.choice([0, .5, .9, 1]), pok=rng.choice([1, .9, .6]))
    acts = {}
    k = 0

    def add(cy, a):
        acts.setdefault(str(cy), []).append(a)

    rate = rng.choice([.04, .1, .25])
    if prop in ("M04", "M05"):
        rate = rng.choice([.1, .3, .5])
    budget = n
    inrst = False
    prst = dict(M05=.03, S02=.006).get(prop, 0)
    if prop == "M05" and rng.random() < .3:
        prst = .1
    for cy in range(n):
        if budget > 0 and rng.random() < rate:
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                k += 1
                o = op(rng, v, k, 8 if lite else maxb, 24 if rng.random() < .85 else 200, prop)
                budget -= max(1, o["n"] // 2**min(o["size"], log2(v["lanes"])))
                if o["n"] == 0 and lite:
                    continue
                if rng.random() < .1:
                    ops = [o]
                    for _ in range(rng.randint(1, 3)):
                        k += 1
                        o2 = op(rng, v, k, maxb, 8, prop)
                        o2.pop("init", None)
                        ops.append(o2)
                        budget -= max(1, o2["n"] // 2**min(o2["size"], log2(v["lanes"])))
                    add(cy, ["seq", ops])
                else:
                    add(cy, ["op", o])
        if rng.random() < dict(M04=.05, M05=.03).get(prop, .01):
            add(cy, ["wait", rng.choice("aawr")])
        if prof < .4 and rng.random() < .06:
            ch = rng.choice(["aw", "w", "b", "ar", "r"])
            if rng.random() < .5:
                add(cy, ["pgen", ch, [rng.randint(0, 1) for _ in range(rng.randint(2, 15))] + [0]])
            else:
                add(cy, ["pause", ch, rng.random() < .4])
        if prst and rng.random() < (prst if not inrst else .35):
            inrst = not inrst
            add(cy, ["rst", int(inrst), rng.choice(["mid", "mid", "edge", "post", "pre"])])
    return dict(cfg=cfg, bus=bus, acts=acts, slv=slv, n=n)


def scenarios(seed, prop, count, n=120, nvar=6, lite=False):
    rng = random.Random("%s/%s/%s" % (seed, prop, lite))
    vs = [variant(rng, k, prop, lite, l) for k, l in enumerate(deck(rng, nvar, lite))]
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, [scenario(rng, prop, rng.choice(vs), rng.choice([n // 2, n, n])) for _ in range(count)]


# ------------------------------------------------------------------ walks over the state graph of MasterImpl
BASE = dict(D="w", MaxOps=2, Lens=[1, 2], Ids=[0, 1], MaxB=2, Acts=[], Judge=False, Bug="")
LITE = dict(Ids=[0], MaxB=1)
# per property: (constants, AXI-lite?)
COVER = dict(
    M04=[(dict(D="w", Lens=[1, 3], Ids=[0, 1, 9], Acts=["wait"]), False), (dict(D="r", Lens=[1, 3], Ids=[0, 1, 9], Acts=["wait"]), False),
         (dict(D="w", MaxOps=3, **LITE), True), (dict(D="r", MaxOps=3, **LITE), True)],
    M05=[(dict(D="w", Acts=["rst", "wait"]), False), (dict(D="r", Acts=["rst", "wait"]), False),
         (dict(D="w", Acts=["rst", "wait"], **LITE), True), (dict(D="r", Acts=["rst", "wait"], **LITE), True)])
COVER_DEEP = dict(
    M04=[(dict(D="w", MaxOps=3, Lens=[1, 3]), False), (dict(D="r", MaxOps=3, Lens=[1, 3]), False)],
    M05=[(dict(D="w", MaxOps=3, Lens=[1, 3], Acts=["rst"]), False), (dict(D="r", MaxOps=3, Lens=[1, 3], Acts=["rst"]), False)])
BUGS = {"order of arrival": "M04", "first response completes": "M04", "idle when sent": "M04", "id per burst": "M03",
        "flush misses queued": "M05", "responses survive reset": "M05"}
MODELS = sorted(set(COVER) | set(BUGS.values()))


def edge_of(a):
    """(readies, ID) of a step Edge_(a, x), None for other steps"""
    if not a.startswith("Edge_"):
        return None
    x, y = a[6:-1].split(",")
    return int(x), int(y)


def replay(rng, v, k, walk, prop, lite):
    d = k["D"]
    sc = scenario(random.Random(0), prop, v, 0)
    sc["cfg"]["maxb"] = k["MaxB"]
    sc["bus"].update(maxarg=k["MaxB"], rstlvl=rng.choice([1, 0]), split=int(rng.random() < .25))
    exact = rng.random() < .6
    acts, script, cyc, kk = {}, [[0, -1]], 0, 0      # the calls of cycle 0 come after the first edge
    mx = log2(v["lanes"])
    l = []
    for a in walk:
        e = edge_of(a)
        if e:
            if l:
                nr = sum(1 for x in l if x[0] == "rst")
                for x in l:
                    if x[0] == "rst":
                        x[2] = "mid" if exact or nr > 1 or len(l) > 1 else rng.choice(["mid", "edge", "post", "pre"])
                acts[str(cyc)] = l
                l = []
            script.append(list(e))
            cyc += 1
        elif a.startswith("Start_"):
            n, i = (int(x) for x in a[7:-1].split(","))
            kk += 1
            size = mx if lite or rng.random() < .5 else rng.randint(0, mx)
            nb = 2**size
            o = dict(k=kk, dir=d, size=size, burst=1, bytes=True, id=-1 if i == 9 or lite else i, lock=0, cache=3, prot=2, qos=0, region=0, user=0, wu=I0)
            s = rng.choice([0, 0, rng.randrange(nb)])
            ln = n * nb - s - rng.choice([0, 0, rng.randrange(nb)])
            if ln <= (n - 1) * nb - s or ln < 1:
                ln = n * nb - s
            o["a"] = rng.randrange(0, 4096 - 4 * 128, nb) % (2**v["aw"][d] // 2) + s
            o["n"] = ln
            if rng.random() < .5:
                o["init"] = True
            if rng.random() < .3:
                o["sub"] = True
            o["d"] = [rng.getrandbits(8) for _ in range(ln)] if d == "w" else []
            l.append(["op", o])
        elif a == "Wait_":
            l.append(["wait", d if sc["bus"]["split"] else rng.choice(["a", d])])
        else:
            l.append(["rst", int(a == "Reset_"), "mid"])
    if l:
        acts[str(cyc)] = l
    sc.update(acts=acts, n=cyc + 1, script=script, settle=exact)
    sc["slv"] = dict(seed=rng.getrandbits(32), paw=.5, pw=.5, par=.5, pb=.5, pr=.5, stick=.5, pok=.8)
    return sc


def cover(seed, prop, deep, budget, lite):
    """-> signals, scenarios, coverage of the model's transitions"""
    import cover as cv
    rng = random.Random("%s/mcover/%s/%s" % (seed, prop, lite))
    vs, plan, info = [], [], {}
    for k, lt in (COVER_DEEP if deep else COVER).get(prop, []):
        if lt != lite:
            continue
        k = dict(BASE, **k)
        g = cv.graph("MasterImpl", k)
        walks, done, total = cv.tours(g, rng, maxlen=rng.choice([150, 250]), budget=budget)
        mine = []
        for j in range(3):
            while True:
                v = variant(rng, len(vs), prop, lite, rng.choice([4, 8] if lite else [1, 2, 4, 8]))
                if v["idw"]["w"] == v["idw"]["r"] == 1 or lite:
                    break
            vs.append(v)
            mine.append(v)
        plan += [(v, k, w) for v, w in ((rng.choice(mine), w) for w in walks)]
        info[cv.label("MasterImpl", k)] = dict(states=g[2], transitions=total, transitions_replayed=done, walks=len(walks))
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, [replay(rng, v, k, w, prop, lite) for v, k, w in plan], info


def models(prop, deep):
    """model checks: (name, constants, configuration lines, must it hold)"""
    import cover as cv
    out = []
    ks = [k for k, lt in COVER.get(prop, []) + (COVER_DEEP.get(prop, []) if deep else [])]
    for k in ks:
        k = dict(BASE, **k)
        k["Judge"] = True
        out.append((cv.label("MasterImpl", k) + ": refines the contract", k, ["SPECIFICATION Spec", "INVARIANT Refines"], True))
    if prop in ("M04", "M05"):
        for d in "wr":
            k = dict(BASE, D=d, Lens=[1, 3], Acts=["rst", "wait"] if prop == "M05" or deep else ["wait"])
            out.append((cv.label("MasterImpl", k) + ": every operation completes (liveness)", k, ["SPECIFICATION LSpec", "PROPERTY Progress"], True))
    for n, p in BUGS.items():
        if deep and prop in COVER or p == prop:
            k = dict(BASE, Lens=[1, 3], Ids=[0, 1, 9], Acts=["rst", "wait"], Judge=True, Bug=n)
            out.append((cv.label("MasterImpl", k) + ": is rejected by the contract", k, ["SPECIFICATION Spec", "INVARIANT Refines"], False))
    return out

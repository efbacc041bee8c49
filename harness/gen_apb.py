"""Scenario generation for the APB master and slave families."""
import random
import gen_axi, gen_slave
from gen_axi import log2, deck


def mvariant(rng, k, lanes, full=False):
    aw = rng.choice([6, 8, 12, 16, 20])
    prot, slverr = rng.random() < .6 or full, rng.random() < .8 or full
    v = dict(pfx="a%d" % k, lanes=lanes, aw=dict(w=aw, r=aw), idw=dict(w=1, r=1), lite=True, slverr=slverr, prot=prot)
    z = dict(prot=prot, resp=slverr, lock=False, cache=False, qos=False, region=False, user=False, wuser=False, ruser=False)
    v["h"] = dict(w=z, r=dict(z))
    p = v["pfx"] + "_"
    s = [(p + "paddr", aw), (p + "psel", 1), (p + "penable", 1), (p + "pwrite", 1), (p + "pwdata", 8 * lanes), (p + "pstrb", lanes),
         (p + "pready", 1), (p + "prdata", 8 * lanes)]
    if prot:
        s.append((p + "pprot", 3))
    if slverr:
        s.append((p + "pslverr", 1))
    v["signals"] = s
    return v


def pauses(rng, add, cy):
    if rng.random() < .4:
        add(cy, ["pgen", [rng.randint(0, 1) for _ in range(rng.randint(2, 15))] + [0]])
    else:
        add(cy, ["pause", rng.random() < .5])


def mscenario(rng, prop, v, n):
    cfg = dict(lite=True, apb=True, lanes=v["lanes"], size={d: 2**v["aw"][d] for d in "wr"}, ids=dict(w=1, r=1), maxb=1, strb=True,
               h=v["h"], slverr=v["slverr"], P=prop)
    bus = dict(pfx=v["pfx"], rstlvl=rng.choice([1, 1, 0]))
    slv = dict(seed=rng.getrandbits(32), p=rng.choice([1, 1, .8, .4, .15]), perr=rng.choice([0, .05, .3]), idle=rng.choice(["zero", "rand", "one"]))
    acts = {}

    def add(cy, a):
        acts.setdefault(str(cy), []).append(a)
    rate = rng.choice([.04, .1, .25])
    if prop in ("M04", "M05"):
        rate = rng.choice([.1, .3, .5])
    budget, k, inrst = n // 2, 0, False
    prst = dict(M05=.03, A01=.006).get(prop, 0)
    if prop == "M05" and rng.random() < .3:
        prst = .1
    prof = rng.random()
    for cy in range(n):
        if budget > 0 and rng.random() < rate:
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                ops = []
                for _ in range(1 if rng.random() < .9 else rng.randint(2, 4)):
                    k += 1
                    o = gen_axi.op(rng, v, k, 8, 10 if rng.random() < .85 else 24, prop)
                    if o["n"] > 24 * v["lanes"]:
                        o["n"] = 24 * v["lanes"]
                        o["d"] = o["d"][:o["n"]]
                    budget -= max(1, o["n"] // v["lanes"])
                    ops.append(o)
                if any(o["n"] == 0 for o in ops):
                    continue
                add(cy, ["op", ops[0]] if len(ops) == 1 else ["seq", ops])
        if rng.random() < dict(M04=.05, M05=.03).get(prop, .01):
            add(cy, ["wait"])
        if prof < .5 and rng.random() < .08:
            pauses(rng, add, cy)
        if prst and rng.random() < (prst if not inrst else .35):
            inrst = not inrst
            add(cy, ["rst", int(inrst), rng.choice(["mid", "mid", "edge", "post", "pre"])])
    return dict(cfg=cfg, bus=bus, acts=acts, slv=slv, n=n)


def sscenario(rng, prop, v, n):
    lanes, top = v["lanes"], 2**v["aw"]["w"]
    bus = dict(pfx=v["pfx"], rstlvl=rng.choice([1, 1, 0]), prot=v["prot"], aw=v["aw"]["w"])
    kind, size, fail = gen_slave.target(rng, prop, lanes, top, bus)
    cfg = dict(lite=True, lanes=lanes, size=size, fill=rng.randrange(256), fail=fail, slverr=v["slverr"], P=prop)
    drv = dict(seed=rng.getrandbits(32), p=rng.choice([1, 1, .8, .5, .2]), junk=rng.choice([0, 1]))
    hot = [rng.choice([0, size - 1, top - 1, rng.randrange(top)]) for _ in range(2)] + [rng.randrange(min(top, size))]
    if fail:
        f = rng.choice(fail)
        hot += [f[0], f[1] + 1] * 2
    acts = {}

    def add(cy, a):
        acts.setdefault(str(cy), []).append(a)
    rate = rng.choice([.1, .3, .5])
    prst = dict(V04=.03).get(prop, 0)
    if prop == "V04" and rng.random() < .3:
        prst = .1
    prof, inrst = rng.random(), False
    mode = rng.random()
    for cy in range(n):
        if rng.random() < rate:
            for _ in range(rng.choice([1, 1, 2, 4])):
                w = rng.random() < .55
                s = [0] * lanes
                if w:
                    s = [1 if mode < .3 else rng.randint(0, 1) for _ in range(lanes)]
                add(cy, ["t", dict(a=(rng.choice(hot) + rng.randint(-2 * lanes, 2 * lanes)) % top, w=int(w), s=s,
                                   d=[rng.getrandbits(8) for _ in range(lanes)])])
        if prof < .5 and rng.random() < .08:
            pauses(rng, add, cy)
        if rng.random() < .04:
            add(cy, ["peek"])
        if prst and rng.random() < (prst if not inrst else .35):
            inrst = not inrst
            add(cy, ["rst", int(inrst), rng.choice(["mid", "mid", "edge", "post", "pre"])])
    return dict(cfg=cfg, bus=bus, acts=acts, drv=drv, n=n)


def scenarios(seed, prop, count, n=120, nvar=6, role="master"):
    rng = random.Random("apb/%s/%s/%s" % (seed, prop, role))
    vs = [mvariant(rng, k, l) for k, l in enumerate(deck(rng, nvar))]
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    f = mscenario if role == "master" else sscenario
    return sig, [f(rng, prop, rng.choice(vs), rng.choice([n // 2, n, n])) for _ in range(count)]

"""Scenarios for systems of masters and RAMs/slaves that share one memory (R01, R05, E01)."""
import random
import gen_axi, gen_apb
from gen_axi import log2, deck
from memlib import W, gen_op


def variants(rng):
    out = []
    for k, lanes in enumerate(deck(rng, 3)):
        v = gen_axi.variant(rng, k, "E01", False, lanes)
        out.append(dict(v, t="axi"))
    for k, lanes in enumerate(deck(rng, 2, True)):
        out.append(dict(gen_axi.variant(rng, 10 + k, "E01", True, lanes), t="axil"))
    for k, lanes in enumerate(deck(rng, 2)):
        out.append(dict(gen_apb.mvariant(rng, k, lanes), t="apb"))
    for v in out:
        if v["t"] != "apb":     # writes of part of a word need strobes
            old = v["pfx"] + "_wstrb"
            v["signals"] = [s for s in v["signals"] if s[0] != old] + [(old, v["lanes"])]
            v["strb"] = True
            aw = min(v["aw"]["w"], 16)
            v["aw"] = dict(w=aw, r=aw)
            v["signals"] = [(n, aw if n.endswith(("awaddr", "araddr")) else w) for n, w in v["signals"]]
    return out


def scenario(rng, prop, vs, n):
    ports = rng.sample(vs, rng.choice([1, 1, 2, 3]))
    if prop == "R01" and len(ports) == 1:
        ports = rng.sample(vs, 2)
    tops = [2**v["aw"]["w"] for v in ports]
    g = max([v["lanes"] for v in ports])
    msize = max([64, max(tops) // 16] + [rng.choice([64, 256, 1024, 4096, 8192])])
    if rng.random() < .2:
        msize = max(max(tops) // 16, msize * 3 // 4) // g * g
    objs, descr, cparts = [], [], []
    for v, top in zip(ports, tops):
        kind = rng.choice(["ram", "ram", "slave", "space"])
        p = dict(t="port", v=v["t"], pfx=v["pfx"], kind=kind, split=int(rng.random() < .25), maxb=rng.choice([1, 2, 4, 16, 256]),
                 lanes=v["lanes"], ids=2**min(v["idw"]["w"], v["idw"]["r"]), prot=v["h"]["w"]["prot"] and v["h"]["r"]["prot"],
                 delay=rng.choice([[], [], [0, 1], [0, 0, 3], [0, 2, 12]]))
        if kind == "ram":
            parts = [(lo, min(msize, top - lo), 0) for lo in range(0, top, msize)]
        elif kind == "slave":
            parts = [(0, min(top, msize), 0)]
        else:
            # the memory, or pieces of it, at some other places
            parts, p["regs"] = [], []
            pos = rng.choice([0, 0, g, 64])
            for _ in range(rng.randint(1, 3)):
                sz = rng.choice([msize, msize // 2 // g * g, 4 * g])
                off = rng.choice([0, msize - sz, rng.randrange(0, msize - sz + 1, g)])
                if pos + sz > top:
                    break
                p["regs"].append([pos, sz, off])
                parts.append((pos, sz, off))
                pos += sz + rng.choice([0, 0, g, 8 * g])
            if not parts:
                p["kind"], parts = "slave", [(0, min(top, msize), 0)]
        objs.append(p)
        descr.append(dict(size=top, style="async", t=v["t"], covered=True))
        cparts.append(parts)
    # the RAM models themselves
    for i, p in enumerate(list(objs)):
        if p["kind"] == "ram" and rng.random() < .5:
            objs.append(dict(t="ram", of=i))
            descr.append(dict(size=msize, style="sync", t="mem", clamp=True))
            cparts.append([(0, msize, 0)])
    objs.append(dict(t="mem"))
    descr.append(dict(size=msize, style="sync", t="mem", clamp=True))
    cparts.append([(0, msize, 0)])
    # an address space over the masters
    np_ = len(ports)
    if rng.random() < .35:
        asz = rng.choice([2**20, 2**32, 2**64])
        regs, parts, pos = [], [], rng.choice([0, 64, 4096])
        for i in rng.sample(range(np_), np_):
            off = rng.choice([0, 0, cparts[i][-1][0], rng.randrange(tops[i])])
            sz = rng.choice([tops[i] - off, min(64, tops[i] - off)])
            if pos + sz > asz:
                continue
            regs.append([i, pos, sz, off])
            for lo, m, o in cparts[i]:
                a, b = max(lo, off), min(lo + m, off + sz)
                if a < b:
                    parts.append((pos + a - off, b - a, o + a - lo))
            pos += sz + rng.choice([0, 0, 0, 16])
        if parts:
            objs.append(dict(t="space", size=asz, regs=regs))
            ts = {descr[i]["t"] for i, *_ in regs}
            descr.append(dict(size=asz, style="async", t=ts.pop() if len(ts) == 1 else "mix", covered=True))
            cparts.append(parts)
    for _ in range(rng.choice([0, 1, 2])):
        i = rng.choice([i for i in range(len(objs)) if descr[i]["style"] == "async"])
        size = descr[i]["size"]
        off = max(0, min(size - 1, rng.choice([x[0] for x in cparts[i]] + [x[0] + x[1] // 2 for x in cparts[i]]) + rng.choice([0, 0, 1, 5])))
        w = rng.randint(1, min(size - off, rng.choice([8, 64, 5000])))
        parts = [(max(l, off) - off, min(l + m, off + w) - max(l, off), o + max(l, off) - l) for l, m, o in cparts[i] if max(l, off) < min(l + m, off + w)]
        if not parts:
            continue
        objs.append(dict(t="window", of=i, off=off, size=w))
        descr.append(dict(size=w, style="async", t=descr[i]["t"], covered=True))
        cparts.append(parts)
    hm = [rng.choice([0, msize - 1, rng.randrange(msize)]) for _ in range(2)]

    def hots(i):
        h = []
        for lo, m, o in cparts[i]:
            h += [lo + x - o for x in hm if 0 <= x - o < m]
            h += [lo, lo + m - 1]
        rng.shuffle(h)
        return h[:6]
    hot = [hots(i) for i in range(len(objs))]

    def covered(i, a, n):
        k = 0
        while k < n:
            for lo, m, o in cparts[i]:
                if lo <= a + k < lo + m:
                    k += lo + m - a - k
                    break
            else:
                return False
        return True

    def kwargs(i, k):
        d, kw = descr[i], {}
        prots = all(p["prot"] for p in objs[:np_])
        if d["style"] == "async" and prots and rng.random() < .3:
            kw["prot"] = rng.randrange(8)
        if d["t"] == "axi":
            ls = min(p["lanes"] for p in objs[:np_] if p["v"] == "axi")
            if rng.random() < .4:
                kw["size"] = rng.randint(0, log2(ls))
            if rng.random() < .5:
                kw["id"] = rng.randrange(min(p["ids"] for p in objs[:np_] if p["v"] == "axi"))
        return kw

    def one():
        for _ in range(30):
            i = rng.choice([rng.randrange(len(objs)), rng.randrange(np_)])
            op = gen_op(rng, descr[i], hot[i], prop)
            if not op:
                continue
            m = len(op["d"]) if "d" in op else op["n"] if "n" in op else op["ws"] * op["cnt"]
            if m == 0 or m > 60:
                continue
            a = op["a"]
            if prop == "E01":
                if a < 0 or a + m > descr[i]["size"] or op.get("kind") != "raw":
                    continue
                if rng.random() < .5:
                    a = op["a"] = max(0, rng.choice(hot[i]) + rng.randint(-4, 4))
                    if a + m > descr[i]["size"]:
                        continue
                if rng.random() < .6:
                    m = min(m, rng.choice([1, 2, 4, 8, 16]))
                    if "d" in op:
                        op["d"] = op["d"][:m]
                    else:
                        op["n"] = m
            if 0 <= a and a + m <= descr[i]["size"] and not covered(i, a, m):
                continue
            if not (0 <= a and a + m <= descr[i]["size"]) and objs[i]["t"] == "space":
                continue
            op["kw"] = kwargs(i, op["k"])
            if prop == "E01" and objs[i]["t"] == "port" and rng.random() < .3:
                op["init"] = True
            return [i, op]
        return None

    def readback(x):
        """a read of what x wrote, from elsewhere too"""
        i, op = x
        m = len(op["d"]) if "d" in op else op["ws"] * op["cnt"]
        for j in rng.sample(range(len(objs)), len(objs)):
            if j == i and prop != "E01" or rng.random() < .3:
                continue
            fwd = [(o + op["a"] - lo) for lo, q, o in cparts[i] if lo <= op["a"] < lo + q]
            c = [lo + x - o for x in fwd for lo, q, o in cparts[j] if 0 <= x - o and x - o + m <= q]
            if c:
                a = rng.choice(c)
                if a + m <= descr[j]["size"]:
                    return [[j, dict(k="rd", kind="raw", a=a, n=m), 0]]
        return []
    if prop == "E01":
        acts = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            seq = []
            for _ in range(rng.randint(2, max(2, n // 4))):
                x = one()
                if x:
                    seq.append(x + [rng.choice([0, 0, 0, 1, 3, 10, 30])])
                    if x[1]["k"] == "wr" and rng.random() < .5 and not x[1].get("init"):
                        seq += readback(x)
            acts.append(seq)
    else:
        acts = [[]]
        for _ in range(n):
            x = one()
            if x:
                acts[0].append(x + [rng.choice([0] * 8 + [1, 4])])
                i, op = x
                if op["k"] == "wr" and rng.random() < .6:
                    acts[0] += readback(x)
    pz = {}
    pr = rng.random()
    for i, p in enumerate(objs[:np_]):
        if pr < .6:
            for side in ("m", "s"):
                for ch in (["p"] if p["v"] == "apb" else ["aw", "w", "b", "ar", "r"]):
                    if rng.random() < .5:
                        pz["%d.%s.%s" % (i, side, ch)] = [int(rng.random() < pr) for _ in range(rng.randint(2, 15))] + [0]
    cobjs = [dict(size=W(d["size"]), parts=[dict(lo=W(lo), n=W(m), mem=1, off=W(o)) for lo, m, o in ps]) for d, ps in zip(descr, cparts)]
    return dict(cfg=dict(objs=cobjs, inits=[0], P=prop, size=msize), mem=rng.choice(["mmap", "sparse"]), msize=msize, objs=objs, descr=descr, acts=acts, pauses=pz,
                seed=rng.getrandbits(32), lvl=1)


def scenarios(seed, prop, count, n=30):
    n *= 2 if prop == "E01" else 1
    rng = random.Random("sys/%s/%s" % (seed, prop))
    vs = variants(rng)
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, [scenario(rng, prop, vs, rng.choice([n // 2, n, n * 2])) for _ in range(count)]

"""Scenarios for the memory objects (R01, R05)."""
import random
from memlib import W, gen_op


def scenario(rng, prop, nops):
    mems, objs, descr, cobjs = [], [], [], []

    def add(o, size, parts, **d):
        objs.append(o)
        descr.append(dict(size=size, **d))
        cobjs.append(dict(size=W(size), parts=[dict(lo=W(lo), n=W(n), mem=m + 1, off=W(off)) for lo, n, m, off in parts]))
        d["parts"] = parts
        parts_of.append(parts)
        return len(objs) - 1
    parts_of = []
    SMALL = [1, 5, 16, 100, 4096, 4097, 8192, 12288, 10000]
    BIG = [2**16, 2**20 + 5, 2**32, 2**40, 2**63, 2**64]
    kind = rng.choice(["sparse", "sparse", "memory", "region", "sregion", "space"])
    m = lambda t, size: (mems.append(dict(t=t, size=size)), len(mems) - 1)[1]
    if kind in ("sparse", "sregion"):
        size = rng.choice(SMALL + BIG)
        k = m("sparse", size)
        add(dict(t="sparse", mem=k), size, [(0, size, k, 0)], style="sparse", items=True, big=True, bigslice=True)
        add(dict(t="sregion", mem=k, given=1, size=size), size, [(0, size, k, 0)], style="async", items=True, bigslice=True)
        add(dict(t="memory", mem=k, given=1, size=size), size, [(0, size, k, 0)], style="sync", clamp=True)
        if rng.random() < .4:   # a region smaller than the memory behind it
            sz = rng.randint(1, size)
            add(dict(t="sregion", mem=k, given=1, size=sz), sz, [(0, sz, k, 0)], style="async", items=False)
        if rng.random() < .5:
            k2 = m("none", size)
            add(dict(t="sregion", given=0, size=size), size, [(0, size, k2, 0)], style="async", items=True, bigslice=True)
    elif kind == "memory":
        size = rng.choice(SMALL + BIG)
        t = "mmap" if size <= 2**16 and rng.random() < .6 else "sparse"
        k = m(t, size)
        add(dict(t="memory", mem=k, given=1, size=size), size, [(0, size, k, 0)], style="sync", clamp=True, big=True)
        add(dict(t="memory", mem=k, given=1, size=size), size, [(0, size, k, 0)], style="sync", clamp=True)
        k2 = m("none", size)
        add(dict(t="memory", given=0, size=size), size, [(0, size, k2, 0)], style="sync", clamp=True)
    else:
        size = rng.choice(SMALL)
        k = m("mmap", size)
        add(dict(t="region", mem=k, given=1, size=size), size, [(0, size, k, 0)], style="async", items=True, big=True)
        sz = rng.randint(1, size)
        add(dict(t="region", mem=k, given=1, size=sz), sz, [(0, sz, k, 0)], style="async", items=False)
        k2 = m("none", size)
        add(dict(t="region", given=0, size=size), size, [(0, size, k2, 0)], style="async", items=True)
        add(dict(t="memory", mem=k, given=1, size=size), size, [(0, size, k, 0)], style="sync", clamp=True)
        if kind == "space":
            asz = rng.choice([2**16, 2**32, 2**64])
            regs, parts, pos = [], [], rng.choice([0, 16, 4096])
            cand = [i for i in range(3)]
            rng.shuffle(cand)
            for i in cand:
                s = descr[i]["size"]
                if pos + s > asz:
                    break
                regs.append([i, pos])
                parts += [(pos, n, mm, off) for lo, n, mm, off in parts_of[i]]
                pos += s + rng.choice([0, 0, 1, 100])
            rng.shuffle(regs)
            add(dict(t="space", size=asz, regs=regs), asz, parts, style="async", items=False)
    # windows, of windows too
    for _ in range(rng.choice([0, 1, 2, 3])):
        c = [i for i in range(len(objs)) if descr[i]["style"] == "async"]
        if not c:
            break
        i = rng.choice(c)
        size = descr[i]["size"]
        lo = [x for x, n, mm, f in parts_of[i]]
        off = max(0, min(size - 1, rng.choice(lo + [0, size // 2, rng.randrange(size)]) + rng.choice([0, 0, 1, 3])))
        w = rng.randint(1, min(size - off, rng.choice([8, 64, 5000, 2**64])))
        parts = []
        for l, n, mm, f in parts_of[i]:
            a, b = max(l, off), min(l + n, off + w)
            if a < b:
                parts.append((a - off, b - a, mm, f + a - l))
        j = add(dict(t=rng.choice(["window", "window", "wpool"]) if w < 2**20 else "window", of=i, off=off, size=w), w, parts, style="async", items=False)
    gappy = []
    for i, o in enumerate(objs):
        gappy.append(o["t"] == "space" or ("of" in o and gappy[o["of"]]))
    ops = []
    hots = {}
    for i in range(len(objs)):
        size = descr[i]["size"]
        h = [0, size - 1] + [lo for lo, n, mm, f in parts_of[i]] + [lo + n - 1 for lo, n, mm, f in parts_of[i]]
        h += [b for b in (4096, 8192, 2**32, 2**48, 2**63) if b < size]
        h.append(rng.randrange(size))
        rng.shuffle(h)
        hots[i] = h[:4]
    for _ in range(nops):
        i = rng.randrange(len(objs))
        d = descr[i]
        if d["style"] == "sparse" and rng.random() < .01:
            ops.append([i, dict(k="clr", m=parts_of[i][0][2] + 1)])
            continue
        if d.get("items") and rng.random() < .04 and d["size"] < 2**62:
            n = rng.randint(1, 20)
            a = rng.randrange(d["size"])
            n2 = rng.choice([0, n + 1, n - 1, 2 * n])
            if a + n <= d["size"] and n2 != n:
                ops.append([i, dict(k="bad", sl=[a, a + n], d=[rng.getrandbits(8) for _ in range(n2)])])
            continue
        op = gen_op(rng, d, hots[i], prop)
        if op and op["k"] == "wr" and gappy[i]:
            n = len(op["d"]) if "d" in op else op["ws"] * op["cnt"]
            if n > 300 or not all(any(lo <= op["a"] + j < lo + m for lo, m, mm, f in parts_of[i]) for j in range(n)):
                continue      # an address space may carry out a part of an access that it then refuses
        if op:
            ops.append([i, op])
            if op["k"] == "wr" and rng.random() < .6:   # read back what was written, through another accessor
                j = i
                n = len(op["d"]) if "d" in op else op["ws"] * op["cnt"]
                a = op["a"]
                rd = dict(k="rd", kind="raw", a=a - rng.choice([0, 0, 1]), n=n + rng.choice([0, 1, 2]))
                if 0 <= rd["a"] and rd["a"] + rd["n"] <= d["size"] and rd["a"] < d["size"]:
                    ops.append([i, rd])
    for x in descr:
        x.pop("parts", None)
    for i, x in enumerate(mems):
        pass
    return dict(cfg=dict(objs=cobjs, inits=[0] * len(mems), P=prop), mems=[dict(t="sparse" if x["t"] == "none" else x["t"], size=x["size"]) for x in mems],
                objs=objs, descr=descr, ops=ops)


def scenarios(seed, prop, count, nops=40):
    rng = random.Random("mem/%s/%s" % (seed, prop))
    return None, [scenario(rng, prop, rng.choice([nops // 2, nops, nops * 2])) for _ in range(count)]

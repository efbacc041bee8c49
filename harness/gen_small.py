"""Scenarios for allocators (R04), peripherals (R06) and frames (S09)."""
import itertools, random
from memlib import W


def alloc(rng, n):
    size = rng.choice([1, 2, 3, 5, 7, 8, 12, 16, 16, 31, 32, 33, 64, 100, 128, 200])
    u = rng.choice([1, 1, 1, 4, 256, 2**20, 2**32, 2**52])
    kind = rng.choice(["raw", "raw", "raw", "wpool", "pool"])
    mn = rng.choice([1, 1, 1, 2, 3, 4, 8]) if kind == "raw" else 1
    if kind != "raw":
        u = 1
    mn = min(mn, size)
    acts = []
    style = rng.random()
    for _ in range(n):
        r = rng.random()
        if r < .5 or kind != "raw":
            s = rng.choice([1, 1, 2, 3, 4, rng.randint(1, size), rng.randint(1, max(1, size // 4)), rng.randint(1, max(1, size // 8))])
            if style < .3:
                s = rng.choice([1, 1, 2, mn])
            if rng.random() < .04:
                s = rng.choice([0, size + 1, size, -1])
            d = rng.randrange(u) if rng.random() < .4 and s > 0 else 0
            acts.append(["a", s, d])
        elif r < .95:
            acts.append(["f", rng.choice([0, -1, rng.randrange(100)])])
        else:
            acts.append(["b", rng.choice([-1, 0, size, rng.randrange(size)])])
        if rng.random() < .03 and kind == "raw":      # free everything, then take all of it
            acts += [["f", 0]] * 60 + [["a", p, 0] for p in (1 << (size.bit_length() - 1),)] + [["f", 0]] + [["a", size, 0], ["f", 0]]
    return dict(fam="alloc", cfg=dict(size=size, min=mn), unit=u, kind=kind, acts=acts, off=rng.choice([0, 5, 4096]) if kind == "wpool" else rng.choice([0, 4096]))


def allhist(size, sizes, depth):
    """every history of the given length over the given sizes (frees of each live block by index)"""
    for h in itertools.product([("a", s) for s in sizes] + [("f", k) for k in range(3)], repeat=depth):
        if h[0][0] == "f":
            continue
        yield [[x, y, 0] if x == "a" else [x, y] for x, y in h]


def periph(rng, n):
    size = rng.choice([1, 16, 4096, 2**20, 2**48])
    via = rng.choice(["direct", "space", "window"])
    if size > 2**32:
        via = rng.choice(["direct", "window"])
    base = dict(direct=0, space=rng.choice([0, 0x1000, 12345]), window=rng.choice([0, size // 2, size - 1]))[via]
    acts = []
    for _ in range(n):
        op = rng.choice("rw")
        ln = rng.choice([1, 1, 4, 8, rng.randint(1, 40)])
        top = size - (base if via == "window" else 0)
        a = rng.choice([0, top - ln, top - 1, rng.randrange(top), max(0, top - ln)])
        if via != "space" and rng.random() < .08:
            a = rng.choice([-1, top, top - ln + 1])
        elif not (0 <= a and a + ln <= top):
            a, ln = 0, 1
        if via == "space":
            a += base
        kw = rng.choice([{}, {}, {}, dict(prot=1), dict(foo="x", bar=2)])
        acts.append([op, a, ln, [rng.getrandbits(8) for _ in range(ln)], kw, rng.randint(1, 1000) if rng.random() < .15 else 0])
    return dict(fam="periph", cfg=dict(size=W(size)), size=size, kind=rng.choice(["plain", "asy", "awt", "mixed", "cust", "bound"]), via=via, base=base, acts=acts)


def field(rng, n, keep=False, exact=None):
    r = rng.random()
    m = 2 if keep else rng.choice([2, 2, 16])
    if r < .25:
        return dict(t="n")
    if r < .5 and not keep:
        return dict(t="s", v=rng.randrange(m))
    ln = exact if exact is not None else rng.choice([n, n, n, max(0, n - 1), n + 1, n + 3, 1, 0, rng.randint(0, n + 2)])
    if rng.random() < .3:
        return dict(t="l", v=[rng.randrange(m)] * ln)
    return dict(t="l", v=[rng.randrange(m) for _ in range(ln)])


def vary(rng, f):
    """a field that may or may not match f"""
    r = rng.random()
    if r < .3:
        return f
    if r < .45:
        return dict(t="n")
    if f["t"] == "s" and r < .7:
        v = [f["v"]] * rng.randint(1, 5)
        if rng.random() < .4:
            v[rng.randrange(len(v))] ^= 1
        return dict(t="l", v=v)
    if f["t"] == "l" and f["v"] and r < .8:
        if r < .6:
            return dict(t="s", v=rng.choice(f["v"]))
        v = list(f["v"])
        k = rng.random()
        if k < .5:
            v[rng.randrange(len(v))] ^= 1
        elif k < .75:
            v = v[:-1]
        else:
            v.append(v[-1])
        return dict(t="l", v=v)
    return f


def frames(rng, n):
    acts = []
    for _ in range(n):
        ln = rng.choice([0, 1, 2, 3, 4, rng.randint(0, 20)])
        d = dict(data=[rng.randrange(256) for _ in range(ln)], keep=field(rng, ln, True), id=field(rng, ln), dest=field(rng, ln), user=field(rng, ln))
        op = rng.choice(["copy", "norm", "norm", "cmp", "cmp", "ncmp", "eq", "eq", "len"])
        ty = rng.choice("bal")
        if op == "cmp":     # as received: a keep list, if any, covers the data
            d["keep"] = rng.choice([dict(t="n"), dict(t="l", v=[rng.randint(0, 1) for _ in range(ln + rng.choice([0, 0, 2]))]), dict(t="l", v=[0] * ln)])
        if op == "copy" and d["keep"]["t"] == "s":
            d["keep"] = dict(t="n")
        g = d
        if op == "eq":
            if any(d[k]["t"] == "l" and not d[k]["v"] for k in ("keep", "id", "dest", "user")):
                for k in ("keep", "id", "dest", "user"):
                    if d[k]["t"] == "l" and not d[k]["v"]:
                        d[k] = dict(t="n")
            g = dict(data=list(d["data"]), keep=vary(rng, d["keep"]), id=vary(rng, d["id"]), dest=vary(rng, d["dest"]), user=vary(rng, d["user"]))
            if g["keep"]["t"] == "s":
                g["keep"] = d["keep"]
            for k in ("keep", "id", "dest", "user"):
                if g[k]["t"] == "l" and not g[k]["v"]:
                    g[k] = dict(t="n")
            r = rng.random()
            if r < .2 and ln:
                g["data"][rng.randrange(ln)] ^= 1 << rng.randrange(8)
            elif r < .3:
                g["data"] = g["data"][:-1] if rng.random() < .5 else g["data"] + [0]
        acts.append([op, d, ty, g, rng.choice("ba") if ty in "ba" else "l"])
    return dict(fam="frames", cfg={}, acts=acts, eqc=rng.random() < .5, ne=rng.random() < .3)


def scenarios(seed, prop, count, n=60):
    rng = random.Random("small/%s/%s" % (seed, prop))
    f = dict(R04=alloc, R06=periph, S09=frames)[prop]
    out = [f(rng, rng.choice([n // 2, n, n * 2])) for _ in range(count)]
    return None, out


def exhaustive(depth):
    """all histories of the allocator up to a depth, packed into few scenarios by freeing everything in between"""
    out = []
    for size, sizes in ((4, (1, 2, 3)), (3, (1, 2, 3)), (6, (1, 2, 4)), (8, (1, 3, 4))):
        hs = list(allhist(size, sizes, depth))
        for k in range(0, len(hs), 200):
            acts = []
            for h in hs[k:k + 200]:
                acts += h + [["f", 0]] * depth
            out.append(dict(fam="alloc", cfg=dict(size=size, min=1), unit=1, kind="raw", acts=acts, off=0))
    return None, out


def allframes(maxlen, seed):
    """every keep list and every form of one sideband field over {0, 1}, for every length up to maxlen"""
    rng = random.Random("frames/%s" % seed)

    def lists(m):
        return [dict(t="l", v=list(x)) for k in range(m + 1) for x in itertools.product((0, 1), repeat=k)]
    acts = []
    for ln in range(maxlen + 1):
        for keep in [dict(t="n")] + lists(ln + 1):
            for sb in [dict(t="n"), dict(t="s", v=0), dict(t="s", v=1)] + lists(ln + 1):
                d = dict(data=[rng.randrange(256) for _ in range(ln)], keep=keep)
                names = ["id", "dest", "user"]
                rng.shuffle(names)
                d[names[0]] = sb
                d[names[1]] = field(rng, ln)
                d[names[2]] = field(rng, ln)
                for op in ["norm", "ncmp", "copy"] + (["cmp"] if keep["t"] == "n" or len(keep["v"]) >= ln else []):
                    acts.append([op, d, rng.choice("bal"), d, "b"])
    return None, [dict(fam="frames", cfg={}, acts=acts[k::16]) for k in range(16)]

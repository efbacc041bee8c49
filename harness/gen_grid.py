"""Complete grids over the small parameters of an access: every start address around the interesting places, every length,
every beat size, every burst limit (masters) and every burst type, length and strobe pattern (slaves), for narrow buses.
The grids are complete in these parameters; data, attributes, identifiers and the pace of the partner are random."""
import itertools, random
import gen_axi, gen_slave, gen_apb
from gen_axi import log2, I0


def chunks(l, n):
    return [l[k:k + n] for k in range(0, len(l), n)]


def spread(rng, acts, per=3):
    """acts in groups, a few at a time"""
    out, cy = {}, 0
    while acts:
        n = rng.randint(1, per)
        out[str(cy)] = acts[:n]
        acts = acts[n:]
        cy += rng.choice([1, 3, 6])
    return out, cy + 1


def pace(rng):
    return rng.choice([1, 1, .8, .5])


def m_op(rng, v, k, d, a, n, size):
    o = dict(k=k, dir=d, a=a, n=n, size=size, burst=1, bytes=True, id=-1, lock=0, cache=3, prot=2, qos=0, region=0, user=0, wu=I0)
    if rng.random() < .5:
        o["init"] = True
    if not v["lite"]:
        if rng.random() < .5:
            o["id"] = rng.randrange(2**v["idw"][d])
        if d == "w" and rng.random() < .5:
            o["wu"] = dict(t="l", v=[rng.getrandbits(6) for _ in range(rng.randint(0, 5))])
    o["prot"] = rng.getrandbits(3)
    o["d"] = [rng.getrandbits(8) for _ in range(n)] if d == "w" else []
    return o


def master(seed, prop, deep=False, lite=False, apb=False):
    rng = random.Random("grid/m/%s/%s/%s/%s" % (seed, prop, deep, (lite, apb)))
    if prop not in ("M01", "M02", "M03", "L01", "A02"):
        return None
    widths = [1, 2, 4, 8] + [16] * deep
    vs = []
    for k, lanes in enumerate(widths):
        while True:
            v = gen_apb.mvariant(rng, k, lanes, True) if apb else gen_axi.variant(rng, k, prop, lite, lanes, True)
            if lite or min(v["aw"].values()) >= 13:
                break
        vs.append(v)
    scs, ncase = [], 0
    for v in vs:
        lanes = v["lanes"]
        top = min(2**v["aw"][d] for d in "wr")
        sizes = [log2(lanes)] if lite else range(log2(lanes) + 1)
        for maxb in ([1] if lite else [1, 2, 3, 5, 16, 256] if deep else [1, 2, 3, 16]):
            cases = []
            for size in sizes:
                nb = 2**size
                step = lanes
                if lite:
                    starts = list(range(2 * lanes)) + list(range(top - 2 * lanes, top))
                    lens = range(1, (4 * lanes if deep else 3 * lanes) + 1)
                else:
                    starts = list(range(lanes)) + list(range(4096 - (4 if deep else 3) * nb, 4096 + nb)) + list(range(top - 2 * nb, top))
                    lens = range(1, (8 if deep else 5) * nb + 2)
                for a, n, d in itertools.product(starts, lens, "wr"):
                    cases.append((d, a, n, size))
            # limits of the address space
            cases = [c for c in cases if c[1] + c[2] <= top]
            ncase += len(cases)
            rng.shuffle(cases)
            for ch in chunks(cases, 40):
                ops = [["op", m_op(rng, v, k + 1, *c)] for k, c in enumerate(ch)]
                acts, n = spread(rng, ops)
                sc = gen_apb.mscenario(random.Random(0), prop, v, 0) if apb else gen_axi.scenario(random.Random(0), prop, v, 0)
                sc["cfg"]["maxb"] = maxb
                sc["bus"].update(maxarg=maxb, rstlvl=1, split=0)
                if apb:
                    sc["slv"] = dict(seed=rng.getrandbits(32), p=pace(rng), perr=.1, idle="rand")
                else:
                    sc["slv"] = dict(seed=rng.getrandbits(32), paw=pace(rng), pw=pace(rng), par=pace(rng), pb=pace(rng), pr=pace(rng), stick=.5, pok=.8)
                sc.update(acts=acts, n=n)
                scs.append(sc)
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, scs, dict(widths_in_bytes=widths, accesses=ncase)


def legal_bursts(lanes, deep):
    """every legal burst of the grid: (start address, length, size, type)"""
    out = []
    for size in range(log2(lanes) + 1):
        nb = 2**size
        per = 4 * nb
        starts = list(range(2 * lanes)) + [4096 - k for k in range(1, 2 * nb + 1)]
        for a in starts:
            for n in range(1, (16 if deep else 9) + 1):
                if (a & 0xfff) // nb * nb + n * nb <= 4096:
                    out.append((a, n, size, 1))
            for n in range(1, (16 if deep else 6) + 1):
                out.append((a, n, size, 0))
        for n in (2, 4, 8, 16):
            for a in range(0, 2 * n * nb, nb):
                out.append((64 * n + a, n, size, 2))
    return out


def slave(seed, prop, deep=False, lite=False):
    rng = random.Random("grid/s/%s/%s/%s/%s" % (seed, prop, deep, lite))
    if prop not in ("V01", "V02", "L02"):
        return None
    widths = [1, 2, 4, 8] + [16] * (deep and not lite)
    vs = [gen_slave.variant(rng, k, lite, l, True) for k, l in enumerate(widths)]
    scs, ncase = [], 0
    for v in vs:
        lanes = v["lanes"]
        cases = []
        if lite:
            strobes = list(itertools.product([0, 1], repeat=lanes))
            if lanes == 8:
                rng.shuffle(strobes)
                strobes = strobes if deep else strobes[:48]
            for a in range(lanes):
                for s in strobes:
                    cases.append(("w", a, s))
                for _ in range(4):
                    cases.append(("r", a, None))
        else:
            for q in legal_bursts(lanes, deep):
                cases.append(("w", q, None))
                cases.append(("r", q, None))
        ncase += len(cases)
        rng.shuffle(cases)
        for ch in chunks(cases, 40):
            acts = []
            for d, q, s in ch:
                if lite:
                    q = dict(a=q + lanes * rng.randrange(4), id=0, len=0, size=log2(lanes), burst=1)
                    ls = [(0, lanes - 1)]
                else:
                    a, n, size, bt = q
                    q = dict(a=a, id=rng.randrange(2**v["idw"]), len=n - 1, size=size, burst=bt)
                    ls = lanes_of(lanes, a, n, size, bt)
                if d == "r":
                    acts.append(["r", q])
                else:
                    w = gen_slave.wbeats(rng, v, q, ls)
                    if lite:
                        w[0]["s"] = list(s)
                    acts.append(["w", q, w])
            acts, n = spread(rng, acts)
            sc = gen_slave.scenario(random.Random(0), prop, v, 0)
            kind = rng.choice(["ram", "ram", "one"])
            bus = dict(pfx=v["pfx"], rstlvl=1, split=0, strb=v["strb"], buser=v["buser"], ruser=v["ruser"], attrs=v["attrs"], kind=kind)
            sc["cfg"].update(size=8192, fail=[[8192, 2**v["aw"] - 1]] if kind == "one" and 2**v["aw"] > 8192 else [])
            sc["bus"] = bus
            sc["drv"] = dict(seed=rng.getrandbits(32), paw=pace(rng), pw=pace(rng), par=pace(rng), pb=pace(rng), pr=pace(rng))
            sc.update(acts=acts, n=n)
            scs.append(sc)
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, scs, dict(widths_in_bytes=widths, accesses=ncase)


def lanes_of(lanes, a, n, size, bt):
    nb = 2**size
    al, ls = a // nb * nb, []
    for k in range(n):
        if bt == 0:
            ba = al
        elif bt == 1:
            ba = al + k * nb
        else:
            t = nb * n
            low = a // t * t
            ba = low + (al - low + k * nb) % t
        ls.append((a % lanes if k == 0 or bt == 0 else ba % lanes, ba % lanes + nb - 1))
    return ls


# ------------------------------------------------------------------ address spaces, windows
def intervals(n):
    return [(b, s) for b in range(n) for s in range(1, n - b + 1)]


def routes(seed, prop, deep=False):
    """R02: every pair of regions in a space of a few bytes (each directly, through a nested space or through a window),
    and every access.  R03: every window, every window of a window, every access and absolute address."""
    rng = random.Random("grid/r/%s/%s/%s" % (seed, prop, deep))
    n = 6 if deep else 5
    out, cases = [], 0

    def acc(node, lo, hi, ops="rw"):
        l = []
        for a in range(lo, hi + 1):
            for k in range(1, hi - lo + 1):
                op = rng.choice(ops)
                l.append(["acc", node, op, a, k, {}, [rng.getrandbits(8) for _ in range(k)] if op == "w" else []])
        return l
    if prop == "R02":
        pairs = list(itertools.product(intervals(n), repeat=2))
        for (b0, s0), (b1, s1) in pairs:
            for form in ("leaf", "space", "tr") if deep else (rng.choice(["leaf", "space", "tr"]),):
                acts = [["new", 1, "space", n, False]]
                k = 1
                for b, s in ((b0, s0), (b1, s1)):
                    k += 1
                    if form == "leaf":
                        acts += [["new", k, "leaf", s, False], ["reg", 1, k, b, None, 0, 0]]
                    elif form == "tr":
                        off = rng.randint(0, 2)
                        t = rng.choice([1, 1, 2]) if b + s <= n else 1
                        acts += [["new", k, "leaf", n + 2, False], ["reg", 1, k, b, s, t, off if t == 1 else 0]]
                    else:
                        acts += [["new", 10 + k, "leaf", s, False], ["new", k, "space", s, False], ["reg", k, 10 + k, 0, None, 0, 0], ["reg", 1, k, b, None, 0, 0]]
                acts += acc(1, -1, n) + [["abs", x, 0] for x in range(1, k + 1)]
                out.append(acts)
                cases += 1
    elif prop == "R03":
        for under in ("leaf", "space", "gap"):
            for off in range(-1, n + 1):
                acts = [["new", 1, "leaf" if under == "leaf" else "space", n, False]]
                if under != "leaf":
                    h = n // 2
                    acts += [["new", 2, "leaf", h, False], ["reg", 1, 2, 0, None, 0, 0]]
                    acts += [["new", 3, "leaf", n - h - (under == "gap"), False], ["reg", 1, 3, h + (under == "gap"), None, 0, 0]]
                k = 10
                for size in [None] + list(range(0, n + 2)):
                    k += 1
                    w = k
                    cases += 1
                    acts.append(["win", 1, w, off, size])
                    z = n - off if not size else size
                    if not 0 <= off < n or off + z > n:
                        continue
                    acts += acc(w, -1, z + 1)
                    acts += [["abs", w, x] for x in range(-1, z + 1)]
                    for o2 in range(0, z):
                        for s2 in ([None] + list(range(1, z - o2 + 2)) if deep or rng.random() < .3 else [None, z - o2, z - o2 + 1]):
                            k += 1
                            cases += 1
                            acts.append(["win", w, k, o2, s2])
                            z2 = s2 or z - o2
                            if o2 + z2 <= z:
                                acts += acc(k, -1, z2 + 1) + [["abs", k, x] for x in (0, z2 - 1, z2)]
                out.append(acts)
    else:
        return None
    # contract checking is per trace: spread the cases over many traces
    return None, [dict(cfg=dict(P=prop), acts=a, seed=rng.randrange(1, 2**30)) for a in out], dict(bytes=n, cases=cases)


# ------------------------------------------------------------------------------ memories
def mems(seed, prop, deep=False):
    """R01: every access of a small memory and of the first page boundary of a sparse one, through every kind of object.
    R05: every accessor, word size, count and byte order at every alignment."""
    from memlib import W, KINDS, word
    rng = random.Random("grid/mem/%s/%s/%s" % (seed, prop, deep))
    if prop not in ("R01", "R05"):
        return None
    out, cases = [], 0

    def build(t, size):
        """objects over one memory: (mems, objs, descr, cobjs)"""
        sparse = t == "sparse"
        objs = [dict(t="sparse", mem=0)] if sparse else [dict(t="memory", mem=0, given=1, size=size)]
        objs += [dict(t="sregion" if sparse else "region", mem=0, given=1, size=size)]
        descr = [dict(size=size, style="sparse" if sparse else "sync", items=sparse), dict(size=size, style="async", items=True)]
        objs += [dict(t="memory", mem=0, given=1, size=size), dict(t="window", of=1, off=1, size=size - 1), dict(t="space", size=size + 8, regs=[[1, 3]])]
        descr += [dict(size=size, style="sync"), dict(size=size - 1, style="async"), dict(size=size + 8, style="async")]
        parts = [[(0, size, 0)], [(0, size, 0)], [(0, size, 0)], [(0, size - 1, 1)], [(3, size, 0)]]
        cobjs = [dict(size=W(d["size"]), parts=[dict(lo=W(lo), n=W(n), mem=1, off=W(o)) for lo, n, o in p]) for d, p in zip(descr, parts)]
        return [dict(t="sparse" if sparse else "mmap", size=size)], objs, descr, cobjs

    def scenario(t, size, ops):
        m, o, d, c = build(t, size)
        return dict(cfg=dict(objs=c, inits=[0], P=prop), mems=m, objs=o, descr=d, ops=ops)
    lows = [0, 0, 0, 0, 3]
    if prop == "R01":
        for t, size, centre in [("mmap", 6, 3), ("sparse", 6, 3), ("sparse", 8192, 4096), ("sparse", 4099, 4096), ("sparse", 2**40, 2**32)]:
            m, o, d, c = build(t, size)
            for i in range(5):
                hi = d[i]["size"]
                small = size < 10
                starts = range(-1, hi + 1) if small else [x + lows[i] for x in range(centre - 3, min(centre + 3, size + 1))]
                lens = range(1, hi + 2) if small else [1, 2, 3, 4, 5, 6] + ([4096, 4100] if deep else [])
                ops = []
                for a, n, k in itertools.product(starts, lens, ("rd", "wr")):
                    inside = 0 <= a and a + n <= hi
                    if d[i]["style"] == "sync" and not inside:
                        continue          # slices of these clamp
                    if i == 4 and k == "wr" and not (3 <= a and a + n <= 3 + size):
                        continue          # a part of a refused access may have been carried out
                    kinds = ["raw"] + (["slice"] if d[i].get("items") and inside else []) + (["item"] if d[i].get("items") and n == 1 and inside and a < 2**62 else [])
                    for kind in kinds:
                        op = dict(k=k, kind=kind, a=a, n=n, ty=rng.choice("ba"))
                        if kind == "item":
                            op["idx"] = a
                        if kind == "slice":
                            op["sl"] = [a, a + n]
                        if k == "wr":
                            op["d"] = [rng.getrandbits(8) for _ in range(n)]
                        cases += 1
                        ops.append([i, op])
                        if k == "wr" and inside:
                            x = rng.choice([0, 0, 1]) if t == "sparse" else 0
                            b = max(0, a - lows[i] + (1 if i == 3 else 0) - 2)
                            ops.append([x, dict(k="rd", kind="raw", a=b, n=max(0, min(n + 4, size - b)))])
                        if k == "rd" and inside and kind == "slice" and rng.random() < .3:
                            ops.append([i, dict(k="bad", sl=[a, a + n], d=[1] * rng.choice([n - 1, n + 1]))])
                rng.shuffle(ops)
                for ch in chunks(ops, 60):
                    out.append(scenario(t, size, ch))
    else:
        for t, size in (("mmap", 64), ("sparse", 8192)):
            m, o, d, c = build(t, size)
            for i in range(1, 5):
                ops = []
                for kind in ("byte", "word", "words", "dword", "dwords", "qword", "qwords"):
                    base = kind.rstrip("s")
                    for ws in ([1, 2, 3, 4, 5, 6, 7, 8, 9, 16] if base == "word" else [KINDS[base]]):
                        for cnt in ([0, 1, 2, 3] if kind.endswith("s") else [1]):
                            for be in ([False] if base == "byte" else [False, True]):
                                for k in ("wr", "rd"):
                                    for bo in ((0, 1) if deep else (rng.randint(0, 1),)):
                                        a = lows[i] + (rng.randint(0, 8) if size == 64 else 4096 - rng.randint(1, 9))
                                        op = dict(k=k, kind=kind, a=a, ws=ws, be=be, bo=bo, cnt=cnt)
                                        cases += 1
                                        if k == "wr":
                                            op["w"] = [[rng.choice([rng.randrange(1, 256), 0]) for _ in range(ws)] for _ in range(cnt)]
                                        ops.append([i, op])
                                        if k == "wr":
                                            ops.append([i, dict(k="rd", kind="raw", a=max(lows[i], a - 2), n=ws * cnt + 4)])
                                            ops.append([i, dict(op, k="rd")])
                                            ops[-1][1].pop("w")
                for ch in chunks(ops, 45):
                    out.append(scenario(t, size, ch))
    return None, out, dict(accesses=cases)


# ------------------------------------------------------------------------------- streams
def frames(seed, prop, deep=False):
    """S01/S07: every frame length up to a few cycles with every form of a keep list and of a sideband field, on every bus width
    (with and without the optional signals)."""
    import gen_stream
    from gen_stream import N, I, L
    if prop not in ("S01", "S07"):
        return None
    rng = random.Random("grid/f/%s/%s/%s" % (seed, prop, deep))
    vs, k = [], 0
    for lanes in (1, 2, 3, 4, 5, 8) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 16):
        for hk in (True, False):
            for side in (True, False) if deep or lanes <= 4 else (True,):
                while True:
                    v = gen_stream.axis_variant(rng, k, prop)
                    if v["lanes"] == min(lanes, 4) and v["hk"] == hk and v["hl"] and v["hi"] == v["hd"] == v["hu"] == side:
                        break
                p = v["pfx"] + "_"
                v["lanes"] = lanes
                v["signals"] = [(n, v["bs"] * lanes if n == p + "tdata" else lanes if n == p + "tkeep" else w) for n, w in v["signals"]]
                vs.append(v)
                k += 1
    scs, cases = [], 0
    for v in vs:
        fs, lanes = [], v["lanes"]
        for n in range(1, (4 if deep else 3) * lanes + 2):
            forms = ["n", "i", "one", "short", "same", "long"]
            for form in forms:
                f = dict(d=[rng.getrandbits(v["bs"]) for _ in range(n)], k=N, i=N, de=N, u=N)
                for key, w in (("i", v["iw"]), ("de", v["dw"]), ("u", v["uw"])):
                    g = form if key == "u" or rng.random() < .5 else rng.choice(forms)
                    f[key] = dict(n=N, i=I(rng.getrandbits(w))).get(g) or L([rng.getrandbits(w) for _ in range(
                        dict(one=1, short=max(1, n - 1), same=n, long=n + 2)[g])])
                g = rng.choice(["n", "same", "same", "short", "tail", "hole"])
                ln = dict(same=n, short=max(1, n - 1), tail=n, hole=n).get(g)
                if ln:
                    kk = [rng.choice([0, 1, 1]) for _ in range(ln)]
                    if g == "tail":
                        kk = [1] * rng.randint(0, n)
                        kk += [0] * (n - len(kk))
                    if g == "hole":
                        kk = [1] * n
                        kk[rng.randrange(n)] = 0
                    f["k"] = L(kk)
                fs.append(f)
        cases += len(fs)
        rng.shuffle(fs)
        for ch in chunks(fs, 12):
            while True:
                sc = gen_stream.scenario(rng, prop, v, 0)
                if sc["cfg"]["src"] == "pkg":
                    break
            for x, f in enumerate(ch):
                f["id"] = x + 1
            acts, n = spread(rng, [["sendn", f] for f in ch])
            sc["cfg"].update(lf=0, lb=0, slf=0, slb=0)
            if sc["cfg"]["snk"] == "raw":
                p = pace(rng)
                sc["rr"] = [int(rng.random() < p) for _ in range(300)]
            sc.update(acts=acts, n=n)
            scs.append(sc)
    return gen_stream.signals(vs), scs, dict(frames=cases, buses=len(vs))


# ----------------------------------------------------------------- errors of the target
def errors(seed, prop, deep=False, role="axi"):
    """V03/L02/A03: an error at every place of every small access: one failing byte range at every position relative to the
    access (AXI: every beat of every burst)"""
    import gen_slave, gen_apb
    if {"axi": "V03", "axil": "L02", "apb": "A03"}[role] != prop:
        return None
    rng = random.Random("grid/e/%s/%s/%s" % (seed, prop, deep))
    widths = [1, 2, 4, 8] if deep else [2, 4]
    lite = role != "axi"
    vs = [gen_apb.mvariant(rng, k, l, True) if role == "apb" else gen_slave.variant(rng, k, lite, l, True) for k, l in enumerate(widths)]
    scs, cases = [], 0
    for v in vs:
        lanes = v["lanes"]
        aw = v["aw"]["w"] if role == "apb" else v["aw"]
        for lo in range(3):
            for ln in (1, lanes, 2 * lanes + 1):
                fail = [32 + lo * (lanes // 2 or 1), 0]
                fail[1] = fail[0] + ln - 1
                acc = []
                if lite:
                    for w in range(32 - 2 * lanes, 32 + 4 * lanes, max(1, lanes // 2)):
                        acc += [("w", w), ("r", w)]
                else:
                    for size in range(log2(lanes) + 1):
                        nb = 2**size
                        for a in range(32 - 4 * nb, 32 + 2 * lanes, nb if not deep else 1):
                            acc += [(d, (a, n, size, 1)) for d in "wr" for n in range(1, 7)]
                            acc += [(d, (a, n, size, 0)) for d in "wr" for n in (1, 2, 3)]
                            if a % nb == 0:
                                acc += [(d, (a, n, size, 2)) for d in "wr" for n in (2, 4, 8)]
                cases += len(acc)
                rng.shuffle(acc)
                for ch in chunks(acc, 40):
                    acts = []
                    for d, q in ch:
                        s = [rng.randint(0, 1) for _ in range(lanes)]
                        if role == "apb":
                            acts.append(["t", dict(a=q, w=int(d == "w"), s=s if d == "w" else [0] * lanes, d=[rng.getrandbits(8) for _ in range(lanes)])])
                            continue
                        if lite:
                            q, ls = dict(a=q, id=0, len=0, size=log2(lanes), burst=1), [(0, lanes - 1)]
                        else:
                            a, n, size, bt = q
                            q, ls = dict(a=a, id=rng.randrange(2**v["idw"]), len=n - 1, size=size, burst=bt), lanes_of(lanes, a, n, size, bt)
                        acts.append(["r", q] if d == "r" else ["w", q, gen_slave.wbeats(rng, v, q, ls)])
                    acts, n = spread(rng, acts)
                    size = min(2**aw, 8192)
                    regs = [[0, fail[0], "mem"], [fail[0], ln, "fail"], [fail[1] + 1, size - fail[1] - 1, "mem"]]
                    kind = rng.random()
                    if kind < .3:
                        regs.pop(1)
                    if role == "apb":
                        sc = gen_apb.sscenario(random.Random(0), prop, v, 0)
                        bus = dict(pfx=v["pfx"], rstlvl=1, prot=v["prot"], aw=aw)
                        sc["drv"] = dict(seed=rng.getrandbits(32), p=pace(rng), junk=rng.choice([0, 1]))
                    else:
                        sc = gen_slave.scenario(random.Random(0), prop, v, 0)
                        bus = dict(pfx=v["pfx"], rstlvl=1, split=0, strb=v["strb"], buser=v["buser"], ruser=v["ruser"], attrs=v["attrs"])
                        sc["drv"] = dict(seed=rng.getrandbits(32), paw=pace(rng), pw=pace(rng), par=pace(rng), pb=pace(rng), pr=pace(rng))
                    bus.update(kind="space", span=2**aw, regions=regs)
                    if rng.random() < .3:
                        bus["delay"] = [0, 1, 2]
                    sc["cfg"].update(size=size, fail=[fail] + ([[size, 2**aw - 1]] if size < 2**aw else []))
                    sc["bus"] = bus
                    sc.update(acts=acts, n=n)
                    scs.append(sc)
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, scs, dict(widths_in_bytes=widths, accesses=cases)


# ------------------------------------------------------------------------------ arguments
def arguments(seed, prop, deep=False, lite=False, apb=False):
    """M06: every argument at, just inside and just outside each of its limits, one at a time, with and without the signal that
    would carry it, in every style of call"""
    if prop != "M06":
        return None
    rng = random.Random("grid/a/%s/%s/%s/%s" % (seed, deep, lite, apb))
    vs = []
    for k in range(24 if deep else 10):
        lanes = [1, 2, 4, 8][k % 4]
        vs.append(gen_apb.mvariant(rng, k, lanes, k % 3 == 0) if apb else gen_axi.variant(rng, k, prop, lite, lanes, k % 3 == 0))
    scs, cases = [], 0
    for v in vs:
        lanes, mx, ops = v["lanes"], log2(v["lanes"]), []
        for d in "wr":
            top = 2**v["aw"][d]
            base = dict(a=rng.randrange(top // lanes) * lanes, n=rng.choice([1, lanes]), size=mx)
            ch = [{}]
            for a in (-top, -1, 0, 1, top - 1, top, top + 1, 2 * top):
                ch += [dict(a=a, n=1)] + ([dict(a=a, n=0)] if not lite and not a % lanes else [])
            for n in (1, lanes, lanes + 1, 2 * lanes + 1):
                ch += [dict(a=top - n + x, n=n) for x in (-1, 0, 1, n - 1)]
            if d == "r":
                ch += [dict(n=-1), dict(n=-2), dict(n=-top)]
            else:
                ch += [dict(bytes=False)] * 4
            if not lite:
                ni = 2**v["idw"][d]
                ch += [dict(id=i) for i in (0, ni - 1, ni, ni + 1, 2 * ni)]
                ch += [dict(size=x) for x in range(0, mx + 3)]
                ch += [dict(lock=1), dict(cache=0), dict(cache=2), dict(cache=15), dict(qos=1), dict(qos=15), dict(region=1), dict(region=8), dict(user=1), dict(user=31)]
                if d == "w":
                    ch += [dict(wu=dict(t="i", v=1)), dict(wu=dict(t="l", v=[1])), dict(wu=dict(t="l", v=[1, 0, 3]))]
            ch += [dict(prot=x) for x in (0, 1, 3, 6, 7)]
            for c in ch:
                for style in range(2):
                    o = dict(dir=d, burst=1, bytes=True, id=-1, lock=0, cache=3, prot=2, qos=0, region=0, user=0, wu=I0, **base)
                    o.update(c)
                    if style:
                        o["init"] = True
                    if rng.random() < .3:
                        o["sub"] = True
                    if o["size"] > mx:
                        o["n"] = max(1, min(o["n"], 4 * lanes))
                    o["d"] = [rng.getrandbits(8) for _ in range(max(0, o["n"]))] if d == "w" else []
                    ops.append(o)
        cases += len(ops)
        rng.shuffle(ops)
        for chk in chunks(ops, 40):
            for k, o in enumerate(chk):
                o["k"] = k + 1
            acts, n = spread(rng, [["op", o] for o in chk])
            sc = gen_apb.mscenario(random.Random(0), prop, v, 0) if apb else gen_axi.scenario(random.Random(0), prop, v, 0)
            sc["cfg"]["maxb"] = 1 if lite else 4
            sc["bus"].update(maxarg=4, rstlvl=1, split=rng.randint(0, 1))
            if apb:
                sc["slv"] = dict(seed=rng.getrandbits(32), p=pace(rng), perr=.1, idle="rand")
            else:
                sc["slv"] = dict(seed=rng.getrandbits(32), paw=pace(rng), pw=pace(rng), par=pace(rng), pb=pace(rng), pr=pace(rng), stick=.5, pok=.8)
            sc.update(acts=acts, n=n)
            scs.append(sc)
    sig = [("clk", 1), ("rst", 1)] + [s for v in vs for s in v["signals"]]
    return sig, scs, dict(buses=len(vs), requests=cases)


def grids(seed, pid, deep):
    """(name, test bench, specification, (signals, scenarios, size)) of the grids that bear on a property"""
    m = dict(axi=("tb_axi_master", "AxiMasterTrace"), axil=("tb_axi_master", "AxiMasterTrace"), apb=("tb_apb_master", "ApbMasterTrace"))
    s = dict(axi=("tb_axi_slave", "AxiSlaveTrace"), axil=("tb_axi_slave", "AxiSlaveTrace"), apb=("tb_apb_slave", "ApbSlaveTrace"))
    kw = dict(axi={}, axil=dict(lite=True), apb=dict(lite=True, apb=True))
    for role in ("axi", "axil", "apb"):
        if pid in dict(axi=("M01", "M02", "M03"), axil=("L01",), apb=("A02",))[role]:
            yield ("grid_accesses_" + role, *m[role], master(seed, pid, deep, **kw[role]))
        if pid == "M06":
            yield ("grid_arguments_" + role, *m[role], arguments(seed, pid, deep, **kw[role]))
        if pid in dict(axi=("V01", "V02"), axil=("L02",), apb=())[role]:
            yield ("grid_bursts_" + role, *s[role], slave(seed, pid, deep, lite=role == "axil"))
        if pid == dict(axi="V03", axil="L02", apb="A03")[role]:
            yield ("grid_errors_" + role, *s[role], errors(seed, pid, deep, role))
    if pid in ("S01", "S07"):
        yield ("grid_frames", "tb_stream", "StreamTrace", frames(seed, pid, deep))
    if pid in ("R02", "R03"):
        yield ("grid_routes", "py_space", "SpaceTrace", routes(seed, pid, deep))
    if pid in ("R01", "R05"):
        yield ("grid_memory", "py_mem", "MemTrace", mems(seed, pid, deep))

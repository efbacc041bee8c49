"""Scenario generation for the stream families (AXI-stream and define_stream)."""
import random

N = dict(t="n")


def I(v):
    return dict(t="i", v=v)


def L(v):
    return dict(t="l", v=list(v))


# ------------------------------------------------------------------ bus variants
def axis_variant(rng, k, prop):
    keep = rng.random() < 0.75
    bs = 8 if rng.random() < 0.7 else rng.choice([1, 4, 5, 9, 10, 16])
    lanes = rng.choice([1, 2, 3, 4, 4, 8])
    v = dict(kind="axis", pfx="b%d" % k, bs=bs, lanes=lanes, hk=keep, hl=True,
             hr=rng.random() < 0.85, hi=rng.random() < 0.6, hd=rng.random() < 0.6, hu=rng.random() < 0.6,
             bsarg=None)
    if prop in ("S03", "S04", "S05") or (prop == "S06" and rng.random() < .7):
        v["hr"] = True
    if prop == "S07" and rng.random() < 0.15:
        v["hl"] = False
    if not keep and (bs != 8 or rng.random() < .3):
        v["bsarg"] = rng.choice(["bs", "bl"])
    p = v["pfx"] + "_"
    v["iw"], v["dw"], v["uw"] = rng.choice([1, 4, 8]), rng.choice([1, 3, 8]), rng.choice([1, 2, 16])
    s = [(p + "tdata", bs * lanes), (p + "tvalid", 1)]
    if v["hr"]:
        s.append((p + "tready", 1))
    if v["hl"]:
        s.append((p + "tlast", 1))
    if keep:
        s.append((p + "tkeep", lanes))
    if v["hi"]:
        s.append((p + "tid", v["iw"]))
    if v["hd"]:
        s.append((p + "tdest", v["dw"]))
    if v["hu"]:
        s.append((p + "tuser", v["uw"]))
    v["signals"] = s
    return v


def gen_variant(rng, k, prop):
    style = rng.randrange(4)
    names = rng.sample(["data", "addr", "cmd", "tag", "strb", "user_q", "x"], rng.randint(1, 4))
    widths = {n: rng.choice([1, 3, 8, 16, 29]) for n in names}
    opt = [n for n in names[1:] if rng.random() < 0.4]
    absent = [n for n in opt if rng.random() < 0.5]
    sigs = [n for n in names if n not in absent]
    valid, ready = [("valid", "ready"), ("myvalid", "myready"), ("vld", "rdy"), ("go_valid", "go_ready")][rng.randrange(4)]
    explicit = 0
    if valid == "vld":
        explicit = rng.choice([1, 2])
    elif rng.random() < 0.2:
        explicit = rng.choice([1, 2])
    hr = rng.random() < 0.8 or prop in ("S03", "S04")
    if not hr:
        ready_decl = None
    decl = [n for n in names if n not in opt] + [valid] + ([ready] if hr else [])
    rng.shuffle(decl)
    v = dict(kind="gen", pfx="b%d" % k, bs=8, lanes=len(sigs), hk=False, hl=False, hr=hr, hi=False, hd=False, hu=False,
             sigs=sigs, opt=opt, decl=decl, valid=valid, ready=ready if hr else None, explicit=explicit, widths=widths)
    p = v["pfx"] + "_"
    v["signals"] = [(p + n, widths[n]) for n in sigs] + [(p + valid, 1)] + ([(p + ready, 1)] if hr else [])
    return v


def variants(rng, prop, n, frac_gen):
    out = []
    ng = int(round(n * frac_gen))
    for k in range(n):
        out.append(gen_variant(rng, k, prop) if k < ng else axis_variant(rng, k, prop))
    return out


def signals(vs):
    s = [("clk", 1), ("rst", 1)]
    for v in vs:
        s += v["signals"]
    return s


# ------------------------------------------------------------------ frames
def frame(rng, v, fid, big=False, beats=None):
    if v["kind"] == "gen":
        return dict(id=fid, d=[rng.choice([0, 2**v["widths"][n] - 1, rng.getrandbits(v["widths"][n])]) for n in v["sigs"]],
                    k=N, i=N, de=N, u=N)
    lanes = v["lanes"]
    n = rng.choice([1, lanes, lanes + 1, max(1, lanes - 1), 2 * lanes, rng.randint(1, 3 * lanes),
                    rng.randint(1, (6 if big else 3) * lanes)])
    if beats:
        n = rng.randint((beats - 1) * lanes + 1, beats * lanes)
    d = [rng.getrandbits(v["bs"]) for _ in range(n)]
    f = dict(id=fid, d=d, k=N, i=N, de=N, u=N)
    if v["kind"] == "axis" and rng.random() < 0.2 and v["bs"] == 8 and rng.random() < 0.3:
        f["bytes"] = False
    if rng.random() < 0.45:
        ln = rng.choice([n, n, max(1, n - 1), n + 1])
        f["k"] = L([rng.choice([0, 1, 1]) for _ in range(ln)])
    for key, w in (("i", v["iw"]), ("de", v["dw"]), ("u", v["uw"])):
        r = rng.random()
        if r < 0.3:
            f[key] = I(rng.getrandbits(w))
        elif r < 0.75:
            ln = rng.choice([n, n, max(1, n - 2), n + 2])
            f[key] = L([rng.getrandbits(w) for _ in range(ln)])
    if f["k"] == N and f["i"] == N and f["de"] == N and f["u"] == N and rng.random() < .5:
        f["plain"] = True
    return f


def rawbeat(rng, v, last):
    b = dict(d=[rng.getrandbits(v["bs"]) for _ in range(v["lanes"])], k=[1] * v["lanes"], l=1, i=0, de=0, u=0)
    if v["kind"] == "gen":
        b["d"] = [rng.getrandbits(v["widths"][n]) for n in v["sigs"]]
        return b
    if v["hk"] and rng.random() < .5:
        b["k"] = [rng.choice([0, 1]) for _ in range(v["lanes"])]
    if v["hl"]:
        b["l"] = int(last)
    if v["hi"]:
        b["i"] = rng.getrandbits(v["iw"])
    if v["hd"]:
        b["de"] = rng.getrandbits(v["dw"])
    if v["hu"]:
        b["u"] = rng.getrandbits(v["uw"])
    return b


PROF = {  # relative rates per cycle
    #        send  bsend pause  gen    recv  clear rst   wait
    "S01": (.14, .03, .10, .02, .05, 0, 0, 0),
    "S02": (.14, .03, .12, .02, .05, .01, .008, 0),
    "S03": (.12, .03, .22, .02, .07, .02, .004, 0),
    "S04": (.16, .10, .08, .01, .10, .02, .006, 0),
    "S05": (.10, .04, .12, .01, .05, .008, .008, .05),
    "S06": (.15, .03, .10, .01, .06, .004, .035, .01),
    "S07": (.15, .02, .12, .02, .08, .006, .008, 0),
    "S08": (.15, .02, .08, .01, .16, .006, .004, 0),
    "S10": (.16, .06, .12, .02, .08, 0, 0, 0),
}


def scenario(rng, prop, v, n):
    send, bsend, pause, gen, recv, clear, rst, wait = PROF[prop]
    gk = v["kind"] == "gen"
    mode = rng.random()
    src, snk = "pkg", "pkg"
    if prop == "S07":
        r = rng.random()
        src = "raw" if r < .6 else "pkg"
        snk = "raw" if .25 < r < .85 and v["hr"] else "pkg"
    elif prop == "S08":
        src = "raw" if mode < .4 else "pkg"
    elif prop in ("S03", "S04") and mode < .25:
        src = "raw"
    elif prop in ("S02", "S03", "S05", "S06", "S10", "S01") and v["hr"] and mode > .6:
        snk = "raw"
    if snk == "raw" and not v["hr"]:
        snk = "pkg"
    mon = True if prop in ("S07",) else rng.random() < (.6 if prop == "S08" else .3)
    lim = dict(lb=0, lf=0, slb=0, slf=0)
    pl = dict(S04=.85, S03=.5, S10=.5, S05=.3, S06=.3).get(prop, .15)
    if rng.random() < pl:
        if rng.random() < .7:
            lim["lf"] = rng.randint(1, 4)
        if not gk and rng.random() < .5:
            lim["lb"] = rng.randint(1, 6 * v["lanes"])
        if v["hr"]:
            if rng.random() < .7:
                lim["slf"] = rng.randint(1, 4)
            if not gk and rng.random() < .5:
                lim["slb"] = rng.randint(1, 6 * v["lanes"])
    cfg = dict(kind=v["kind"], lanes=v["lanes"], msk=2**29 if gk else 2**v["bs"], hk=v["hk"], hl=v["hl"], hi=v["hi"],
               hd=v["hd"], hu=v["hu"], hr=v["hr"], src=src, snk=snk, mon=mon, P=prop if prop in ("S03", "S04", "S06", "S08") else "S10" if gk else "S01", **lim)
    bus = dict(pfx=v["pfx"], bs=v["bs"], rstlvl=rng.choice([1, 1, 0]), bsarg=v.get("bsarg"), phase=rng.choice([0, 1]),
               sigs=v.get("sigs", []), opt=v.get("opt"), decl=v.get("decl"), valid=v.get("valid"), ready=v.get("ready"),
               explicit=v.get("explicit"), norst=False)
    acts = {}
    fid = 0

    def add(c, a):
        acts.setdefault(str(c), []).append(a)

    def mk():
        nonlocal fid
        fid += 1
        f = frame(rng, v, fid, big=rng.random() < .1)
        if not gk and rng.random() < (.7 if prop in ("S05", "S06") else .25):
            f["txc"] = rng.choice(["cb", "ev"])
            f.pop("plain", None)
        if rng.random() < .15 and not gk:
            f["w"] = True
        return f

    rx = [w for w, on in (("snk", snk == "pkg"), ("mon", mon)) if on]
    rmode = {w: rng.choice(["recv", "recv", "read", "wait"] if (prop == "S08") else ["recv", "recv", "recv", "read", "lazy"]
                           if not gk else ["recv", "recv", "lazy"]) for w in rx}
    if prop == "S08":
        for w in rx:
            rmode[w] = rng.choice(["recv", "read", "read", "wait"]) if not gk else rng.choice(["recv", "wait"])
    if lim["slf"] or lim["slb"]:
        if rmode.get("snk") == "lazy":
            rmode["snk"] = "recv"
    # phases make bursts and lulls
    burst = 1.0
    pst = dict(src=False, snk=False)
    inrst = False
    pstyle = rng.choice(["toggle", "hold", "gen"])
    for c in range(n):
        if rng.random() < .05:
            burst = rng.choice([.1, 1, 1, 3])
        if src == "pkg":
            if rng.random() < send * burst:
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    add(c, ["sendn", mk()])
            if rng.random() < bsend * burst:
                for _ in range(rng.choice([1, 1, 2])):
                    add(c, ["send", mk()])
        for w, on in (("src", src == "pkg"), ("snk", snk == "pkg" and v["hr"])):
            if not on:
                continue
            if pst[w] and rng.random() < (.35 if pstyle != "hold" else .1):
                pst[w] = False
                add(c, ["pause", w, False])
            elif not pst[w] and rng.random() < pause:
                pst[w] = True
                add(c, ["pause", w, True])
                if rng.random() < .1:      # glitch within one cycle
                    pst[w] = False
                    add(c, ["pause", w, False])
            elif rng.random() < gen:
                pst[w] = False
                add(c, ["pgen", w, [rng.randint(0, 1) for _ in range(rng.randint(2, 20))] + [0]])
        for w in rx:
            if rng.random() < recv * (2 if lim["slf"] + lim["slb"] else 1):
                m = rmode[w]
                if m == "recv":
                    if rng.random() < .5:
                        add(c, ["recvn", w, rng.random() < .7])
                    else:
                        add(c, ["recv", w, rng.random() < .7])
                elif m == "read":
                    r = rng.random()
                    cnt = rng.choice([-1, 0, 1, 2, v["lanes"], 3 * v["lanes"], 100])
                    if r < .4:
                        add(c, ["readn", w, cnt])
                    elif r < .8:
                        add(c, ["read", w, cnt])
                    else:
                        add(c, ["recvn", w, rng.random() < .7])
                elif m == "wait":
                    if rng.random() < .5:
                        add(c, ["waitr", w, rng.choice([0, 0, 15, 43])])
                    else:
                        add(c, ["recvn", w, True])
        if clear and rng.random() < clear:
            w = rng.choice(["src", "snk", "mon"])
            if (w == "src" and src == "pkg") or w in rx:
                add(c, ["clear", w])
        if wait and src == "pkg" and rng.random() < wait:
            add(c, ["waits"])
        if rst and rng.random() < (rst if not inrst else .3):
            if not inrst and rng.random() < .15:
                add(c, ["rst", 1, "pulse"])
            else:
                sty = rng.choice(["mid", "mid", "edge", "post", "pre"]) if rng.random() < .8 else "api"
                if inrst:
                    if inrst == "api" or rng.random() < .3:
                        sty = inrst
                    elif sty == "api":
                        sty = "mid"
                inrst = False if inrst else sty
                add(c, ["rst", int(bool(inrst)), sty])
    sc = dict(cfg=cfg, bus=bus, acts=acts, n=n)
    if src == "raw":
        rs = []
        k = 0
        while k < n * .7:
            nb = rng.choice([1, 1, 2, 3]) if v["hl"] and not gk else 1
            for b in range(nb):
                g = rng.choice([0, 0, 0, 1, 1, 2, 5]) if rng.random() < .9 else rng.randint(5, 15)
                rs.append([g, rawbeat(rng, v, b == nb - 1)])
                k += g + 1
        sc["rawsrc"] = rs
    if snk == "raw":
        p = rng.choice([.2, .5, .9])
        sc["rr"] = [int(rng.random() < p) for _ in range(n)] if rng.random() < .7 else \
            [int((k // rng.randint(1, 3)) % 2) for k in range(n)]
    return sc


def scenarios(seed, prop, count, n=90, nvar=8):
    rng = random.Random("%s/%s" % (seed, prop))
    fg = dict(S10=1.0, S01=0.0, S08=.1, S02=.3, S03=.35, S04=.35, S05=.3, S06=.3, S07=.25)[prop]
    vs = variants(rng, prop, nvar, fg)
    scs = [scenario(rng, prop, rng.choice(vs), rng.choice([n // 2, n, n + n // 2])) for _ in range(count)]
    return signals(vs), scs


# ------------------------------------------------------------------ walks over the state graph of StreamImpl
ACT = {"RecvSnk": ["recvn", "snk", True], "RecvMon": ["recvn", "mon", True], "Read_(-1)": ["readn", "snk", -1],
       "Read_(0)": ["readn", "snk", 0], "Read_(1)": ["readn", "snk", 1], "Clear": ["clear", "src"], "KClear": ["clear", "snk"],
       "Wait_": ["waits"], "KWait": ["waitr", "snk", 0]}
# what the environment may do, and limits, per property: (constants, bus kinds)
COVER = dict(
    S01=[dict(Kind="axis", Acts=["pause", "kpause"])],
    S02=[dict(Kind="axis", Acts=["pause", "kpause"]), dict(Kind="gen", Acts=["pause", "kpause", "rst"])],
    S03=[dict(Kind="axis", SLF=1, Acts=["pause", "kpause", "kclear"]), dict(Kind="gen", SLF=1, Acts=["pause", "kpause", "kclear"])],
    S04=[dict(Kind="axis", LF=1, SLF=1, Acts=["clear", "kclear", "block"]), dict(Kind="axis", LB=2, SLB=2, Acts=["clear", "kclear", "block"]),
         dict(Kind="gen", LF=1, SLF=1, Acts=["clear", "kclear", "block", "kpause"]), dict(Kind="gen", LF=1, Acts=["rst", "block"])],
    S05=[dict(Kind="axis", Acts=["wait", "rst", "kpause"]), dict(Kind="gen", Acts=["wait", "clear", "rst", "kpause"])],
    S06=[dict(Kind="axis", LF=1, Acts=["rst", "kpause"]), dict(Kind="gen", LF=1, Acts=["rst", "kpause", "block"])],
    S07=[dict(Kind="axis", Mon=True, Acts=["kpause"]), dict(Kind="gen", Mon=True, Acts=["kpause", "rst"])],
    S08=[dict(Kind="axis", Acts=["read", "kwt", "kclear"])],
    S10=[dict(Kind="gen", LF=1, SLF=1, Acts=["pause", "kpause", "block"]), dict(Kind="gen", Acts=["pause", "kpause"], HR=False)])
COVER_DEEP = dict(
    S01=[dict(Kind="axis", LF=1, SLF=1, Acts=["pause", "kpause", "block"])],
    S02=[dict(Kind="axis", Acts=["pause", "kpause", "rst"])],
    S03=[dict(Kind="axis", SLF=1, Acts=["pause", "kpause", "kclear", "rst"])],
    S04=[dict(Kind="axis", LF=1, SLF=1, Acts=["clear", "kclear", "block", "kpause"]), dict(Kind="axis", LF=1, SLF=1, Acts=["kclear", "block", "rst"])],
    S05=[dict(Kind="axis", Acts=["wait", "clear", "rst", "kpause"])],
    S06=[dict(Kind="axis", LF=1, Acts=["rst", "kpause", "block"]), dict(Kind="axis", Acts=["rst", "pause", "kpause", "clear"])],
    S07=[dict(Kind="axis", Mon=True, Acts=["kpause", "rst"])],
    S08=[dict(Kind="axis", SLF=1, Acts=["read", "kwt", "kclear", "kpause"])],
    S10=[dict(Kind="gen", MaxQ=3, LF=2, SLF=2, Acts=["pause", "kpause", "block", "clear", "kclear", "rst", "wait"])])
BASE = dict(Kind="axis", LF=0, LB=0, SLF=0, SLB=0, MaxQ=2, NId=7, HR=True, Mon=False, Judge=False, Bug="", Acts=[])

# defects built into the model, each of which the contract must reject
BUGS = {"lost wake-up": dict(Kind="gen", MaxQ=2, SLF=1, Acts=["kclear"]), "frame resumes": dict(Acts=["rst"]), "idle too early": dict(Acts=["pause", "wait"]),
        "pause withdraws": dict(Acts=["pause", "kpause"]), "pause drops": dict(Acts=["kpause"]),
        "limit off by one": dict(Kind="gen", LF=1, Acts=["block"])}


def replay(rng, v, k, walk, prop):
    """a scenario that takes the steps of the walk"""
    gk = v["kind"] == "gen"
    u = 1 if gk else v["lanes"]
    cfg = dict(kind=v["kind"], lanes=v["lanes"], msk=2**29 if gk else 2**v["bs"], hk=v["hk"], hl=v["hl"], hi=v["hi"],
               hd=v["hd"], hu=v["hu"], hr=v["hr"], src="pkg", snk="pkg", mon=bool(k["Mon"]), P=prop if prop in ("S03", "S04", "S06", "S08") else "S10" if gk else "S01",
               lb=k["LB"] * u, lf=k["LF"], slb=k["SLB"] * u, slf=k["SLF"])
    bus = dict(pfx=v["pfx"], bs=v["bs"], rstlvl=rng.choice([1, 0]), bsarg=v.get("bsarg"), phase=0,
               sigs=v.get("sigs", []), opt=v.get("opt"), decl=v.get("decl"), valid=v.get("valid"), ready=v.get("ready"),
               explicit=v.get("explicit"), norst=False)
    api = rng.random() < .3
    exact = rng.random() < .6
    acts, cyc, fid, p = {}, 0, 0, dict(src=False, snk=False)

    def cycles():
        c = []
        for a in walk:
            if a == "Edge_":
                yield c
                c = []
            else:
                c.append(a)
        yield c

    rst = False
    for c in cycles():
        l = []
        nr = sum(1 for a in c if a in ("Reset_", "Release"))
        for a in c:
            if a in ("Send_(1)", "Send_(2)", "Block_(1)", "Block_(2)"):
                fid += 1
                f = frame(rng, v, fid, beats=2 if "2" in a else 1)
                if not gk and rng.random() < (.8 if prop in ("S05", "S06") else .3):
                    f["txc"] = rng.choice(["cb", "ev"])
                    f.pop("plain", None)
                l.append(["sendn" if a.startswith("Send") else "send", f])
            elif a in ("Pause_", "KPause"):
                w = "snk" if a[0] == "K" else "src"
                p[w] = not p[w]
                l.append(["pause", w, p[w]])
            elif a in ("Reset_", "Release"):
                l.append(["rst", int(a == "Reset_"), "api" if api or nr > 2 else
                          "mid" if exact or nr > 1 else rng.choice(["mid", "edge", "post", "pre"])])
            else:
                l.append(list(ACT[a]))
        # resets by signal and by call do not mix while one is asserted
        for a in l:
            if a[0] == "rst":
                if a[1]:
                    rst = a[2]
                elif (rst == "api") != (a[2] == "api"):
                    a[2] = "api" if rst == "api" else "mid"
        if l:
            acts[str(cyc)] = l
        cyc += 1
    return dict(cfg=cfg, bus=bus, acts=acts, n=cyc, settle=exact)


def cover(seed, prop, deep, budget):
    """-> signals, scenarios, coverage of the model's transitions"""
    import cover as cv
    rng = random.Random("%s/cover/%s" % (seed, prop))
    vs, plan, info = [], [], {}
    for n, k in enumerate(COVER_DEEP[prop] if deep else COVER[prop]):
        k = dict(BASE, **k)
        g = cv.graph("StreamImpl", k)
        walks, done, total = cv.tours(g, rng, maxlen=rng.choice([120, 200]), budget=budget)
        mine = []
        for j in range(4):
            while True:
                v = gen_variant(rng, len(vs), "S03") if k["Kind"] == "gen" else axis_variant(rng, len(vs), "S03")
                if v["kind"] == "gen" and not k["HR"] and v["hr"]:
                    v["signals"] = [s for s in v["signals"] if s[0] != "%s_%s" % (v["pfx"], v["ready"])]
                    v["decl"] = [d for d in v["decl"] if d != v["ready"]]
                    v["hr"], v["ready"] = False, None
                    v["explicit"] = v["explicit"] and 1
                break
            vs.append(v)
            mine.append(v)
        plan += [(v, k, w) for v, w in ((rng.choice(mine), w) for w in walks)]
        info[cv.label("StreamImpl", k)] = dict(states=g[2], transitions=total, transitions_replayed=done, walks=len(walks))
    return signals(vs), [replay(rng, v, k, w, prop) for v, k, w in plan], info


def models(prop, deep):
    """model checks: (name, constants, configuration lines, must it hold)"""
    import cover as cv
    out = []
    for k in (COVER[prop] + COVER_DEEP[prop] if deep else COVER[prop]):
        k = dict(BASE, **k)
        k["Judge"] = True
        if not deep:
            k["MaxQ"] = min(k["MaxQ"], 1 + bool(k["LF"] or k["LB"]) * (k["Kind"] == "axis"))
            k["NId"] = 5 if k["MaxQ"] == 1 else 6
        out.append((cv.label("StreamImpl", k) + ": refines the contract", k, ["SPECIFICATION Spec", "INVARIANT Refines"], True))
    if prop == "S03":
        for kind in ("gen", "axis"):
            k = dict(BASE, Kind=kind, MaxQ=1, NId=4 if kind == "gen" else 5, Acts=["pause", "kpause", "rst"] if deep or kind == "gen" else ["pause", "kpause"])
            out.append((cv.label("StreamImpl", k) + ": everything queued is sent (liveness)", k, ["SPECIFICATION LSpec", "PROPERTY Progress"], True))
    for n, k in BUGS.items():
        if deep or n == {"S03": "lost wake-up", "S06": "frame resumes", "S05": "idle too early", "S02": "pause withdraws",
                         "S01": "pause drops", "S04": "limit off by one"}.get(prop):
            k = dict(dict(BASE, Judge=True, MaxQ=1, Bug=n), **k)
            out.append((cv.label("StreamImpl", k) + ": is rejected by the contract", k, ["SPECIFICATION Spec", "INVARIANT Refines"], False))
    return out

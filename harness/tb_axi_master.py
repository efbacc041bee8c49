"""AXI / AXI-lite master of the package against a bare bus driven by an independent slave model."""
import itertools, logging, random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, FallingEdge, Timer, Event
import simlib
from simlib import iv, PERIOD

ATTR = ("lock", "cache", "prot", "qos", "region", "user")


async def run(dut, rec, sc):
    import cocotbext.axi as ax
    c, b, slv = sc["cfg"], sc["bus"], sc["slv"]
    lite, lanes, h = c["lite"], c["lanes"], c["h"]
    pfx = b["pfx"] + "_"
    lvl = b.get("rstlvl", 1)
    rng = random.Random(slv["seed"])
    S = lambda n: getattr(dut, pfx + n)

    dut.rst.setimmediatevalue(1 - lvl)
    for n in ("awready", "wready", "arready", "bvalid", "rvalid"):
        S(n).setimmediatevalue(0)
    st = dict(rst=False, drain=False, dirty=True)
    await Timer(1, "ns")

    HA = {k: ["aw" + a if k == "w" else "ar" + a for a in ATTR if h[k][a]] for k in "wr"}

    def g(n, bad):
        v = iv(S(n))
        if v < 0:
            bad.append(n)
            v = 0
        return v

    def by(v):
        return [(v >> (8 * j)) & 255 for j in range(lanes)]

    def addr_p(ch, bad):
        p = dict(a=g(ch + "addr", bad))
        if not lite:
            p.update(id=g(ch + "id", bad), len=g(ch + "len", bad), size=g(ch + "size", bad), burst=g(ch + "burst", bad))
        k = "w" if ch == "aw" else "r"
        for a in ATTR:
            if h[k][a]:
                p[a] = g(ch + a, bad)
        return p

    def w_p(bad):
        p = dict(d=by(g("wdata", bad)), s=[], l=1, u=0)
        if c["strb"]:
            m = g("wstrb", bad)
            p["s"] = [(m >> j) & 1 for j in range(lanes)]
        if not lite:
            p["l"] = g("wlast", bad)
            if h["w"]["wuser"]:
                p["u"] = g("wuser", bad)
        return p

    driven = {"b": None, "r": None}
    follow = [0, 0]                                # answers the script asked for / answers given as asked

    def chan(v, r, f):
        vv, rr = iv(S(v)), iv(S(r))
        if vv == 1:
            bad = []
            p = f(bad)
            return dict(v=1, r=rr, p=p, x=bool(bad))
        return dict(v=vv, r=rr)

    fires = {}

    async def recorder():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            e = dict(aw=chan("awvalid", "awready", lambda x: addr_p("aw", x)),
                     w=chan("wvalid", "wready", w_p),
                     ar=chan("arvalid", "arready", lambda x: addr_p("ar", x)),
                     b=dict(v=int(driven["b"] is not None), r=iv(S("bready"))),
                     rr=dict(v=int(driven["r"] is not None), r=iv(S("rready"))))
            if driven["b"]:
                e["b"]["p"] = driven["b"]
            if driven["r"]:
                e["rr"]["p"] = driven["r"]
            rec.log("edge", **e)
            fires.clear()
            for k, x in e.items():
                if x["v"] == 1 and x["r"] == 1 and not st["rst"]:
                    fires[k] = x["p"]

    # ---------------------------------------------------------------- slave model
    async def slave():
        ev = RisingEdge(dut.clk)
        awq, wcnt, pend, arq = [], [], {}, {}    # pend: id -> number of B owed
        curw = 0
        order_b, rcur, before = [], None, None
        script, cyc = sc.get("script"), 0          # per edge: readies and the ID to answer, -1 for none

        def resp():
            return 0 if rng.random() < slv["pok"] else rng.choice([1, 2, 3, 2])

        while True:
            await ev
            cmd = script[cyc] if script and cyc < len(script) and not st["drain"] else None
            cyc += 1
            want = lambda p: (cmd[1] >= 0) if cmd else rng.random() < slv[p]
            pick = lambda ids: [i for i in ids if i == cmd[1]] if cmd else ids
            if st["rst"] or st.pop("flush", False):
                awq, wcnt, pend, arq = [], [], {}, {}
                curw = 0
                rcur = None
                for ch in "br":
                    driven[ch] = None
                S("bvalid").value = 0
                S("rvalid").value = 0
            else:
                if "aw" in fires:
                    p = fires["aw"]
                    awq.append((0 if lite else p["id"], 1 if lite else p["len"] + 1))
                if "w" in fires:
                    curw += 1
                    if lite or fires["w"]["l"]:
                        wcnt.append(curw)
                        curw = 0
                while awq and wcnt:
                    i, n = awq.pop(0)
                    wcnt.pop(0)
                    pend[i] = pend.get(i, 0) + 1
                    order_b.append(i)
                if "ar" in fires:
                    p = fires["ar"]
                    arq.setdefault(0 if lite else p["id"], []).append([1 if lite else p["len"] + 1])
                if "b" in fires:
                    driven["b"] = None
                if "rr" in fires:
                    driven["r"] = None
                dr = st["drain"]
                if driven["b"] is None:
                    ids = pick([i for i in pend if pend[i]])
                    if ids and (dr or want("pb")):
                        i = rng.choice(ids)
                        pend[i] -= 1
                        p = dict(id=i, resp=resp(), u=0)
                        if not h["w"]["resp"]:
                            p["resp"] = 0
                        if h["w"]["ruser"]:
                            p["u"] = rng.getrandbits(b["bub"])
                            S("buser").value = p["u"]
                        if h["w"]["resp"]:
                            S("bresp").value = p["resp"]
                        if not lite:
                            S("bid").value = i
                        S("bvalid").value = 1
                        driven["b"] = p
                    else:
                        S("bvalid").value = 0
                if driven["r"] is None:
                    ids = pick([i for i in arq if arq[i]])
                    if ids and (dr or want("pr")):
                        i = rcur if rcur in ids and rng.random() < slv["stick"] else rng.choice(ids)
                        rcur = i
                        q = arq[i][0]
                        q[0] -= 1
                        last = q[0] == 0
                        if last:
                            arq[i].pop(0)
                        d = rng.getrandbits(8 * lanes)
                        p = dict(id=i, d=by(d), resp=resp() if h["r"]["resp"] else 0, l=int(last), u=0)
                        S("rdata").value = d
                        if h["r"]["resp"]:
                            S("rresp").value = p["resp"]
                        if not lite:
                            S("rid").value = i
                            S("rlast").value = int(last)
                        if h["r"]["ruser"]:
                            p["u"] = rng.getrandbits(b["rub"])
                            S("ruser").value = p["u"]
                        S("rvalid").value = 1
                        driven["r"] = p
                    else:
                        S("rvalid").value = 0
            if cmd and cmd[1] >= 0 and not st["rst"]:
                follow[0] += 1
                x = driven["b"] or driven["r"]
                follow[1] += x is not None and x is not before and x["id"] == cmd[1]
            before = driven["b"] or driven["r"]
            for ch in ("aw", "w", "ar"):
                S(ch + "ready").value = cmd[0] if cmd else int(st["drain"] or rng.random() < slv["p" + ch])

    cocotb.start_soon(Clock(dut.clk, PERIOD, units="ns").start(start_high=False))
    cocotb.start_soon(recorder())
    cocotb.start_soon(slave())

    # ---------------------------------------------------------------- the master
    kw = {} if lite else dict(max_burst_len=b.get("maxarg", c["maxb"]))
    if b["split"]:
        if lite:
            bus = ax.AxiLiteBus.from_prefix(dut, b["pfx"])
            wi = ax.AxiLiteMasterWrite(bus.write, dut.clk, dut.rst, bool(lvl))
            ri = ax.AxiLiteMasterRead(bus.read, dut.clk, dut.rst, bool(lvl))
        else:
            bus = ax.AxiBus.from_prefix(dut, b["pfx"])
            wi = ax.AxiMasterWrite(bus.write, dut.clk, dut.rst, bool(lvl), **kw)
            ri = ax.AxiMasterRead(bus.read, dut.clk, dut.rst, bool(lvl), **kw)
        m = None
    else:
        cls, bcls = (ax.AxiLiteMaster, ax.AxiLiteBus) if lite else (ax.AxiMaster, ax.AxiBus)
        m = cls(bcls.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, bool(lvl), **kw)
        wi, ri = m.write_if, m.read_if
    chans = dict(aw=wi.aw_channel, w=wi.w_channel, b=wi.b_channel, ar=ri.ar_channel, r=ri.r_channel)
    outstanding = set()
    kept = []

    def idle():
        w, r = bool(wi.idle()), bool(ri.idle())
        a = bool(m.idle()) if m else (w and r)
        x = (w, r, a)
        if x != st.get("last") or st["dirty"]:
            st["last"], st["dirty"] = x, False
            rec.log("idle", w=w, r=r, a=a)

    def kwargs(o):
        k = {}
        if not lite:
            if o["id"] >= 0 or not o.get("noid"):
                k["awid" if o["dir"] == "w" else "arid"] = o["id"] if o["id"] >= 0 else (None if o["k"] % 2 else -1)
            k["burst"] = ax.AxiBurstType(o["burst"])
            if not o.get("nosize"):
                k["size"] = o["size"]
            for a in ("lock", "cache", "qos", "region", "user"):
                if not o.get("dflt"):
                    k[a] = o[a]
            if o["dir"] == "w" and not o.get("dflt"):
                k["wuser"] = o["wu"]["v"] if o["wu"]["t"] != "n" else None
        if not o.get("dflt"):
            k["prot"] = ax.AxiProt(o["prot"])
        return k

    bufs = {}

    def arg(o):
        if o["dir"] == "r":
            return o["n"]
        if not o["bytes"]:
            return [5, o["d"] + [256], [0, -1], o["d"] + [1000] + o["d"]][o["k"] % 4]
        buf = [bytes, bytearray, lambda x: memoryview(bytearray(x)), list][o["k"] % 4](o["d"])
        bufs[o["k"]] = buf
        return buf

    def scribble(o):
        """the operation is started: the caller's buffer is its own again"""
        buf = bufs.pop(o["k"], b"")
        if isinstance(buf, (bytearray, memoryview, list)):
            for i in range(len(buf)):
                buf[i] ^= 0xa5

    def oev(o):
        return {k: o[k] for k in ("k", "dir", "a", "n", "d", "bytes", "burst", "size", "id", "lock", "cache", "prot", "qos",
                                  "region", "user", "wu")}

    def done(o, r):
        st["dirty"] = True
        outstanding.discard(o["k"])
        if r is None:
            rec.log("done", k=o["k"], none=True)
            return
        u = getattr(r, "user", None)
        kw = dict(k=o["k"], none=False, addr=int(r.address), resp=int(r.resp),
                  u=dict(t="n") if u is None else dict(t="l", v=[int(x) for x in u]))
        if o["dir"] == "w":
            kw.update(len=int(r.length), d=[])
        else:
            kw.update(len=len(r.data), d=list(bytes(r)))
        rec.log("done", **kw)

    def tgt(o):
        return m if m and not o.get("sub") else (wi if o["dir"] == "w" else ri)

    async def blocking(o):
        st["dirty"] = True
        e = dict(e="op", o=oev(o))
        rec.ev.append(e)
        n = len(rec.ev)
        outstanding.add(o["k"])
        try:
            f = tgt(o).write if o["dir"] == "w" else tgt(o).read
            r = await f(o["a"], arg(o), **kwargs(o))
        except Exception as ex:
            outstanding.discard(o["k"])
            if len(rec.ev) != n:
                raise
            e.update(e="rej", exc=type(ex).__name__)
            return
        done(o, r)

    def initop(o):
        st["dirty"] = True
        k = kwargs(o)
        if o["k"] % 3 == 0:
            k["event"] = Event()
        f = tgt(o).init_write if o["dir"] == "w" else tgt(o).init_read
        try:
            ev = f(o["a"], arg(o), **k)
        except Exception as ex:
            rec.log("rej", o=oev(o), exc=type(ex).__name__)
            return
        rec.log("op", o=oev(o))
        scribble(o)
        if "event" in k:
            assert ev is k["event"]
        outstanding.add(o["k"])

        async def w():
            await ev.wait()
            done(o, ev.data)
            kept.append((ev, ev.data))
        cocotb.start_soon(w())

    async def seq(ops):
        for o in ops:
            await blocking(o)

    async def wait(which):
        st["wn"] = k = st.get("wn", 0) + 1
        rec.log("wb", which=which, k=k)
        if m:
            await (m.wait() if which == "a" else m.wait_write() if which == "w" else m.wait_read())
        elif which == "w":
            await wi.wait()
        else:
            await ri.wait()
        rec.log("wr", k=k)

    async def reset(on, style):
        if on == st["rst"]:
            return
        if style == "edge":
            await RisingEdge(dut.clk)
        elif style == "post":
            await RisingEdge(dut.clk)
            await Timer(1, "ns")
        elif style == "pre":
            await Timer(2, "ns")
        st["dirty"] = True
        dut.rst.value = lvl if on else 1 - lvl
        rec.log("rst", on=on)
        st["rst"] = on
        if on:
            # no response that was not accepted yet survives, even if no clock edge falls into the reset
            st["flush"] = True
            fires.clear()
            driven["b"] = driven["r"] = None
            S("bvalid").value = 0
            S("rvalid").value = 0
        await Timer(1, "ns")
        rec.log("rstd")
        if on and kept:
            rec.log("kept", ok=all(e.data is d for e, d in kept))

    async def act(a):
        k = a[0]
        if k == "op":
            if a[1].get("init"):
                initop(a[1])
            else:
                cocotb.start_soon(blocking(a[1]))
        elif k == "seq":
            cocotb.start_soon(seq(a[1]))
        elif k == "pause":
            chans[a[1]].pause = bool(a[2])
        elif k == "pgen":
            chans[a[1]].set_pause_generator(bool(x) for x in a[2])
        elif k == "wait":
            if m is None and a[1] == "a":
                return
            cocotb.start_soon(wait(a[1]))
        elif k == "rst":
            await reset(bool(a[1]), a[2])

    acts = {int(k): v for k, v in sc["acts"].items()}
    fall = FallingEdge(dut.clk)
    await fall
    for cyc in range(sc["n"]):
        for a in acts.get(cyc, []):
            await act(a)
            if sc.get("settle"):      # let the master react before the next call
                await Timer(1, "ps")
        await Timer(1, "ns")
        idle()
        await fall
    st["drain"] = True
    for ch in chans.values():
        if hasattr(ch, "clear_pause_generator"):
            ch.clear_pause_generator()
            ch.pause = False
    if st["rst"]:
        await reset(False, "mid")
    q = 0
    for _ in range(sc.get("drain", 1500)):
        await Timer(1, "ns")
        idle()
        await fall
        q = 0 if outstanding else q + 1
        if q > 12:
            break
    rec.log("end", follow=follow)


tf = simlib.factory(run)
tf.generate_tests()

"""AXI / AXI-lite slave or RAM of the package driven by a bare bus master model."""
import random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, FallingEdge, Timer
import simlib, targets
from simlib import iv, PERIOD


async def run(dut, rec, sc):
    import cocotbext.axi as ax
    c, b, drv = sc["cfg"], sc["bus"], sc["drv"]
    lite, lanes = c["lite"], c["lanes"]
    pfx = b["pfx"] + "_"
    lvl = b.get("rstlvl", 1)
    rng = random.Random(drv["seed"])
    S = lambda n: getattr(dut, pfx + n)
    st = dict(rst=False, drain=False)

    dut.rst.setimmediatevalue(1 - lvl)
    for n in ("awvalid", "wvalid", "arvalid", "bready", "rready"):
        S(n).setimmediatevalue(0)
    await Timer(1, "ns")

    # ------------------------------------------------------------------ memory
    size = c["size"]
    fill = targets.fill(c)
    delay = b.get("delay", [])
    wbus, rbus = (ax.AxiLiteWriteBus, ax.AxiLiteReadBus) if lite else (ax.AxiWriteBus, ax.AxiReadBus)
    if b["kind"] == "ram":
        if b["split"]:
            cw, cr = (ax.AxiLiteRamWrite, ax.AxiLiteRamRead) if lite else (ax.AxiRamWrite, ax.AxiRamRead)
            wi = cw(wbus.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, bool(lvl), size=size)
            ri = cr(rbus.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, reset_active_level=bool(lvl), size=size, mem=wi.mem)
            wi.write(0, fill)
            peek = lambda: bytes(ri.read(0, size))
        else:
            cls, bcls = (ax.AxiLiteRam, ax.AxiLiteBus) if lite else (ax.AxiRam, ax.AxiBus)
            ram = cls(bcls.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, reset_active_level=bool(lvl), size=size)
            wi, ri = ram.write_if, ram.read_if
            ram.write(0, fill)
            peek = lambda: bytes(ram.read(0, size))
    else:
        tgt, peek, fill = targets.target(ax, dut.clk, c, b, rng)
        if b["split"]:
            cw, cr = (ax.AxiLiteSlaveWrite, ax.AxiLiteSlaveRead) if lite else (ax.AxiSlaveWrite, ax.AxiSlaveRead)
            wi = cw(wbus.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, tgt, bool(lvl))
            ri = cr(rbus.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, tgt, bool(lvl))
        else:
            cls, bcls = (ax.AxiLiteSlave, ax.AxiLiteBus) if lite else (ax.AxiSlave, ax.AxiBus)
            sl = cls(bcls.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, tgt, bool(lvl))
            wi, ri = sl.write_if, sl.read_if
    chans = dict(aw=wi.aw_channel, w=wi.w_channel, b=wi.b_channel, ar=ri.ar_channel, r=ri.r_channel)

    def dopeek():
        m = peek()
        rec.log("peek", diff=[[i, m[i]] for i in range(size) if m[i] != fill[i]] if m != fill else [])

    # ----------------------------------------------------------------- recorder
    driven = dict(aw=None, w=None, ar=None)
    fires = {}

    def out(ch, f):
        vv, rr = iv(S(ch + "valid")), iv(S(ch + "ready"))
        if vv == 1:
            bad = []

            def g(n):
                v = iv(S(n))
                if v < 0:
                    bad.append(n)
                    v = 0
                return v
            p = f(g)
            return dict(v=1, r=rr, p=p, x=bool(bad))
        return dict(v=vv, r=rr)

    def by(v):
        return [(v >> (8 * j)) & 255 for j in range(lanes)]

    def bp(g):
        p = dict(resp=g("bresp") if c["bresp"] else 0)
        if not lite:
            p["id"] = g("bid")
            if b["buser"]:
                p["u"] = g("buser")
        return p

    def rp(g):
        p = dict(d=by(g("rdata")), resp=g("rresp") if c["rresp"] else 0)
        if not lite:
            p.update(id=g("rid"), l=g("rlast"))
            if b["ruser"]:
                p["u"] = g("ruser")
        return p

    async def recorder():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            e = dict(b=out("b", bp), r=out("r", rp))
            for ch in ("aw", "w", "ar"):
                x = dict(v=int(driven[ch] is not None), r=iv(S(ch + "ready")))
                if driven[ch]:
                    x["p"] = driven[ch]
                e[ch] = x
            rec.log("edge", **e)
            fires.clear()
            for k, x in e.items():
                if x["v"] == 1 and x["r"] == 1 and not st["rst"]:
                    fires[k] = 1

    # ------------------------------------------------------------ bus master model
    todo = dict(aw=[], w=[], ar=[])

    def drive(ch, it):
        if ch == "w":
            S("wdata").value = sum(x << (8 * j) for j, x in enumerate(it["d"]))
            if b["strb"]:
                S("wstrb").value = sum(x << j for j, x in enumerate(it["s"]))
            if not lite:
                S("wlast").value = it["l"]
            return
        S(ch + "addr").value = it["a"]
        if not lite:
            for f in ("id", "len", "size", "burst"):
                S(ch + f).value = it[f]
            for f, w in b["attrs"][ch]:
                S(ch + f).value = rng.getrandbits(w)
        elif b["attrs"][ch]:
            S(ch + "prot").value = rng.getrandbits(3)

    async def master():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            for ch in ("aw", "w", "ar"):
                if st["rst"]:
                    driven[ch] = None
                    S(ch + "valid").value = 0
                    continue
                if ch in fires:
                    driven[ch] = None
                if driven[ch] is None:
                    if todo[ch] and (st["drain"] or rng.random() < drv["p" + ch]):
                        driven[ch] = todo[ch].pop(0)
                        drive(ch, driven[ch])
                        S(ch + "valid").value = 1
                    else:
                        S(ch + "valid").value = 0
            for ch in ("b", "r"):
                S(ch + "ready").value = int(st["drain"] or rng.random() < drv["p" + ch])

    cocotb.start_soon(Clock(dut.clk, PERIOD, units="ns").start(start_high=False))
    cocotb.start_soon(recorder())
    cocotb.start_soon(master())

    async def reset(on, style):
        if on == st["rst"]:
            return
        if style == "edge":
            await RisingEdge(dut.clk)
        elif style == "post":
            await RisingEdge(dut.clk)
            await Timer(1, "ns")
        elif style == "pre":
            await Timer(2, "ns")
        dut.rst.value = lvl if on else 1 - lvl
        rec.log("rst", on=on)
        st["rst"] = on
        if on:
            fires.clear()
            for ch in ("aw", "w", "ar"):
                driven[ch] = None
                todo[ch].clear()
                S(ch + "valid").value = 0
        await Timer(1, "ns")
        dopeek()

    async def act(a):
        k = a[0]
        if k == "w":
            if not st["rst"]:
                todo["aw"].append(a[1])
                todo["w"].extend(a[2])
        elif k == "r":
            if not st["rst"]:
                todo["ar"].append(a[1])
        elif k == "pause":
            chans[a[1]].pause = bool(a[2])
        elif k == "pgen":
            chans[a[1]].set_pause_generator(bool(x) for x in a[2])
        elif k == "peek":
            dopeek()
        elif k == "rst":
            await reset(bool(a[1]), a[2])

    acts = {int(k): v for k, v in sc["acts"].items()}
    fall = FallingEdge(dut.clk)
    await fall
    for cyc in range(sc["n"]):
        for a in acts.get(cyc, []):
            await act(a)
        await fall
    st["drain"] = True
    for ch in chans.values():
        ch.clear_pause_generator()
        ch.pause = False
    if st["rst"]:
        await reset(False, "mid")
    q = 0
    for _ in range(sc.get("drain", 1500)):
        await fall
        busy = any(todo.values()) or any(driven.values()) or iv(S("bvalid")) == 1 or iv(S("rvalid")) == 1
        q = 0 if busy else q + 1
        if q > 14 + (2 * max(delay) * lanes if delay else 0):
            break
    dopeek()
    rec.log("end", pend=sum(len(x) for x in todo.values()) + sum(x is not None for x in driven.values()))


tf = simlib.factory(run)
tf.generate_tests()

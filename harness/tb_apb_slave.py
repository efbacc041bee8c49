"""APB slave or RAM of the package driven by a bare APB master model."""
import random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, FallingEdge, Timer
import simlib, targets
from simlib import iv, PERIOD


async def run(dut, rec, sc):
    import cocotbext.axi as ax
    c, b, drv = sc["cfg"], sc["bus"], sc["drv"]
    lanes = c["lanes"]
    pfx = b["pfx"] + "_"
    lvl = b.get("rstlvl", 1)
    rng = random.Random(drv["seed"])
    S = lambda n: getattr(dut, pfx + n)
    st = dict(rst=False, drain=False)
    dut.rst.setimmediatevalue(1 - lvl)
    for n in ("psel", "penable", "pwrite", "paddr", "pwdata", "pstrb"):
        S(n).setimmediatevalue(0)
    if b["prot"]:
        S("pprot").setimmediatevalue(0)
    await Timer(1, "ns")
    size = c["size"]
    bus = ax.ApbBus.from_prefix(dut, b["pfx"])
    if b["kind"] == "ram":
        sl = ax.ApbRam(bus, dut.clk, dut.rst, reset_active_level=bool(lvl), size=size)
        fill = targets.fill(c)
        sl.write(0, fill)
        peek = lambda: bytes(sl.read(0, size))
    else:
        tgt, peek, fill = targets.target(ax, dut.clk, c, b, rng)
        sl = ax.ApbSlave(bus, dut.clk, dut.rst, tgt, bool(lvl))

    def dopeek():
        m = peek()
        rec.log("peek", diff=[[i, m[i]] for i in range(size) if m[i] != fill[i]] if m != fill else [])

    def by(v):
        return [(v >> (8 * j)) & 255 for j in range(lanes)]
    cur = dict(sel=0, en=0, p=None)
    seen = {}

    async def recorder():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            rd = iv(S("prdata"))
            x = dict(sel=cur["sel"], en=cur["en"], rdy=iv(S("pready")), rx=rd < 0, rd=by(max(rd, 0)), err=iv(S("pslverr")) if c["slverr"] else 0)
            if cur["sel"]:
                x["p"] = cur["p"]
            rec.log("edge", x=x)
            seen["done"] = cur["en"] and x["rdy"] == 1 and not st["rst"]

    todo = []

    async def master():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            if st["rst"]:
                todo.clear()
                cur.update(sel=0, en=0)
            elif cur["sel"] and not cur["en"]:
                cur["en"] = 1
            elif cur["en"] and not seen.get("done"):
                pass
            elif todo and (st["drain"] or rng.random() < drv["p"]):
                p = todo.pop(0)
                cur.update(sel=1, en=0, p=p)
                S("paddr").value = p["a"]
                S("pwrite").value = p["w"]
                S("pwdata").value = sum(x << (8 * j) for j, x in enumerate(p["d"]))
                S("pstrb").value = sum(x << j for j, x in enumerate(p["s"])) if p["w"] else 0
                if b["prot"]:
                    S("pprot").value = rng.getrandbits(3)
            else:
                cur.update(sel=0, en=0)
                if drv["junk"]:
                    S("paddr").value = rng.randrange(2**b["aw"])
                    S("pwdata").value = rng.getrandbits(8 * lanes)
                    S("pwrite").value = rng.getrandbits(1)
                    S("pstrb").value = rng.getrandbits(lanes)
                    if drv["junk"] > 1:
                        S("penable").value = 0
            S("psel").value = cur["sel"]
            S("penable").value = cur["en"]

    cocotb.start_soon(Clock(dut.clk, PERIOD, units="ns").start(start_high=False))
    # the recorder has to sample before any other process runs
    cocotb.start_soon(recorder())
    cocotb.start_soon(master())

    async def reset(on, style):
        if on == st["rst"]:
            return
        if style == "edge":
            await RisingEdge(dut.clk)
        elif style == "post":
            await RisingEdge(dut.clk)
            await Timer(1, "ns")
        elif style == "pre":
            await Timer(2, "ns")
        dut.rst.value = lvl if on else 1 - lvl
        rec.log("rst", on=on)
        st["rst"] = on
        if on:
            todo.clear()
            cur.update(sel=0, en=0)
            S("psel").value = 0
            S("penable").value = 0
        await Timer(1, "ns")
        dopeek()
    gen = [False]

    async def act(a):
        k = a[0]
        if k == "t":
            if not st["rst"]:
                todo.append(a[1])
        elif k == "pause":
            if gen[0]:
                sl.clear_pause_generator()
                gen[0] = False
            sl.pause = bool(a[1])
            rec.log("pause", on=bool(a[1]))
        elif k == "pgen":
            rec.log("pause", on=False)
            gen[0] = True
            sl.set_pause_generator(bool(x) for x in a[1])
        elif k == "peek":
            dopeek()
        elif k == "rst":
            await reset(bool(a[1]), a[2])

    acts = {int(k): v for k, v in sc["acts"].items()}
    fall = FallingEdge(dut.clk)
    await fall
    for cyc in range(sc["n"]):
        for a in acts.get(cyc, []):
            await act(a)
        await fall
    st["drain"] = True
    sl.clear_pause_generator()
    sl.pause = False
    rec.log("pause", on=False)
    if st["rst"]:
        await reset(False, "mid")
    q = 0
    for _ in range(sc.get("drain", 1500)):
        await fall
        q = 0 if todo or cur["sel"] else q + 1
        if q > 6:
            break
    dopeek()
    rec.log("end", pend=len(todo) + cur["sel"])


tf = simlib.factory(run)
tf.generate_tests()

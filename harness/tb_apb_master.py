"""APB master of the package against a bare APB slave model."""
import random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, FallingEdge, Timer, Event
import simlib
from simlib import iv, PERIOD


async def run(dut, rec, sc):
    import cocotbext.axi as ax
    c, b, slv = sc["cfg"], sc["bus"], sc["slv"]
    lanes = c["lanes"]
    pfx = b["pfx"] + "_"
    lvl = b.get("rstlvl", 1)
    rng = random.Random(slv["seed"])
    S = lambda n: getattr(dut, pfx + n)
    prot = c["h"]["w"]["prot"]
    st = dict(rst=False, drain=False, dirty=True)
    dut.rst.setimmediatevalue(1 - lvl)
    S("pready").setimmediatevalue(0)
    S("prdata").setimmediatevalue(0)
    if c["slverr"]:
        S("pslverr").setimmediatevalue(0)
    await Timer(1, "ns")

    def by(v):
        return [(v >> (8 * j)) & 255 for j in range(lanes)]
    cur = dict(rdy=0, rd=[0] * lanes, err=0)
    phase = dict(sel=0, en=0)

    async def recorder():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            x = dict(sel=iv(S("psel")), en=iv(S("penable")), x=False, rdy=cur["rdy"], rd=cur["rd"], err=cur["err"])
            if x["sel"] == 1:
                bad = []

                def g(n):
                    v = iv(S(n))
                    if v < 0:
                        bad.append(n)
                        return 0
                    return v
                m = g("pstrb")
                x["p"] = dict(a=g("paddr"), w=g("pwrite"), s=[(m >> j) & 1 for j in range(lanes)], d=by(g("pwdata")),
                              prot=g("pprot") if prot else 0)
                x["x"] = bool(bad)
            rec.log("edge", x=x)
            phase.update(sel=x["sel"], en=x["en"])

    async def slave():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            # ready is meaningful in access phases only; outside of them it may have any value
            if slv["idle"] == "rand":
                r = rng.random() < slv["p"]
            elif slv["idle"] == "one" and slv["p"] == 1:
                r = 1
            else:
                r = phase["sel"] == 1 and not (phase["en"] == 1 and cur["rdy"]) and rng.random() < slv["p"]
            r = int(bool(r or (st["drain"] and phase["sel"] == 1)))
            d = rng.getrandbits(8 * lanes)
            err = int(rng.random() < slv["perr"]) if c["slverr"] else 0
            cur.update(rdy=r, rd=by(d), err=err)
            S("pready").value = r
            S("prdata").value = d
            if c["slverr"]:
                S("pslverr").value = err

    cocotb.start_soon(Clock(dut.clk, PERIOD, units="ns").start(start_high=False))
    cocotb.start_soon(recorder())
    cocotb.start_soon(slave())
    m = ax.ApbMaster(ax.ApbBus.from_prefix(dut, b["pfx"]), dut.clk, dut.rst, bool(lvl))
    outstanding = set()
    kept = []

    def idle():
        a = bool(m.idle())
        if a != st.get("last") or st["dirty"]:
            st["last"], st["dirty"] = a, False
            rec.log("idle", a=a)

    def kwargs(o):
        return {} if o.get("dflt") else dict(prot=ax.AxiProt(o["prot"]))

    bufs = {}

    def arg(o):
        if o["dir"] == "r":
            return o["n"]
        if not o["bytes"]:
            return [5, o["d"] + [256], [0, -1], o["d"] + [1000] + o["d"]][o["k"] % 4]
        buf = [bytes, bytearray, lambda x: memoryview(bytearray(x)), list][o["k"] % 4](o["d"])
        bufs[o["k"]] = buf
        return buf

    def scribble(o):
        """the operation is started: the caller's buffer is its own again"""
        buf = bufs.pop(o["k"], b"")
        if isinstance(buf, (bytearray, memoryview, list)):
            for i in range(len(buf)):
                buf[i] ^= 0xa5

    def oev(o):
        return {k: o[k] for k in ("k", "dir", "a", "n", "d", "bytes", "burst", "size", "prot", "wu")}

    def done(o, r):
        st["dirty"] = True
        outstanding.discard(o["k"])
        if r is None:
            rec.log("done", k=o["k"], none=True)
            return
        kw = dict(k=o["k"], none=False, addr=int(r.address), resp=int(r.resp), u=dict(t="n"))
        if o["dir"] == "w":
            kw.update(len=int(r.length), d=[])
        else:
            kw.update(len=len(r.data), d=list(bytes(r)))
        rec.log("done", **kw)

    async def blocking(o):
        st["dirty"] = True
        e = dict(e="op", o=oev(o))
        rec.ev.append(e)
        n = len(rec.ev)
        outstanding.add(o["k"])
        try:
            r = await (m.write if o["dir"] == "w" else m.read)(o["a"], arg(o), **kwargs(o))
        except Exception as ex:
            outstanding.discard(o["k"])
            if len(rec.ev) != n:
                raise
            e.update(e="rej", exc=type(ex).__name__)
            return
        done(o, r)

    def initop(o):
        st["dirty"] = True
        k = kwargs(o)
        if o["k"] % 3 == 0:
            k["event"] = Event()
        try:
            ev = (m.init_write if o["dir"] == "w" else m.init_read)(o["a"], arg(o), **k)
        except Exception as ex:
            rec.log("rej", o=oev(o), exc=type(ex).__name__)
            return
        rec.log("op", o=oev(o))
        scribble(o)
        outstanding.add(o["k"])

        async def w():
            await ev.wait()
            done(o, ev.data)
            kept.append((ev, ev.data))
        cocotb.start_soon(w())

    async def seq(ops):
        for o in ops:
            await blocking(o)

    async def wait():
        st["wn"] = k = st.get("wn", 0) + 1
        rec.log("wb", which="a", k=k)
        await m.wait()
        rec.log("wr", k=k)

    async def reset(on, style):
        if on == st["rst"]:
            return
        if style == "edge":
            await RisingEdge(dut.clk)
        elif style == "post":
            await RisingEdge(dut.clk)
            await Timer(1, "ns")
        elif style == "pre":
            await Timer(2, "ns")
        st["dirty"] = True
        dut.rst.value = lvl if on else 1 - lvl
        rec.log("rst", on=on)
        st["rst"] = on
        await Timer(1, "ns")
        rec.log("rstd")
        if on and kept:
            rec.log("kept", ok=all(e.data is d for e, d in kept))

    gen = [False]

    async def act(a):
        k = a[0]
        if k == "op":
            if a[1].get("init"):
                initop(a[1])
            else:
                cocotb.start_soon(blocking(a[1]))
        elif k == "seq":
            cocotb.start_soon(seq(a[1]))
        elif k == "pause":
            if gen[0]:
                m.clear_pause_generator()
                gen[0] = False
            m.pause = bool(a[1])
            rec.log("pause", on=bool(a[1]))
        elif k == "pgen":
            rec.log("pause", on=False)
            gen[0] = True
            m.set_pause_generator(bool(x) for x in a[1])
        elif k == "wait":
            cocotb.start_soon(wait())
        elif k == "rst":
            await reset(bool(a[1]), a[2])

    acts = {int(k): v for k, v in sc["acts"].items()}
    fall = FallingEdge(dut.clk)
    await fall
    for cyc in range(sc["n"]):
        for a in acts.get(cyc, []):
            await act(a)
        await Timer(1, "ns")
        idle()
        await fall
    st["drain"] = True
    m.clear_pause_generator()
    m.pause = False
    rec.log("pause", on=False)
    if st["rst"]:
        await reset(False, "mid")
    q = 0
    for _ in range(sc.get("drain", 1500)):
        await Timer(1, "ns")
        idle()
        await fall
        q = 0 if outstanding else q + 1
        if q > 12:
            break
    rec.log("end")


tf = simlib.factory(run)
tf.generate_tests()

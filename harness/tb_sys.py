"""Masters and RAMs / slaves of the package connected to each other, all over one memory."""
import itertools, mmap, random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, FallingEdge, Timer, Event, Combine, with_timeout
import simlib, memlib
from memlib import W
from simlib import PERIOD


async def run(dut, rec, sc):
    import cocotbext.axi as ax
    from cocotbext.axi.memory import Memory
    from cocotbext.axi.sparse_memory import SparseMemory
    rng = random.Random(sc["seed"])
    dut.rst.setimmediatevalue(0)
    size = sc["msize"]
    mem = mmap.mmap(-1, size) if sc["mem"] == "mmap" else SparseMemory(size)
    direct = Memory(mem=mem)
    coh = sc["cfg"]["P"] == "E01"
    clk, rst = dut.clk, dut.rst
    cocotb.start_soon(Clock(clk, PERIOD, units="ns").start(start_high=False))

    def region(delay):
        base = ax.MemoryRegion if sc["mem"] == "mmap" else ax.SparseMemoryRegion

        async def dly():
            for _ in range(rng.choice(delay) if delay else 0):
                await (RisingEdge(clk) if rng.random() < .5 else Timer(rng.choice([1, 3, 7, 12]), "ns"))

        class Reg(base):
            async def _read(self, address, length, **kw):
                await dly()
                return await super()._read(address, length, **kw)

            async def _write(self, address, data, **kw):
                await dly()
                await super()._write(address, data, **kw)
        return Reg(size, mem=mem)

    B = dict(axi=(ax.AxiBus, ax.AxiWriteBus, ax.AxiReadBus, ax.AxiMaster, ax.AxiRam, ax.AxiRamWrite, ax.AxiRamRead, ax.AxiSlave, ax.AxiSlaveWrite, ax.AxiSlaveRead),
             axil=(ax.AxiLiteBus, ax.AxiLiteWriteBus, ax.AxiLiteReadBus, ax.AxiLiteMaster, ax.AxiLiteRam, ax.AxiLiteRamWrite, ax.AxiLiteRamRead,
                   ax.AxiLiteSlave, ax.AxiLiteSlaveWrite, ax.AxiLiteSlaveRead))
    objs, rams, chans = [], {}, {}
    for i, o in enumerate(sc["objs"]):
        t = o["t"]
        if t == "port":
            tgt = None
            if o["kind"] != "ram":
                tgt = region(o["delay"])
                if o["kind"] == "space":
                    sp = ax.AddressSpace(2**sc["aw"] if "aw" in sc else 2**20)
                    for pos, sz, off in o["regs"]:
                        sp.register_region(tgt, pos, sz, off)
                    tgt = sp
            if o["v"] == "apb":
                bus = ax.ApbBus.from_prefix(dut, o["pfx"])
                m = ax.ApbMaster(bus, clk, rst)
                s = ax.ApbRam(bus, clk, rst, size=size, mem=mem) if tgt is None else ax.ApbSlave(bus, clk, rst, tgt)
                if tgt is None:
                    rams[i] = (s, s)
                chans["%d.m.p" % i], chans["%d.s.p" % i] = m, s
            else:
                bus, wb, rb, M, R, Rw, Rr, S, Sw, Sr = B[o["v"]]
                kw = dict(max_burst_len=o["maxb"]) if o["v"] == "axi" else {}
                m = M(bus.from_prefix(dut, o["pfx"]), clk, rst, **kw)
                if tgt is None:
                    if o["split"]:
                        wi = Rw(wb.from_prefix(dut, o["pfx"]), clk, rst, mem=mem)
                        ri = Rr(rb.from_prefix(dut, o["pfx"]), clk, rst, size=size, mem=mem)
                        rams[i] = (wi, ri)
                    else:
                        s = R(bus.from_prefix(dut, o["pfx"]), clk, rst, mem=mem)
                        wi, ri = s.write_if, s.read_if
                        rams[i] = (s, s)
                elif o["split"]:
                    wi = Sw(wb.from_prefix(dut, o["pfx"]), clk, rst, tgt)
                    ri = Sr(rb.from_prefix(dut, o["pfx"]), clk, rst, tgt)
                else:
                    s = S(bus.from_prefix(dut, o["pfx"]), clk, rst, tgt)
                    wi, ri = s.write_if, s.read_if
                for side, w, r in (("m", m.write_if, m.read_if), ("s", wi, ri)):
                    for ch, x in (("aw", w), ("w", w), ("b", w), ("ar", r), ("r", r)):
                        chans["%d.%s.%s" % (i, side, ch)] = getattr(x, ch + "_channel")
            objs.append(m)
        elif t == "mem":
            objs.append((direct, direct))
        elif t == "ram":
            objs.append(rams[o["of"]])
        elif t == "space":
            sp = ax.AddressSpace(o["size"])
            for j, pos, sz, off in o["regs"]:
                sp.register_region(objs[j], pos, sz, off)
            objs.append(sp)
        else:
            objs.append(objs[o["of"]].create_window(o["off"], o["size"]))

    for name, pat in sc["pauses"].items():
        chans[name].set_pause_generator(itertools.cycle(pat))

    def kwargs(op):
        kw = {}
        for k, v in op.get("kw", {}).items():
            if k == "id":
                kw["awid" if op["k"] == "wr" else "arid"] = v
            else:
                kw[k] = dict(size=ax.AxiBurstSize, prot=ax.AxiProt)[k](v)
        return kw

    kn = itertools.count(1)

    def done(k, i, op, r):
        e = dict(e="done", k=k, ok=True, d=list(bytes(r)) if op["k"] == "rd" and r is not None else [])
        if sc["objs"][i]["t"] == "port":
            e["ok"] = r is not None and int(r.resp) == 0 and r.address == op["a"] and (op["k"] == "rd" or r.length == len(op["d"]))
        rec.log(**e)

    async def cohop(i, op):
        k = next(kn)
        n = op["n"] if op["k"] == "rd" else len(op["d"])
        x = objs[i]
        kw = kwargs(op)
        beg = lambda: rec.log("beg", k=k, dir=op["k"][0], o=i + 1, a=W(op["a"]), n=n, d=op.get("d", []))
        if sc["objs"][i]["t"] in ("ram", "mem"):
            beg()
            if op["k"] == "wr":
                x[0].write(op["a"], bytes(op["d"]))
                r = None
            else:
                r = x[1].read(op["a"], n)
            done(k, i, op, r)
            return
        beg()
        if op.get("init"):
            if op["k"] == "wr":
                ev = x.init_write(op["a"], bytes(op["d"]), **kw)
            else:
                ev = x.init_read(op["a"], n, **kw)

            async def w():
                await ev.wait()
                done(k, i, op, ev.data)
            pend.append(cocotb.start_soon(w()))
        elif op["k"] == "wr":
            done(k, i, op, await x.write(op["a"], bytes(op["d"]), **kw))
        else:
            done(k, i, op, await x.read(op["a"], n, **kw))

    pend = []

    async def actor(seq):
        for i, op, gap in seq:
            if gap:
                await Timer(gap * PERIOD // 2, "ns")
            if coh:
                await cohop(i, op)
            else:
                x = objs[i]
                st = sc["descr"][i]["style"]
                if st == "sync":
                    x = x[0] if op["k"] == "wr" else x[1]
                await memlib.memop(x, st, dict(op, kw=kwargs(op)), lambda e: rec.ev.append(e), i + 1)

    await FallingEdge(clk)
    ts = [cocotb.start_soon(actor(s)) for s in sc["acts"]]
    for _ in range(sc.get("limit", 20000)):
        await FallingEdge(clk)
        if all(t.done() for t in ts) and all(t.done() for t in pend):
            break
    if coh:
        for _ in range(4):
            await FallingEdge(clk)
        rec.log("end", mem=[[i, x] for i, x in enumerate(bytes(mem[0:size])) if x])
    elif not all(t.done() for t in ts):
        rec.log("rej", ok=True, what="operation never completed: idle system")


tf = simlib.factory(run)
tf.generate_tests()

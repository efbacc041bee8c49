"""AXI-stream and define_stream endpoints on a bare bus, driven by a scenario, recorded edge by edge."""
import itertools, logging
import cocotb
from cocotb.clock import Clock
from cocotb.queue import QueueEmpty, QueueFull
from cocotb.triggers import RisingEdge, FallingEdge, Timer, Event
import simlib
from simlib import Rec, iv, now, PERIOD, SCEN


def tag(x):
    if x is None:
        return dict(t="n")
    if isinstance(x, (int, bool)):
        return dict(t="i", v=int(x))
    return dict(t="l", v=[int(k) for k in x])


def untag(x):
    return None if x["t"] == "n" else (x["v"] if x["t"] == "i" else list(x["v"]))


async def run(dut, rec, sc):
    import cocotbext.axi as ax
    c, b = sc["cfg"], sc["bus"]
    axis = c["kind"] == "axis"
    lanes, bs = c["lanes"], b.get("bs", 8)
    act_lvl = b.get("rstlvl", 1)
    names = b.get("sigs", [])          # generic stream payload signals
    pfx = b["pfx"] + "_"
    sig = lambda n: getattr(dut, pfx + n)
    vn, rn = ("tvalid", "tready") if axis else (b["valid"], b.get("ready"))

    dut.rst.setimmediatevalue(1 - act_lvl)
    sig(vn).setimmediatevalue(0)
    if c["hr"]:
        sig(rn).setimmediatevalue(0)
    await Timer(1, "ns")

    # ---- payload
    def sample():
        x = False
        def g(n):
            nonlocal x
            v = iv(sig(n))
            if v < 0:
                x = True
                v = 0
            return v
        if axis:
            d = g("tdata")
            p = dict(d=[(d >> (bs * j)) & (2**bs - 1) for j in range(lanes)],
                     k=[1] * lanes, l=1, i=0, de=0, u=0)
            if c["hk"]:
                k = g("tkeep")
                p["k"] = [(k >> j) & 1 for j in range(lanes)]
            if c["hl"]:
                p["l"] = g("tlast")
            if c["hi"]:
                p["i"] = g("tid")
            if c["hd"]:
                p["de"] = g("tdest")
            if c["hu"]:
                p["u"] = g("tuser")
        else:
            p = dict(d=[g(n) for n in names], k=[1] * lanes, l=1, i=0, de=0, u=0)
        return p, x

    drvn = {}

    def drive(n, v):
        drvn[n] = v
        sig(n).value = v

    def drive_payload(p):
        if axis:
            drive("tdata", sum(v << (bs * j) for j, v in enumerate(p["d"])))
            if c["hk"]:
                drive("tkeep", sum(v << j for j, v in enumerate(p["k"])))
            if c["hl"]:
                drive("tlast", p["l"])
            for f, n, h in (("i", "tid", "hi"), ("de", "tdest", "hd"), ("u", "tuser", "hu")):
                if c[h]:
                    drive(n, p[f])
        else:
            for n, v in zip(names, p["d"]):
                drive(n, v)

    # ---- recorder (started before everything else: its edge event precedes all events of that edge)
    zero = dict(d=[0] * lanes, k=[0] * lanes, l=0, i=0, de=0, u=0)

    async def recorder():
        ev = RisingEdge(dut.clk)
        while True:
            await ev
            v = iv(sig(vn))
            r = iv(sig(rn)) if c["hr"] else 1
            p, x = sample() if v != 0 else (zero, False)
            ok = all(iv(sig(n)) == val for n, val in drvn.items())
            rec.log("edge", t=now(), v=v, r=r, p=p, x=x, drv=ok)

    cocotb.start_soon(Clock(dut.clk, PERIOD, units="ns").start(start_high=False))
    cocotb.start_soon(recorder())

    # ---- components
    if axis:
        bus = ax.AxiStreamBus.from_prefix(dut, b["pfx"])
        kw = {}
        if not c["hk"] and b.get("bsarg") == "bs":
            kw["byte_size"] = bs
        elif not c["hk"] and b.get("bsarg") == "bl":
            kw["byte_lanes"] = lanes
        Src, Snk, Mon = ax.AxiStreamSource, ax.AxiStreamSink, ax.AxiStreamMonitor
    else:
        kw = {}
        dkw = {}
        if b.get("explicit"):
            dkw = dict(valid_signal=b["valid"], ready_signal=b.get("ready"))
            if b["explicit"] == 2:   # handshake signals not in the signal list
                sl = [n for n in b["decl"] if n not in (b["valid"], b.get("ready"))]
            else:
                sl = list(b["decl"])
        else:
            sl = list(b["decl"])
        B_, T_, Src, Snk, Mon = ax.stream.define_stream("T", signals=sl, optional_signals=b.get("opt") or None, **dkw)
        bus = B_.from_prefix(dut, b["pfx"])
    args = (bus, dut.clk, dut.rst, bool(act_lvl))
    src = Src(*args, **kw) if c["src"] == "pkg" else None
    snk = Snk(*args, **kw) if c["snk"] == "pkg" else None
    mon = Mon(*args, **kw) if c["mon"] else None
    comps = dict(src=src, snk=snk, mon=mon)
    if src:
        if axis:
            src.queue_occupancy_limit_bytes = c["lb"] or -1
            src.queue_occupancy_limit_frames = c["lf"] or -1
        else:
            src.queue_occupancy_limit = c["lf"] or -1
    if snk:
        if axis:
            snk.queue_occupancy_limit_bytes = c["slb"] or -1
            snk.queue_occupancy_limit_frames = c["slf"] or -1
        else:
            snk.queue_occupancy_limit = c["slf"] or -1

    st = dict(rst=False, blockedrecv=0)

    # ---- raw source
    rawq = [(g, p) for g, p in sc.get("rawsrc", [])]
    rawdone = Event()

    async def rawsource():
        edge, fall = RisingEdge(dut.clk), FallingEdge(dut.clk)
        drive(vn, 0)
        k = 0
        for gap, p in rawq:
            while gap > 0 or st["rst"]:
                await edge
                gap -= 1
            if b.get("phase"):
                await fall
            if st["rst"]:
                continue
            drive_payload(p)
            drive(vn, 1)
            while True:
                await edge
                if st["rst"]:
                    break
                if not c["hr"] or iv(sig(rn)) == 1:
                    break
            drive(vn, 0)
        rawdone.set()

    async def rawsink():
        edge, fall = RisingEdge(dut.clk), FallingEdge(dut.clk)
        for bit in itertools.chain(sc.get("rr", []), itertools.repeat(1)):
            drive(rn, bit)
            await edge
            if b.get("phase"):
                await fall

    if c["src"] == "raw":
        cocotb.start_soon(rawsource())
    if c["snk"] == "raw" and c["hr"]:
        cocotb.start_soon(rawsink())

    # ---- API actions
    def occ(who):
        o = comps[who]
        if o is None:
            return
        kw = dict(who=who, cnt=o.count(), empty=bool(o.empty()), full=False, idle=False, b=-1, f=-1)
        if hasattr(o, "full"):
            kw["full"] = bool(o.full())
        if who == "src":
            kw["idle"] = bool(o.idle())
        if axis:
            kw["b"], kw["f"] = o.queue_occupancy_bytes, o.queue_occupancy_frames
        rec.log("occ", **kw)

    def tns(t):
        return -1 if t is None else int(t // 1000)

    def txc_event(f, fr):
        rec.log("txc", id=f["id"], st=tns(fr.sim_time_start), en=tns(fr.sim_time_end))

    def mkframe(f, style):
        if not axis:
            return T_(**dict(zip(names, f["d"])))
        data = bytes(f["d"]) if bs <= 8 and f.get("bytes", True) else list(f["d"])
        sb = {k: untag(f[s]) for k, s in (("tkeep", "k"), ("tid", "i"), ("tdest", "de"), ("tuser", "u"))}
        if f.get("plain"):
            return data
        if style == "cb":
            return ax.AxiStreamFrame(data, tx_complete=lambda fr: txc_event(f, fr), **sb)
        if style == "ev":
            ev = Event()
            async def w():
                await ev.wait()
                txc_event(f, ev.data)
            cocotb.start_soon(w())
            return ax.AxiStreamFrame(data, tx_complete=ev, **sb)
        return ax.AxiStreamFrame(data, **sb)

    def fev(f):
        return {k: f[k] for k in ("id", "d", "k", "i", "de", "u")}

    def send_nowait(f):
        occ("src")
        o = mkframe(f, f.get("txc"))
        n = len(rec.ev)
        try:
            (src.write_nowait if f.get("w") else src.send_nowait)(o)
            ok = True
        except QueueFull:
            ok = False
        if axis and isinstance(o, ax.AxiStreamFrame) and f["id"] % 2:
            scribble(o)
        rec.log("send", f=fev(f), ok=ok, txc=ok and f.get("txc") is not None)
        return ok

    async def send(f):
        o = mkframe(f, f.get("txc"))
        rec.log("sendb")
        await (src.write(o) if f.get("w") else src.send(o))
        if axis and isinstance(o, ax.AxiStreamFrame) and f["id"] % 2:
            scribble(o)
        rec.log("sendr", f=fev(f), txc=f.get("txc") is not None)

    def contents(fr):
        if axis:
            return dict(d=[int(v) for v in fr.tdata], k=tag(fr.tkeep), i=tag(fr.tid), de=tag(fr.tdest), u=tag(fr.tuser), st=tns(fr.sim_time_start), en=tns(fr.sim_time_end))
        return dict(d=[int(getattr(fr, n)) for n in names])

    received = []

    def scribble(fr):
        """the caller does what it likes with an object it has handed over or received"""
        if axis:
            for x in (fr.tdata, fr.tkeep, fr.tid, fr.tdest, fr.tuser):
                if type(x) in (list, bytearray):
                    x[:] = [1 if v == 0 else 0 for v in x]
                    if len(x) > 1:
                        del x[-1]
        else:
            for n in names:
                setattr(fr, n, 0)

    def log_recv(who, fr, compact):
        if len(received) % 3 == 2:
            received.append(None)
        else:
            received.append((who, fr, contents(fr)))
        if axis:
            x = dict(d=[int(v) for v in fr.tdata], k=tag(fr.tkeep), i=tag(fr.tid), de=tag(fr.tdest), u=tag(fr.tuser))
            rec.log("recv", who=who, f=x, compact=compact, st=tns(fr.sim_time_start), en=tns(fr.sim_time_end))
        else:
            x = dict(d=[int(getattr(fr, n)) for n in names], k=tag(None), i=tag(None), de=tag(None), u=tag(None))
            rec.log("recv", who=who, f=x, compact=True, st=0, en=0)
        if received[-1] is None:
            scribble(fr)

    def recv_nowait(who, compact=True):
        try:
            fr = comps[who].recv_nowait(compact) if axis else comps[who].recv_nowait()
        except QueueEmpty:
            rec.log("rnone", who=who)
            return False
        log_recv(who, fr, compact)
        return True

    async def recv(who, compact=True):
        st["blockedrecv"] += 1
        fr = await (comps[who].recv(compact) if axis else comps[who].recv())
        st["blockedrecv"] -= 1
        log_recv(who, fr, compact)

    busyread = set()

    async def read(who, n):
        if who in busyread:      # one outstanding blocking read per endpoint
            return
        busyread.add(who)
        rec.log("readb", who=who)
        st["blockedrecv"] += 1
        d = await (comps[who].read(n) if n != -1 else comps[who].read())
        st["blockedrecv"] -= 1
        busyread.discard(who)
        rec.log("read", who=who, n=n, d=[int(x) for x in d], blocking=True)

    def read_nowait(who, n):
        d = comps[who].read_nowait(n) if n != -1 else comps[who].read_nowait()
        rec.log("read", who=who, n=n, d=[int(x) for x in d], blocking=False)

    async def waitsrc():
        rec.log("wb", who="src")
        await src.wait()
        rec.log("wr", who="src", late=False)

    async def waitrx(who, timeout):
        rec.log("wb", who=who)
        t0 = now()
        if timeout:
            await comps[who].wait(timeout, "ns")
        else:
            await comps[who].wait()
        rec.log("wr", who=who, late=bool(timeout) and now() - t0 >= timeout)

    def setpause(who, val):
        rec.log("pause", who=who, on=bool(val))
        comps[who].pause = bool(val)

    def pausegen(who, vals):
        def g():
            for v in vals:
                rec.log("pause", who=who, on=bool(v))
                yield bool(v)
        comps[who].set_pause_generator(g())

    def clear(who):
        occ(who)
        rec.log("clear", who=who)
        comps[who].clear()
        occ(who)

    async def reset(on, style):
        if style == "api":
            if on == st["rst"]:
                return
            occ("src")
            rec.log("rst", on=on)
            st["rst"] = on
            for o in comps.values():
                if o is not None:
                    o.assert_reset(on)
            occ("src")
            return
        if style == "pulse":     # assert_reset() with no argument: asserted and released at once
            occ("src")
            rec.log("rst", on=True)
            for o in comps.values():
                if o is not None:
                    o.assert_reset()
            occ("src")
            if c["src"] == "raw":
                pass
            rec.log("rst", on=False)
            return
        if on == st["rst"]:
            return
        if style == "edge":      # written at the clock edge
            await RisingEdge(dut.clk)
        elif style == "post":
            await RisingEdge(dut.clk)
            await Timer(1, "ns")
        elif style == "pre":
            await Timer(2, "ns")
        dut.rst.value = act_lvl if on else 1 - act_lvl
        if style != "edge":
            occ("src")
            rec.log("rst", on=on)
            st["rst"] = on
        else:
            rec.log("rst", on=on)
            st["rst"] = on
        await Timer(1, "ns")
        occ("src")

    async def act(a):
        k = a[0]
        if k == "sendn":
            send_nowait(a[1])
        elif k == "send":
            cocotb.start_soon(send(a[1]))
        elif k == "pause":
            setpause(a[1], a[2])
        elif k == "pgen":
            pausegen(a[1], a[2])
        elif k == "pclr":
            comps[a[1]].clear_pause_generator()
        elif k == "recvn":
            recv_nowait(a[1], a[2])
        elif k == "recv":
            cocotb.start_soon(recv(a[1], a[2]))
        elif k == "read":
            cocotb.start_soon(read(a[1], a[2]))
        elif k == "readn":
            read_nowait(a[1], a[2])
        elif k == "clear":
            clear(a[1])
        elif k == "waits":
            cocotb.start_soon(waitsrc())
        elif k == "waitr":
            cocotb.start_soon(waitrx(a[1], a[2]))
        elif k == "rst":
            await reset(bool(a[1]), a[2])

    acts = {int(k): v for k, v in sc["acts"].items()}
    fall = FallingEdge(dut.clk)
    await fall
    for cyc in range(sc["n"]):
        for a in acts.get(cyc, []):
            await act(a)
            if sc.get("settle"):      # let the endpoints react before the next call
                await Timer(1, "ps")
        await Timer(1, "ns")
        for who in ("src", "snk", "mon"):
            occ(who)
        await fall

    # ---- drain
    for who in ("src", "snk"):
        if comps[who] is not None:
            comps[who].clear_pause_generator()
            setpause(who, False)
    if st["rst"]:
        await reset(False, "mid" if int(dut.rst.value) == act_lvl else "api")
        await fall
    quietc = 0
    for _ in range(sc.get("drain", 400)):
        await Timer(1, "ns")
        got = False
        for who in ("snk", "mon"):
            if comps[who] is not None and not sc.get("lazy_" + who):
                while comps[who].count():
                    if not recv_nowait(who):
                        break
                    got = True
            occ(who)
        occ("src")
        busy = got or iv(sig(vn)) == 1 or (c["src"] == "raw" and not rawdone.is_set()) or (src is not None and not src.idle())
        quietc = 0 if busy else quietc + 1
        if quietc > 14:
            break
        await fall
    if sc.get("lazy_mon") and mon is not None:
        while mon.count() and recv_nowait("mon"):
            pass
        occ("mon")
    for x in received:
        if x:
            rec.log("kept", who=x[0], was=x[2], now=contents(x[1]))
    rec.log("end", drained=True, blockedrecv=st["blockedrecv"])


tf = simlib.factory(run)
tf.generate_tests()

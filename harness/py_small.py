"""Allocators (R04), wrapped peripherals (R06) and stream frames (S09), without a simulator."""
import asyncio, copy
from memlib import W, drive
import cocotbext.axi as ax
from cocotbext.axi.buddy_allocator import BuddyAllocator


# ------------------------------------------------------------------ allocators
def alloc(sc, trace):
    ev = trace["ev"].append
    c = sc["cfg"]
    u = c["unit"] = sc["unit"]
    size = c["size"] * u
    kind = sc["kind"]
    if kind == "raw":
        al = BuddyAllocator(size, c["min"] * u) if c["min"] != 1 or u > 1 else BuddyAllocator(size)
        do = al.alloc
    elif kind == "wpool":
        sp = ax.AddressSpace(sc["off"] + size + 16)
        al = sp.create_window_pool(sc["off"], size)
        do = al.alloc_window
    else:
        sp = ax.AddressSpace(sc["off"] + size + 16)
        al = sp.create_pool(sc["off"], size)
        do = lambda n: al.alloc_region(n, region_type=ax.Region)
    live = []
    for a in sc["acts"]:
        if a[0] == "a":
            n, d = a[1], a[2]
            e = dict(e="alloc", n=n, ok=True, a=0)
            try:
                r = do(n * u - d)
                if kind == "wpool":
                    ad = r.offset
                    ev(dict(e="sz", ok=r.size == n * u - d and r.get_absolute_address(0) == sc["off"] + ad))
                elif kind == "pool":
                    ad = r.get_absolute_address(0) - sc["off"]
                    ev(dict(e="sz", ok=r.size == n * u - d))
                else:
                    ad = r
                e["a"] = ad // u if ad % u == 0 and ad // u < 2**30 else -1
                live.append(ad)
            except Exception as ex:
                e["ok"] = False
                e["exc"] = type(ex).__name__
            ev(e)
        elif kind == "raw":
            if a[0] == "f":
                if not live:
                    continue
                ad = live[a[1] % len(live)]
            else:
                ad = a[1] * u
            e = dict(e="free", a=ad // u, ok=True)
            try:
                al.free(ad)
                if ad in live:
                    live.remove(ad)
            except Exception as ex:
                e["ok"] = False
                e["exc"] = type(ex).__name__
            ev(e)


# ----------------------------------------------------------------- peripherals
class Boom(Exception):
    pass


def kws(kw):
    return ["%s=%r" % x for x in sorted(kw.items())]


def periph(sc, trace):
    ev = trace["ev"].append
    calls = []
    plan = {}

    def seen(op, a, x, kw):
        calls.append(dict(op=op, a=W(a), n=x if op == "r" else len(x), d=[] if op == "r" else list(x), kw=kws(kw)))
        if plan["raise"]:
            raise plan["exc"]
        return bytes(plan["ret"]) if op == "r" else plan["wret"]

    class Plain:
        def read(self, address, length, **kw):
            return seen("r", address, length, kw)

        def write(self, address, data, **kw):
            return seen("w", address, data, kw)

    class Async:
        async def read(self, address, length, **kw):
            return seen("r", address, length, kw)

        async def write(self, address, data, **kw):
            return seen("w", address, data, kw)

    class Awaitable:
        """plain methods that hand back something to await"""
        def read(self, address, length, **kw):
            async def f():
                return seen("r", address, length, kw)
            return f()

        def write(self, address, data, **kw):
            async def f():
                return seen("w", address, data, kw)
            return f()

    class Mixed:
        def read(self, address, length, **kw):
            return seen("r", address, length, kw)

        async def write(self, address, data, **kw):
            return seen("w", address, data, kw)
    class Later:
        """an awaitable that is not a coroutine"""
        def __init__(self, f):
            self.f = f

        def __await__(self):
            return self.f()
            yield

    class Custom:
        def read(self, address, length, **kw):
            return Later(lambda: seen("r", address, length, kw))

        def write(self, address, data, **kw):
            return Later(lambda: seen("w", address, data, kw))

    class Bound:
        """methods that are plain attributes of the instance"""
        def __init__(self):
            x = [Plain, Async, Awaitable, Custom][sc["size"] % 4]()
            self.read, self.write = x.read, x.write
    obj = dict(plain=Plain, asy=Async, awt=Awaitable, mixed=Mixed, cust=Custom, bound=Bound)[sc["kind"]]()
    reg = ax.PeripheralRegion(obj, sc["size"])
    via = reg
    base = 0
    if sc["via"] == "space":
        via = ax.AddressSpace(2**32)
        base = sc["base"]
        via.register_region(reg, base)
    elif sc["via"] == "window":
        via = reg.create_window(sc["base"])
        base = -sc["base"]
    trace["cfg"]["base"] = W(base)
    for op, a, n, data, kw, rs in sc["acts"]:
        calls.clear()
        plan["raise"] = rs
        plan["exc"] = [Boom, ValueError, RuntimeError, KeyError, TypeError, NotImplementedError, StopAsyncIteration, AttributeError][rs % 8]("x%d" % rs)
        plan["ret"] = data
        plan["wret"] = [None, 0, 5, b"x"][len(data) % 4]
        e = dict(op=op, a=W(a), n=n, d=data if op == "w" else [], kw=kws(kw), exc="none", raised=repr(plan["exc"]) if rs else "none", res=[], ret=data if op == "r" else [])
        try:
            if op == "r":
                e["res"] = list(bytes(drive(via.read(a, n, **kw))))
            else:
                drive(via.write(a, bytes(data), **kw))
        except Exception as ex:
            e["exc"] = repr(ex)
        e["calls"] = list(calls)
        ev(e)


# ---------------------------------------------------------------------- frames
def fdec(f):
    return None if f["t"] == "n" else f["v"] if f["t"] == "s" else list(f["v"])


def fenc(x):
    if x is None:
        return dict(t="n")
    if type(x) in (int, bool):
        return dict(t="s", v=int(x))
    return dict(t="l", v=[int(y) for y in x])


def snap(f):
    return dict(data=list(f.tdata), keep=fenc(f.tkeep), id=fenc(f.tid), dest=fenc(f.tdest), user=fenc(f.tuser))


def mk(d, ty):
    data = d["data"]
    data = bytes(data) if ty == "b" else bytearray(data) if ty == "a" else list(data)
    return ax.AxiStreamFrame(data, tkeep=fdec(d["keep"]), tid=fdec(d["id"]), tdest=fdec(d["dest"]), tuser=fdec(d["user"]))


def frames(sc, trace):
    ev = trace["ev"].append
    for op, d, ty, g, gty in sc["acts"]:
        f = mk(d, ty)
        f0 = snap(f)
        e = dict(e=op, f=f0, g=f0, ok=True)
        try:
            if op == "copy":
                c = ax.AxiStreamFrame(f)
                e["g"] = snap(c)
                # scribble over the copy
                for x in (c.tdata, c.tkeep, c.tid, c.tdest, c.tuser):
                    if type(x) in (list, bytearray):
                        if len(x):
                            x[0] ^= 1
                        x.append(1)
                e["after"] = snap(f)
                if sc.get("eqc"):
                    c = ax.AxiStreamFrame(f)
                    ev(dict(e="eq", f=f0, g=snap(c), ok=True, r=bool(f == c)))
            elif op == "norm":
                f.normalize()
                e["g"] = snap(f)
            elif op == "cmp":
                f.compact()
                e["g"] = snap(f)
            elif op == "ncmp":
                f.normalize()
                e["f"] = snap(f)
                f.compact()
                e["g"] = snap(f)
                e["e"] = "cmp"
            elif op == "eq":
                h = mk(g, gty)
                e["g"] = snap(h)
                e["r"] = bool(f == h)
                if sc.get("ne"):
                    e["r"] = not (f != h)
            elif op == "len":
                e["n"] = len(f)
                e["it"] = list(f)
                if ty != "l" and bytes(f) != bytes(d["data"]):
                    e["it"] = [-1]
        except Exception as ex:
            e["ok"] = False
            e["exc"] = repr(ex)[:200]
            e.setdefault("after", f0)
            e.setdefault("r", None)
            e.setdefault("n", -1)
            e.setdefault("it", [])
        ev(e)


def run(sc, trace):
    dict(alloc=alloc, periph=periph, frames=frames)[sc["fam"]](sc, trace)

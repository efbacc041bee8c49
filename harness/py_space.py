"""Address spaces, windows and pools over recording leaves (R02, R03), without a simulator."""
from memlib import W, drive
import cocotbext.axi as ax


class Boom(Exception):
    pass


def run(sc, trace):
    ev = trace["ev"].append
    nodes, calls, rnd = {}, [], [sc["seed"]]

    def nxt():
        rnd[0] = (rnd[0] * 1103515245 + 12345) % 2**31
        return rnd[0] >> 16 & 0xff

    class Leaf(ax.Region):
        def __init__(self, size, nid=None, fails=False, **kw):
            super().__init__(size, **kw)
            self.nid, self.fails = nid, fails

        async def _read(self, address, length, **kw):
            d = [nxt() for _ in range(length)]
            calls.append(dict(leaf=self.nid, op="r", a=W(address), n=length, d=d, kw=kws(kw)))
            if self.fails:
                raise Boom()
            return bytes(d)

        async def _write(self, address, data, **kw):
            calls.append(dict(leaf=self.nid, op="w", a=W(address), n=len(data), d=list(data), kw=kws(kw)))
            if self.fails:
                raise Boom()

    def kws(kw):
        return ["%s=%r" % x for x in sorted(kw.items())]

    def new(nid, kind, size, fails=False):
        ev(dict(e="new", id=nid, k=kind, size=W(size), fails=fails))

    def win(nid, par, off, size, rest, f):
        try:
            w = f()
        except ValueError:
            ev(dict(e="win", id=nid, par=par, off=W(off), size=W(size), rest=rest, ok=False, got=W(0)))
            return
        off = w.offset if off is None else off
        nodes[nid] = w
        ev(dict(e="win", id=nid, par=par, off=W(off), size=W(size), rest=rest, ok=True, got=W(w.size)))

    def reg(nid, sp, base, size, tr, off, f):
        ok = True
        try:
            f()
        except ValueError:
            ok = False
        ev(dict(e="reg", id=nid, sp=sp, base=W(base), size=W(size), tr=tr, off=W(off), ok=ok))

    for a in sc["acts"]:
        k = a[0]
        if k == "new":
            _, nid, kind, size, fails = a
            nodes[nid] = ax.AddressSpace(size) if kind == "space" else Leaf(size, nid, fails)
            new(nid, kind, size, fails)
            continue
        if a[1] not in nodes or (k in ("reg",) and a[2] not in nodes):
            continue
        if k == "reg":
            _, sp, nid, base, size, tr, off = a
            kw = {}
            if size is not None:
                kw["size"] = size
            if tr:
                kw["offset"] = None if tr == 2 else off
            reg(nid, sp, base, nodes[nid].size if size is None else size, tr, off, lambda: nodes[sp].register_region(nodes[nid], base, **kw))
        elif k == "win":
            _, par, nid, off, size = a
            rest = size is None or size <= 0
            win(nid, par, off, 0 if rest else size, rest, lambda: nodes[par].create_window(off) if size is None else nodes[par].create_window(off, size))
        elif k == "wpool":
            _, par, nid, off, size = a
            rest = size is None
            win(nid, par, off or 0, size or 0, rest, lambda: nodes[par].create_window_pool(**{x: y for x, y in (("offset", off), ("size", size)) if y is not None}))
        elif k == "awin":
            _, par, nid, size = a
            try:
                w = nodes[par].alloc_window(size)
            except Exception:
                continue
            nodes[nid] = w
            ev(dict(e="win", id=nid, par=par, off=W(w.offset), size=W(size), rest=False, ok=True, got=W(w.size)))
        elif k == "pool":
            _, sp, nid, base, size = a
            b = base or 0
            n = nodes[sp].size - b if size is None else size
            try:
                p = nodes[sp].create_pool(**{x: y for x, y in (("base", base), ("size", size)) if y is not None})
            except ValueError:
                ev(dict(e="reg", id=nid, sp=sp, base=W(b), size=W(n), tr=0, off=W(0), ok=False))
                continue
            nodes[nid] = p
            new(nid, "space", n)
            ev(dict(e="reg", id=nid, sp=sp, base=W(b), size=W(n), tr=0, off=W(0), ok=True))
        elif k == "areg":
            _, par, nid, size = a
            try:
                r = nodes[par].alloc_region(size, region_type=Leaf)
            except Exception:
                continue
            r.nid = nid
            nodes[nid] = r
            p0, r0 = nodes[par].get_absolute_address(0), r.get_absolute_address(0)
            new(nid, "leaf", size)
            base = r0 - p0 if p0 is not None and r0 is not None else next((x[0] for x in getattr(nodes[par], "regions", []) if r in x), 0)
            ev(dict(e="reg", id=nid, sp=par, base=W(base), size=W(size), tr=0, off=W(0), ok=True))
        elif k == "acc":
            _, nid, op, addr, n, kw, data = a
            calls.clear()
            e = dict(e="acc", id=nid, op=op, a=W(addr), n=n, kw=kws(kw), ok=True, d=data if op == "w" else [])
            try:
                if op == "r":
                    e["d"] = list(bytes(drive(nodes[nid].read(addr, n, **kw))))
                else:
                    drive(nodes[nid].write(addr, bytes(data), **kw))
            except Exception as ex:
                e["ok"] = False
                e["exc"] = type(ex).__name__ + str(ex)[:60]
            e["calls"] = list(calls)
            ev(e)
        elif k == "abs":
            _, nid, addr = a
            e = dict(e="abs", id=nid, a=W(addr), ok=True, none=True, v=W(0))
            try:
                r = nodes[nid].get_absolute_address(addr)
                e["none"] = r is None
                e["v"] = W(r or 0)
            except ValueError:
                e["ok"] = False
            ev(e)

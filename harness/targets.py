"""Memory targets behind the slave models: plain, slow and failing regions."""
from cocotb.triggers import RisingEdge, Timer


class Boom(Exception):
    pass


def fill(c):
    return bytes((x * 37 + (x // 256) * 11 + c["fill"]) % 256 for x in range(c["size"]))


def target(ax, clk, c, b, rng):
    """returns (target object, peek function, initial contents)"""
    size = c["size"]
    init = fill(c)
    delay = b.get("delay", [])

    async def dly():
        for _ in range(rng.choice(delay) if delay else 0):
            if rng.random() < .5:
                await RisingEdge(clk)
            else:
                await Timer(rng.choice([1, 3, 7, 12]), "ns")

    class DelayRegion(ax.MemoryRegion):
        async def _read(self, address, length, **kw):
            await dly()
            return await super()._read(address, length, **kw)

        async def _write(self, address, data, **kw):
            await dly()
            await super()._write(address, data, **kw)

    class FailRegion(ax.Region):
        async def _fail(self):
            await dly()
            raise rng.choice([Boom, ValueError, IndexError, KeyError, RuntimeError])("fail")

        async def _read(self, address, length, **kw):
            await self._fail()

        async def _write(self, address, data, **kw):
            await self._fail()

    parts = []
    if b["kind"] == "one":
        tgt = DelayRegion(size)
        parts.append((0, size, tgt.mem))
    else:
        tgt = ax.AddressSpace(b["span"])
        for base, sz, kind in b["regions"]:
            if kind == "mem":
                r = DelayRegion(sz)
                parts.append((base, sz, r.mem))
            else:
                r = FailRegion(sz)
            tgt.register_region(r, base)
    for base, sz, mem in parts:
        mem[0:sz] = init[base:base + sz]

    def peek():
        d = bytearray(init)
        for base, sz, mem in parts:
            d[base:base + sz] = mem[0:sz]
        return bytes(d)
    return tgt, peek, init

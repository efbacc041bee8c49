"""Memory objects and accessors (R01, R05), without a simulator."""
import mmap
from memlib import W, drive, memop, badslice
import cocotbext.axi as ax
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory


def build(sc):
    mems = []
    for m in sc["mems"]:
        mems.append(mmap.mmap(-1, m["size"]) if m["t"] == "mmap" else SparseMemory(m["size"]))
    objs = []
    for o in sc["objs"]:
        t = o["t"]
        if t == "sparse":
            x = mems[o["mem"]]
        elif t == "memory":
            x = Memory(mem=mems[o["mem"]]) if o["given"] else Memory(o["size"])
        elif t == "region":
            x = ax.MemoryRegion(o["size"], mem=mems[o["mem"]]) if o["given"] else ax.MemoryRegion(o["size"])
        elif t == "sregion":
            x = ax.SparseMemoryRegion(o["size"], mem=mems[o["mem"]]) if o["given"] else ax.SparseMemoryRegion(o["size"])
        elif t == "window":
            x = objs[o["of"]].create_window(o["off"], o["size"])
        elif t == "space":
            x = ax.AddressSpace(o["size"])
            for i, base in o["regs"]:
                x.register_region(objs[i], base)
        elif t == "pool":
            x = objs[o["of"]].create_pool(o["base"], o["size"])
            r = x.alloc_region(o["rsize"])
        elif t == "wpool":
            x = objs[o["of"]].create_window_pool(o["off"], o["size"])
        objs.append(x)
    return mems, objs


def run(sc, trace):
    mems, objs = build(sc)
    log = trace["ev"].append
    for i, op in sc["ops"]:
        d = sc["descr"][i]
        if op["k"] == "clr":
            objs[i].clear()
            log(dict(e="clr", m=op["m"]))
        elif op["k"] == "bad":
            drive(badslice(objs[i], op, log))
        else:
            drive(memop(objs[i], d["style"], op, log, i + 1))

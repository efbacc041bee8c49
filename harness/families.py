"""Which executions and which model checks decide which property."""
import gen_stream, gen_axi, gen_slave, gen_apb, gen_mem, gen_space, gen_small, gen_sys, gen_grid

STREAM = ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S10")
# property -> [(lite, number of executions)]
MASTER = dict(M01=[(False, 300)], M02=[(False, 300)], M03=[(False, 300)], M04=[(False, 200), (True, 120)],
              M05=[(False, 200), (True, 150)], M06=[(False, 200), (True, 150)], L01=[(True, 350)],
              S02=[(False, 150), (True, 100)])
SLAVE = dict(V01=[(False, 300)], V02=[(False, 300)], V03=[(False, 300)], V04=[(False, 200), (True, 120)], L02=[(True, 350)],
             S02=[(False, 120), (True, 100)])
APBM = dict(A01=300, A02=300, M04=120, M05=150, M06=120)
APBS = dict(A03=300, V04=150)


MEM = dict(R01=500, R05=500)
SYS = dict(R01=("Mem", 120), R05=("Mem", 120), E01=("Coh", 400))
SPACE = dict(R02=500, R03=500)
SMALL = dict(R04=("Alloc", 500), R06=("Periph", 400), S09=("Frame", 400))


def py(name, module, spec, gen, **kw):
    return dict(kind="py", name=name, module=module, signals=None, scenarios=gen[1], spec=spec, **kw)


def sim(name, module, spec, gen, **kw):
    sig, sc = gen
    return dict(kind="sim", name=name, module=module, signals=sig, scenarios=sc, spec=spec, **kw)


def jobs(pid, tier, seed):
    thorough = tier == "thorough"
    out = []
    meta = dict(assumptions=[])
    # a round: (seed, scale, deeper)
    rounds = [(seed, 1, False)] + ([("%s.%d" % (seed, k), 2, True) for k in range(1, 9)] if thorough else [])
    if pid in STREAM:
        for name, k, lines, holds in gen_stream.models(pid, thorough):
            out.append(dict(kind="mc", name=name, spec="StreamImpl", consts=k, lines=lines, holds=holds, timeout=900 if thorough else 200))
        for deep in ((False, True) if thorough else (False,)):
            sig, scs, info = gen_stream.cover(seed, pid, deep, None if thorough else 24000)
            out.append(sim("model_walks" + ("_deep" if deep else ""), "tb_stream", "StreamTrace", (sig, scs), graph=info, timeout=900 if thorough else 240))
    if pid in gen_axi.MODELS:
        for name, k, lines, holds in gen_axi.models(pid, thorough):
            out.append(dict(kind="mc", name=name, spec="MasterImpl", consts=k, lines=lines, holds=holds, timeout=900 if thorough else 200))
        for lite in (False, True):
            for deep in ((False, True) if thorough else (False,)):
                sig, scs, info = gen_axi.cover(seed, pid, deep, (200000 if deep else None) if thorough else 20000, lite)
                if scs:
                    out.append(sim(("axil" if lite else "axi") + "_model_walks" + ("_deep" if deep else ""), "tb_axi_master", "AxiMasterTrace", (sig, scs), graph=info,
                                   timeout=900 if thorough else 240))
    for k, (sd, m, deep) in enumerate(rounds):
        if pid in STREAM:
            g = gen_stream.scenarios(sd, pid, 300 * m, **(dict(n=140, nvar=10) if deep else {}))
            out.append(sim("stream%d" % k, "tb_stream", "StreamTrace", g))
        for lite, n in MASTER.get(pid, []):
            g = gen_axi.scenarios(sd, pid, n * m, lite=lite, **(dict(n=200, nvar=10) if deep else {}))
            out.append(sim("%s_master%d" % ("axil" if lite else "axi", k), "tb_axi_master", "AxiMasterTrace", g))
        for lite, n in SLAVE.get(pid, []):
            g = gen_slave.scenarios(sd, pid, n * m, lite=lite, **(dict(n=200, nvar=10) if deep else {}))
            out.append(sim("%s_slave%d" % ("axil" if lite else "axi", k), "tb_axi_slave", "AxiSlaveTrace", g))
        for role, tab, tb, sp in (("master", APBM, "tb_apb_master", "ApbMasterTrace"), ("slave", APBS, "tb_apb_slave", "ApbSlaveTrace")):
            if pid in tab:
                g = gen_apb.scenarios(sd, pid, tab[pid] * m, role=role, **(dict(n=200, nvar=10) if deep else {}))
                out.append(sim("apb_%s%d" % (role, k), tb, sp, g))
        if pid in MEM:
            out.append(py("mem%d" % k, "py_mem", "MemTrace", gen_mem.scenarios(sd, pid, MEM[pid] * m)))
        if pid in SYS:
            out.append(sim("system%d" % k, "tb_sys", SYS[pid][0] + "Trace", gen_sys.scenarios(sd, pid, SYS[pid][1] * m, **(dict(n=60) if deep else {}))))
        if pid in SPACE:
            out.append(py("space%d" % k, "py_space", "SpaceTrace", gen_space.scenarios(sd, pid, SPACE[pid] * m, **(dict(n=120) if deep else {}))))
        if pid in SMALL:
            out.append(py("small%d" % k, "py_small", SMALL[pid][0] + "Trace", gen_small.scenarios(sd, pid, SMALL[pid][1] * m)))
    for name, tb, spec, g in gen_grid.grids(seed, pid, thorough):
        for n in range(0, len(g[1]), 800):
            part = (g[0], g[1][n:n + 800])
            if g[0] is None:
                out.append(py(name, tb, spec, part, grid={name: g[2]}, timeout=900 if thorough else 240))
            else:
                out.append(sim(name, tb, spec, part, grid={name: g[2]}, timeout=900 if thorough else 240))
    if pid == "R04":
        out.append(py("all_histories", "py_small", "AllocTrace", gen_small.exhaustive(6 if thorough else 4)))
    if pid == "S09":
        out.append(py("all_frames", "py_small", "FrameTrace", gen_small.allframes(4 if thorough else 2, seed)))
    if not out:
        raise KeyError(pid)
    return out, meta


N_SAMPLED = ("Every recorded clock edge and API call of the explored executions is checked by TLC against the contract; "
             "executions are sampled (seeded), so absence of violations is not proof. Trusts the cocotb/Icarus scheduler and the recorder.")
T = dict(
    stream="TLA+ contract of a valid/ready stream (spec/Stream.tla)",
    master="TLA+ contract of an AXI/AXI-lite master (spec/AxiMaster.tla)",
    slave="TLA+ contract of an AXI/AXI-lite slave over a memory (spec/AxiSlave.tla)",
    apbm="TLA+ contract of an APB master (spec/ApbMaster.tla)",
    apbs="TLA+ contract of an APB slave (spec/ApbSlave.tla)")
T.update(
    sys="TLA+ contract of masters and RAMs over one memory (spec/Coh.tla)",
    mem="TLA+ contract of a byte array and its word accessors (spec/Mem.tla)",
    space="TLA+ contract of address routing, windows and absolute addresses (spec/Space.tla)",
    alloc="TLA+ contract of an allocator (spec/Alloc.tla), also on all histories of small pools up to a depth",
    periph="TLA+ contract of a region around a user object (spec/Periph.tla)",
    frame="TLA+ contract of frame objects (spec/Frame.tla), also on all small frames over {0,1}")
FAMS = [("sys", ["E01"]), ("mem", MEM), ("space", SPACE), ("alloc", ["R04"]), ("periph", ["R06"]), ("frame", ["S09"]),
        ("stream", STREAM), ("master", MASTER), ("slave", SLAVE), ("apbm", APBM), ("apbs", APBS)]
NOTES = {}
for p in sorted({p for _, t in FAMS for p in t}):
    NOTES[p] = ("; ".join(T[f] for f, t in FAMS if p in t) +
                "; TLC validates recorded executions of the real code against an independent bus partner event by event", N_SAMPLED)

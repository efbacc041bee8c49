"""In-simulation helpers: trace recorder, pin access, scenario loop."""
import atexit, json, logging, os, sys
import cocotb
from cocotb.triggers import RisingEdge, FallingEdge, Timer, Edge
from cocotb.utils import get_sim_time
from cocotb.regression import TestFactory

PERIOD = 10  # ns

logging.getLogger("cocotb.top").setLevel(logging.CRITICAL + 1)
logging.getLogger("cocotb.regression").setLevel(logging.INFO)

SCEN = json.load(open(os.environ["VERIF_SCEN"]))
_out = open(os.environ["VERIF_OUT"], "w")


def now():
    return int(get_sim_time("ns"))


def quiet(*objs):
    pass


class Rec:
    def __init__(self, n, cfg):
        self.n = n
        self.ev = []
        self.trace = dict(cfg=cfg, ev=self.ev)
        self.flushed = False
        _out.write(json.dumps(dict(begin=True, n=n)) + "\n")
        _out.flush()

    def log(self, e, **kw):
        kw["e"] = e
        self.ev.append(kw)

    def flush(self):
        if not self.flushed:
            self.flushed = True
            _out.write(json.dumps(dict(n=self.n, trace=self.trace)) + "\n")
            _out.flush()


def iv(sig):
    """value of a signal, or -1 if it is not fully defined"""
    v = sig.value
    try:
        return int(v)
    except ValueError:
        return -1


class Hang(Exception):
    pass


def factory(run):
    """Create one cocotb test per scenario; run(dut, rec, scenario)."""
    async def scenario(dut, n):
        sc = SCEN[n]
        rec = Rec(n, sc.get("cfg", {}))
        try:
            await run(dut, rec, sc)
        finally:
            rec.flush()
    tf = TestFactory(scenario)
    tf.add_option("n", list(range(len(SCEN))))
    return tf   # the caller generates the tests in its own module


def bytes_of(v, n):
    return list(int(v).to_bytes(n, "little"))

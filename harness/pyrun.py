"""Runs scenarios of a simulator-free harness module: python -m pyrun <module>."""
import importlib, json, os, sys, traceback
mod = importlib.import_module(sys.argv[1])
scen = json.load(open(os.environ["VERIF_SCEN"]))
out = open(os.environ["VERIF_OUT"], "w")
for n, sc in enumerate(scen):
    trace = dict(cfg=sc.get("cfg", {}), ev=[])
    err = None
    try:
        mod.run(sc, trace)
    except Exception:
        err = "exception: " + traceback.format_exc()[-1500:]
    out.write(json.dumps(dict(n=n, trace=trace, error=err)) + "\n")
    out.flush()

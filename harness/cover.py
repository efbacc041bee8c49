"""Schedules that walk the labelled state graph of a TLA+ model.

graph(spec, constants) lets TLC enumerate the graph (its VIEW merges states that differ only in data);
tours(graph, ...) computes walks from the initial state that together take every transition."""
import os, random, re, shutil, subprocess, tempfile
from collections import deque
import core


def cfg_text(consts, lines=()):
    def val(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, frozenset, list, tuple)):
            return "{" + ", ".join(val(x) for x in sorted(v)) + "}"
        return '"%s"' % v if isinstance(v, str) else str(v)
    return "\n".join(lines) + "\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(" %s = %s\n" % (k, val(v)) for k, v in consts.items())


def mc_cfg(consts, lines):
    """path of a configuration file"""
    d = tempfile.mkdtemp(prefix="mc", dir=core.scratch())
    with open(d + "/mc.cfg", "w") as f:
        f.write(cfg_text(consts, lines))
    return d + "/mc.cfg"


def label(spec, consts):
    return spec + " " + ", ".join("%s=%s" % (k, "+".join(map(str, v)) if isinstance(v, list) else v) for k, v in consts.items() if not (v is False or v == 0 or v == [] or v == "") and k != "Judge")


def graph(spec, consts, view="CoverView", timeout=300):
    """-> (initial node, {node: [(action, node)...]}, distinct states)"""
    d = tempfile.mkdtemp(prefix="cov", dir=core.scratch())
    with open(d + "/cover.cfg", "w") as f:
        f.write(cfg_text(consts, ["SPECIFICATION Spec"] + (["VIEW " + view] if view else [])))
    r = core.tlc(spec + ".tla", d + "/cover.cfg", args=["-dump", "dot,actionlabels", d + "/g.dot"], workers=1, timeout=timeout, heap="4g")
    if not r["ok"]:
        raise core.MachineryError("TLC could not enumerate %s: %s" % (spec, r["out"][-2000:]))
    succ, init = {}, None
    edge = re.compile(r'^(-?\d+) -> (-?\d+) \[label="([^"]+)"')
    node = re.compile(r'^(-?\d+) \[label=.*style = filled')
    with open(d + "/g.dot") as f:
        for line in f:
            m = edge.match(line)
            if m:
                succ.setdefault(m.group(1), set()).add((m.group(3), m.group(2)))
            elif init is None:
                m = node.match(line)
                if m:
                    init = m.group(1)
    shutil.rmtree(d, ignore_errors=True)
    return init, {k: sorted(v) for k, v in succ.items()}, r["distinct"]


def tours(g, rng, maxlen=150, budget=None, prefer=()):
    """Walks [(action...)...] from the initial node covering all edges, or as many as `budget` steps allow.
    Returns (walks, covered edges, all edges)."""
    init, succ, _ = g
    todo = {n: [e for e in es] for n, es in succ.items()}
    for n in sorted(todo):
        rng.shuffle(todo[n])
    total = sum(len(v) for v in todo.values())
    left = total
    walks, steps = [], 0

    def nearest(n, limit):
        """shortest path from n to a node with an uncovered edge"""
        if todo.get(n):
            return []
        seen = {n: None}
        q = deque([(n, 0)])
        while q:
            x, dist = q.popleft()
            if dist >= limit:
                return None
            for a, y in succ.get(x, ()):
                if y in seen:
                    continue
                seen[y] = (x, a)
                if todo.get(y):
                    path = []
                    while seen[y] is not None:
                        x0, a0 = seen[y]
                        path.append((a0, y))
                        y = x0
                    return path[::-1]
                q.append((y, dist + 1))
        return None

    while left and (budget is None or steps < budget):
        n, walk = init, []
        while len(walk) < maxlen:
            p = nearest(n, maxlen)
            if p is None:
                break
            for a, y in p:
                walk.append(a)
                n = y
            if todo.get(n):
                a, y = todo[n].pop()
                left -= 1
                walk.append(a)
                n = y
        if not walk:
            break
        walks.append(walk)
        steps += len(walk)
    return walks, total - left, total

"""Scenarios for address spaces, windows and pools (R02, R03)."""
import random


def scenario(rng, prop, n):
    size, kind, regs, under = {}, {}, {}, {}   # per node; under[n]: nodes below n (no cycles)
    acts = []
    cnt = [0]
    edge = {}                                   # interesting addresses per node
    topdown = rng.random() < .5

    def nid():
        cnt[0] += 1
        return cnt[0]

    def new(k, s, fails=False):
        i = nid()
        acts.append(["new", i, k, s, fails])
        size[i], kind[i], regs[i], under[i], edge[i] = s, k, [], set(), [0, s]
        return i
    SZ = [1, 3, 16, 16, 64, 100, 256, 4096, 2**16]
    top = new("space", rng.choice([256, 4096, 2**16, 2**32, 2**48, 2**64]))
    if not topdown:
        for _ in range(rng.randint(1, 4)):
            new("leaf", rng.choice(SZ))

    def spaces():
        return [i for i in size if kind[i] == "space" and i != 0]

    def place(sp, s):
        """a base for a region of size s: adjacent, apart or overlapping"""
        used = sorted((b, b + z) for b, z in regs[sp])
        r = rng.random()
        c = [0, size[sp] - s] + [e for _, e in used] + [b - s for b, _ in used] + [rng.randrange(max(1, size[sp] - s + 1))]
        if r < .15:
            b = rng.choice(c) + rng.choice([-1, 1, s // 2, -(s // 2)])
        else:
            b = rng.choice(c)
        if not 0 <= b or b + s > size[sp]:
            return rng.choice([-1, size[sp]]) if rng.random() < .1 else None
        return b

    def register(sp, x, s, tr, off):
        b = place(sp, s if s is not None else size[x])
        z = size[x] if s is None else s
        if b is None or b + z > size[sp] and 0 <= b < size[sp]:
            return
        if tr == 2 and b + z > size[x]:
            return
        acts.append(["reg", sp, x, b, s, tr, off])
        if 0 <= b < size[sp] and not any(b < e0 + e1 and e0 < b + z for e0, e1 in regs[sp]):
            regs[sp].append((b, z))
            edge[sp] += [b, b + z]
            for i in size:
                if i == sp or sp in under[i]:
                    under[i] |= {x} | under[x]

    for _ in range(n):
        r = rng.random()
        if r < .07:
            new("leaf", rng.choice(SZ), rng.random() < .08)
        elif r < .10:
            new("space", rng.choice([64, 256, 1024, 4096]))
        elif r < .30:
            sp = rng.choice(spaces())
            if rng.random() < .2:           # a region that is given untranslated addresses
                b = place(sp, rng.choice([1, 8, 16, 64]))
                x = new("leaf", size[sp])
                z = rng.choice([1, 4, 16, 64])
                acts.append(["reg", sp, x, b, z, 2, 0]) if b is not None and 0 <= b and b + z <= size[sp] else None
                if acts[-1][0] == "reg" and not any(b < e0 + e1 and e0 < b + z for e0, e1 in regs[sp]):
                    regs[sp].append((b, z))
                    edge[sp] += [b, b + z, b, b + z]
                    for i in size:
                        if i == sp or sp in under[i]:
                            under[i] |= {x}
                continue
            c = [i for i in size if kind[i] in ("leaf", "space") and i != sp and i != top and sp not in under[i] and size[i] <= size[sp]]
            if c:
                x = rng.choice(c)
                v = rng.random()
                if v < .6:
                    register(sp, x, None, 0, 0)
                elif v < .7:
                    register(sp, x, rng.randint(1, size[x]), 0, 0)
                elif v < .9:
                    s = rng.randint(1, size[x])
                    register(sp, x, s, 1, rng.choice([size[x] - s, rng.randint(0, size[x] - s), min(16, size[x] - s)]))
                else:
                    register(sp, x, None if v < .95 else rng.randint(1, size[x]), 2, 0)
        elif r < .40:
            p = rng.choice(list(size))
            off = rng.choice([0, size[p] // 2, rng.randrange(size[p]), size[p] - 1] + [e for e in edge[p]])
            s = rng.choice([None, 1, 16, 64, rng.randint(1, size[p]), 0, size[p] - off, size[p] - off + 1])
            if rng.random() < .1:
                off = rng.choice([-1, size[p], size[p] + 5])
            z = size[p] - off if s is None or s <= 0 else s
            i = nid()
            wp = rng.random() < .3 and z <= 2**16
            if wp and s is not None and s <= 0:
                s = z = 16
            acts.append(["wpool" if wp else "win", p, i, off, s])
            if 0 <= off < size[p] and off + z <= size[p]:
                size[i], kind[i], regs[i], under[i] = z, "wpool" if wp else "win", [], {p} | under[p]
                edge[i] = [0, z] + [e - off for e in edge[p] if 0 <= e - off <= z]
        elif r < .44:
            sp = rng.choice(spaces())
            z = rng.choice([16, 64, 256, 1000])
            b = place(sp, z)
            if b is not None and 0 <= b and b + z <= size[sp]:
                i = nid()
                acts.append(["pool", sp, i, b, z])
                if not any(b < e0 + e1 and e0 < b + z for e0, e1 in regs[sp]):
                    size[i], kind[i], regs[i], under[i], edge[i] = z, "pool", [], set(), [0, z]
                    regs[sp].append((b, z))
                    edge[sp] += [b, b + z]
                    for j in size:
                        if j == sp or sp in under[j]:
                            under[j] |= {i}
        elif r < .50:
            c = [i for i in size if kind[i] in ("wpool", "pool")]
            if c:
                p = rng.choice(c)
                i = nid()
                z = rng.randint(1, min(size[p], 40))
                acts.append(["awin" if kind[p] == "wpool" else "areg", p, i, z])
                size[i], kind[i], regs[i], under[i], edge[i] = z, "aw" if kind[p] == "wpool" else "al", [], {p}, [0, z]
                if kind[p] == "pool":
                    under[i] = set()
        elif r < (.65 if prop == "R02" else .8):
            i = rng.choice(list(size))
            acts.append(["abs", i, rng.choice([0, size[i] - 1, size[i] // 2, size[i], -1] if rng.random() < .3 else [0, rng.randrange(size[i])])])
        else:
            i = rng.choice([top] * 2 + list(size)) if prop == "R02" else rng.choice(list(size))
            ln = rng.choice([0, 1, 1, 2, 4, 16, 40, rng.randint(1, 120)])
            a = rng.choice(edge[i]) + rng.choice([0, 0, -1, -ln, 1, -ln // 2, rng.randint(-8, 8)])
            if rng.random() < .1:
                a = rng.choice([-1, size[i], size[i] - 1, rng.randrange(size[i])])
            kw = rng.choice([{}, {}, dict(x=1), dict(prot=2, size=3)])
            op = rng.choice("rw")
            acts.append(["acc", i, op, a, ln, kw, [rng.getrandbits(8) for _ in range(ln)] if op == "w" else []])
    return dict(cfg=dict(P=prop), acts=acts, seed=rng.randrange(1, 2**30))


def scenarios(seed, prop, count, n=70):
    rng = random.Random("space/%s/%s" % (seed, prop))
    return None, [scenario(rng, prop, rng.choice([n // 2, n, n * 2])) for _ in range(count)]

"""Shared by the simulator-free and the in-simulator memory checks."""
M24 = 2**24 - 1


def W(x):
    return [x >> 48, (x >> 24) & M24, x & M24]


def drive(coro):
    """run a coroutine that never really suspends"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("suspended outside the simulator")


def words_bytes(ws, be, words):
    return [list(int(w).to_bytes(ws, "little")) for w in words]


def scribble(buf):
    if isinstance(buf, bytearray):
        for i in range(len(buf)):
            buf[i] ^= 0xa5


KINDS = dict(byte=1, word=2, dword=4, qword=8)


async def memop(obj, style, op, log, oi):
    """one operation through one accessor of obj; style: 'async' (MemoryInterface), 'sync' (Memory), 'sparse'
    op: dict(k=accessor, a, n | cnt, ws, be, d | w, slice)"""
    async def call(f, *a, **kw):
        r = f(*a, **kw)
        if style == "async":
            r = await r
        return r
    k, kind = op["k"], op.get("kind", "raw")
    ev = dict(o=oi, a=W(op["a"]), ok=True, words=kind not in ("raw", "item", "slice"), d=[], w=[], ws=1, be=False, cnt=0, n=0)
    if not ev["words"]:
        ev["n"] = op["n"] if k == "rd" else len(op["d"])
        ev["d"] = op.get("d", [])
    else:
        ws = op["ws"]
        ev.update(ws=ws, be=op["be"], cnt=op["cnt"], n=ws * op["cnt"], w=op.get("w", []))
    kw = dict(op.get("kw", {}))
    if ev["words"]:
        base, plural = (kind[:-1], True) if kind.endswith("s") else (kind, False)
        if base != "byte":
            if op["be"] or op.get("bo"):
                kw["byteorder"] = "big" if op["be"] else "little"
            if base == "word" and (op["ws"] != 2 or op.get("bo")):
                kw["ws"] = op["ws"]
        vals = [int.from_bytes(bytes(w), "little") for w in op.get("w", [])]
    try:
        if k == "rd":
            if kind == "raw":
                r = await call(obj.read, op["a"], op["n"], **kw)
                ev["d"] = list(bytes(r))
                scribble(r)
            elif kind == "item":
                ev["d"] = [int(obj[op["idx"]])]
            elif kind == "slice":
                r = obj[slice(*op["sl"])]
                ev["d"] = list(r)
                scribble(r)
            else:
                f = getattr(obj, "read_" + kind)
                r = await (call(f, op["a"], op["cnt"], **kw) if plural else call(f, op["a"], **kw))
                r = list(r) if plural else [r]
                try:
                    ev["w"] = [list(int(x).to_bytes(op["ws"], "little")) for x in r]
                except OverflowError:
                    ev["w"] = []
        else:
            if kind == "raw":
                d = bytes(op["d"])
                buf = dict(b=bytes, a=bytearray)[op.get("ty", "b")](d)
                await call(obj.write, op["a"], buf, **kw)
                scribble(buf)       # the caller's buffer is its own again
            elif kind == "item":
                obj[op["idx"]] = op["d"][0]
            elif kind == "slice":
                buf = dict(b=bytes, a=bytearray)[op.get("ty", "b")](op["d"])
                obj[slice(*op["sl"])] = buf
                scribble(buf)
            else:
                f = getattr(obj, "write_" + kind)
                await (call(f, op["a"], vals, **kw) if plural else call(f, op["a"], vals[0], **kw))
    except (ValueError, IndexError, TypeError, Exception) as ex:
        ev["ok"] = False
        ev["exc"] = type(ex).__name__ + ": " + str(ex)[:80]
        if k == "rd":
            ev["d"], ev["w"] = [], []
    ev["e"] = k
    log(ev)


async def badslice(obj, op, log):
    """a slice assignment that must be rejected"""
    ok = True
    try:
        obj[slice(*op["sl"])] = bytes(op["d"])
    except Exception:
        ok = False
    log(dict(e="rej", ok=ok, what="slice assignment of a wrong length"))


def word(rng, ws):
    """bytes of a word, least significant first; small, sparse and extreme values often"""
    r = rng.random()
    if r < .35:
        n = rng.randint(0, ws)
        return [rng.getrandbits(8) for _ in range(n)] + [0] * (ws - n)
    if r < .45:
        return [rng.choice([0, 255, 1, 128])] * ws
    return [rng.getrandbits(8) if rng.random() < .8 else rng.choice([0, 255]) for _ in range(ws)]


def gen_op(rng, o, hot, prop):
    """a random operation on object description o (dict(size, ext: accessible (lo, hi) ranges, style, items))"""
    size = o["size"]
    k = rng.choice(["rd", "wr"])
    a = rng.choice(hot) + rng.randint(-40, 40)
    if rng.random() < .1:
        a = rng.choice([0, size - 1, size, -1, size - rng.randint(1, 20), rng.randrange(size)])
    r = rng.random()
    acc = prop == "R05" and r < .85 or r < .2
    if o["style"] == "sparse":
        acc = False
    if acc:
        kind = rng.choice(["byte", "word", "words", "words", "dword", "dwords", "qword", "qwords"])
        base = kind.rstrip("s")
        ws = KINDS[base]
        if base == "word":
            ws = rng.choice([2, 2, 2, 1, 3, 4, 5, 8, 11])
        cnt = rng.choice([0, 1, 1, 2, 3, rng.randint(1, 9)]) if kind.endswith("s") else 1
        op = dict(k=k, kind=kind, a=a, ws=ws, be=base != "byte" and rng.random() < .5, bo=int(rng.random() < .3), cnt=cnt)
        n = ws * cnt
        if k == "wr":
            op["w"] = [word(rng, ws) for _ in range(cnt)]
    else:
        n = rng.choice([0, 1, 2, 3, 8, rng.randint(1, 80), rng.randint(1, 80)])
        if o.get("big") and rng.random() < .03:
            n = rng.choice([4096, 4097, 8200])
            a = rng.choice(hot)
        op = dict(k=k, kind="raw", a=a, n=n, ty=rng.choice("ba"))
        if k == "wr":
            op["d"] = [rng.getrandbits(8) for _ in range(n)]
    if o.get("clamp"):      # slices of these objects clamp instead of rejecting: stay inside
        if a < 0 or a >= size or a + n > size:
            n = min(n, size)
            return None
    if n == 0 and not 0 <= a < size:
        return None
    if o.get("items") and not acc and 0 <= a < size and a + n <= size and rng.random() < .4:
        if n == 1 and rng.random() < .5 and a < 2**62:
            op.update(kind="item", idx=a)
        elif size < 2**62 or o.get("bigslice"):
            s0, s1 = a, a + n
            v = rng.random()
            if v < .25 and s0 > 0:
                s0 -= size
            if v > .75 and s1 < size and s1 - size < 0:
                s1 -= size
            if n == 0:
                s0, s1 = a, a
            op.update(kind="slice", sl=[s0, s1] + ([1] if rng.random() < .1 else []))
    return op

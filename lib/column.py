"""C01-C05, C19: column encoders."""
from core import *

WIDTH = {"i32": 4, "i64": 8, "u64": 8, "f64": 8, "bin": 0}
PRIMS = ["i32", "i64", "u64", "f64"]
BUGS = ["whole_values_only", "remaining_values_only", "count_instead_of_bytes",
        "forget_nulls_after_topup", "keep_remaining", "absolute_row_count", "relative_end",
        "forget_trailing_nulls", "flush_counts_all_rows"]
INVS = {"C01": ["Values", "Prefix"], "C02": ["Values", "Prefix"], "C03": ["Validity"],
        "C04": ["RowIds"], "C05": ["Sizes"], "C19": ["Canonical"]}


def events(o):
    if o.get("crash"):
        return 2
    return 2 + len(o["ev"])


def events19(o):
    return 2


def enc_cfg(items, rows, bufs, sizes, bug="none", emit=False, invs=(), props=(), faults=False):
    return cfg({"Faults": "TRUE" if faults else "FALSE", "Items": tla_set(items), "MaxRows": rows, "MaxBufs": bufs,
                "BlockSizes": tla_set(sizes), "Bug": f'"{bug}"',
                "Emit": "TRUE" if emit else "FALSE"},
               ["TypeOK", *invs], props)


def to_runs(buf):
    out = []
    for x in buf:
        r = [0, 1, 0] if x == 99 else [1, 1, x]
        if out and out[-1][0] == r[0] and out[-1][2] == r[2]:
            out[-1][1] += 1
        else:
            out.append(r)
    return out


# ---- random columns ---------------------------------------------------------
def around(rng, x):
    return max(0, x + rng.choice([-1, 0, 0, 1, rng.randrange(-9, 10)]))


NOTABLE = [1, 2, 3, 7, 8, 9, 16, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 383, 384, 385,
           511, 512, 513, 1023, 1024, 1025, 2047, 2049]


def rand_rows(rng, kind, nullable, n_runs, big=False):
    """rows as runs, with a null structure and value lengths that vary"""
    runs = []
    style = rng.choice(["mixed", "single", "blocks", "sparse", "dense"])
    lenstyle = rng.choice(["small", "zeroes", "same", "wide", "outlier"])
    base = rng.choice([0, 1, 2, 3, 5, 8, 15, 16, 100])
    for _ in range(n_runs):
        null = nullable and rng.random() < {"mixed": .5, "single": .5, "blocks": .5,
                                            "sparse": .8, "dense": .15}[style]
        if style == "single":
            n = rng.choice([1, 1, 1, 2])
        elif style == "blocks":
            n = around(rng, rng.choice(NOTABLE)) if big else rng.randrange(1, 40)
        else:
            n = rng.choice([1, 1, 2, 3, 7, 8, 9, rng.randrange(1, 30)])
        n = max(n, 1)
        if null:
            if rng.random() < .1:
                n = around(rng, rng.choice([8, 16, 24, 64, 128, 1024, 8192, 16384] if big
                                           else [8, 16, 24, 64, 128])) or 1
            runs.append([0, n, 0])
        elif kind != "bin":
            runs.append([1, n, 0])
        else:
            l = {"small": lambda: rng.randrange(0, 6), "zeroes": lambda: rng.choice([0, 0, 0, 1]),
                 "same": lambda: base, "wide": lambda: rng.choice([0, 1, 7, 8, 100, 127, 128, 255, 256, 300]),
                 "outlier": lambda: rng.choice([0, 1, 1, 2, 2, 3, 1000])}[lenstyle]()
            runs.append([1, n, l])
    return runs


def split(rng, runs, k):
    """cuts the rows into k buffers (some may be empty)"""
    total = sum(r[1] for r in runs)
    cuts = sorted(rng.choice([rng.randrange(0, total + 1), rng.choice([0, total, rng.randrange(0, total + 1)])])
                  for _ in range(k - 1))
    bufs, cur, pos, ci = [], [], 0, 0
    cuts = cuts + [total]
    for r in runs:
        n, left = r[1], r[1]
        while left > 0:
            while cuts[ci] == pos:
                bufs.append(cur)
                cur = []
                ci += 1
                if ci == len(cuts):
                    break
            take = min(left, cuts[ci] - pos)
            cur.append([r[0], take, r[2]])
            left -= take
            pos += take
    while ci < len(cuts):
        bufs.append(cur)
        cur = []
        ci += 1
    return bufs


def nbytes(kind, runs):
    return sum(r[1] * (r[2] if kind == "bin" else WIDTH[kind]) for r in runs if r[0] == 1)


def pick_bs(rng, kind, runs):
    total = nbytes(kind, runs)
    w = WIDTH[kind] or 1
    c = rng.random()
    if c < .02:
        return rng.choice([(1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 8, 3 << 30])
    if c < .25:
        bs = rng.randrange(1, 40)
    elif c < .5:
        bs = total // rng.choice([1, 2, 3, 5, 10]) + rng.choice([-1, 0, 1])
    elif c < .75:
        bs = around(rng, w * rng.choice(NOTABLE))
    else:
        bs = rng.randrange(1, total + 10)
    bs = max(bs, 1)
    # a bounded number of blocks
    return max(bs, total // 60, 1)


def rand_column(rng, kind, nullable=None, big=False, raw=False):
    if nullable is None:
        nullable = rng.random() < .7
    runs = rand_rows(rng, kind, nullable, rng.randrange(1, 40 if not raw else 12), big)
    if raw:
        runs = [[r[0], min(r[1], 20), min(r[2], 12)] for r in runs]
    k = rng.choice([1, 1, 2, 3, 4, 6, 10])
    bufs = split(rng, runs, k)
    c = {"kind": kind, "nullable": nullable, "bs": pick_bs(rng, kind, runs), "seed": rng.randrange(1 << 30),
         "bufs": bufs, "reuse": rng.random() < .5, "raw": raw}
    if rng.random() < .3:
        c["other"] = other_column(rng, kind, c)
    return c


def other_column(rng, kind, c):
    """another column in the same process: given up before, written in turns, at the same time or in another thread"""
    nullable = rng.choice([c["nullable"], c["nullable"], True, False])
    runs = rand_rows(rng, kind, nullable, rng.randrange(1, 12), rng.random() < .2)
    o = {"bufs": split(rng, runs, rng.choice([1, 2, 3, 5])), "nullable": nullable,
         "bs": rng.choice([c["bs"], c["bs"], pick_bs(rng, kind, runs)]), "seed": rng.randrange(1 << 30),
         "mode": rng.choice(["before", "before", "turns", "together", "together", "thread", "roving"]), "flush": rng.random() < .4}
    # a bounded number of blocks
    o["bs"] = max(o["bs"], nbytes(kind, runs) // 200)
    if rng.random() < .2:
        o["fail"] = rng.randrange(3)
    return o


def exact_column(rng, kind, nullable):
    """buffers whose sizes make what is held back meet block boundaries exactly"""
    w = WIDTH[kind]
    per = rng.choice([1, 2, 3, 4, 5, 127, 128, 129, 256])
    ln = rng.choice([1, 1, 2, 3, 20])
    size = per * (w or ln)
    bs = max(1, size + rng.choice([-1, 0, 0, 0, 1, -(w or ln) + 1]))
    bufs = []
    for _ in range(rng.randrange(2, 7)):
        buf = []
        for _ in range(rng.randrange(0, 4)):
            if nullable and rng.random() < .5:
                buf.append([0, rng.choice([1, 2, 7, 8, 9, 24]), 0])
            n = rng.choice([1, per - 1, per, per + 1, 2 * per, per // 2])
            if n > 0:
                buf.append([1, n, ln])
                if kind == "bin" and rng.random() < .3:
                    buf.append([1, rng.choice([1, 2, 130]), 0])
        if nullable and rng.random() < .4:
            buf.append([0, rng.choice([1, 3, 8, 30]), 0])
        bufs.append(buf)
    return {"kind": kind, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30), "bufs": bufs,
            "reuse": rng.random() < .5}


def large_columns(rng, kind, thorough):
    """sizes at which counters, headers and buffers change their form"""
    w = WIDTH[kind]
    out = []

    def add(bufs, bs, nullable, reuse=False):
        out.append({"kind": kind, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30),
                    "bufs": bufs, "reuse": reuse})
        if sum(r[1] for b in bufs for r in b) > 1 << 26:
            out[-1]["patience"] = 240

    for nullable in (False, True):
        for n in [8191, 8192, 8193, 16383, 16384, 16385, 40000, 65535, 65536, 65537]:
            nul = lambda k: [[0, k, 0]] if nullable else []
            # one block, many blocks, and two buffers that meet in one block
            add([[[1, n, 2]] + nul(5)], n * (w or 2), nullable)
            if n < 20000 or thorough:
                add([nul(3) + [[1, n, 1]], [[1, 7, 1]] + nul(n)], 1 << 17, nullable)
                add([nul(n) + [[1, 3, 1]] + nul(n) + [[1, 2, 1]], [[1, n, 1]]], 5000, nullable, True)
        # longer buffers before shorter ones, in the same buffer
        add([[[1, 20000, 3]] + ([[0, 9000, 0]] if nullable else []), [[1, 10, 3]], [[1, 20000, 3]]],
            30000, nullable, True)
        # the block size segments use
        add([[[1, 50000, 9]], [[1, 50000, 9]]], 1 << 17, nullable)
    if nullable_ok():
        for n in [1 << 16, (1 << 20) + 3, 1 << 21, (1 << 24) + 3] \
                + ([1 << 23, (1 << 27) + 9, (1 << 29) + 5] if thorough else []):
            add([[[1, 2, 2], [0, n, 0], [1, 1, 2]], [[0, n, 0]], [[1, 3, 2]]], 8, True)
    if kind == "bin":
        for l in [127, 128, 255, 256, 16383, 16384, 65535, 65536, 70000, (1 << 20) + 1, (1 << 21) - 1, 1 << 21]:
            add([[[1, 1, l], [1, 2, 0], [1, 1, 3]], [[1, 2, l]]], 1 << 17, False)
            add([[[1, 140, 1], [1, 1, l], [0, 3, 0], [1, 140, 2]]], 100, True)
            if l < 100000:
                add([[[1, 1, l], [0, 1, 0], [1, 1, l], [0, 1, 0]], [[1, 3, l - 1]]], 2 * l, True)
        for l in [(1 << 24) + 1] if not thorough else [(1 << 24) - 1, 1 << 24, 1 << 25]:
            add([[[1, 1, l], [1, 2, 0], [1, 1, 3]], [[1, 2, 3]]], 1 << 17, False)
        # widths of the packed lengths that differ between groups of 128
        for a, b in [(1, 300), (300, 1), (0, 5), (5, 0), (0, 0), (2, 65536)]:
            for n in (127, 128, 129, 256):
                add([[[1, n, a], [1, 1, b], [1, n, a], [0, 2, 0], [1, 1, 1]]], 1 << 17, True)
                add([[[1, n, a], [1, 1, b], [1, n, a], [1, 1, 1]]], 1 << 17, False)
    return out


def edge_sizes(rng, kind):
    """block sizes at the ends of integer types: everything is one block"""
    w = WIDTH[kind]
    sizes = [(1 << 31) + d for d in (-9, -1, 0, 1, 7)] + [(1 << 32) - d for d in (1, 2, 3, 4, 5, 7, 8, 9)]
    if w:    # these encoders take a size of the machine's word
        sizes += [(1 << 32) + d for d in (0, 1, 3, 4, 7, 8, 15, 16, 40)] + [(1 << 33) + d for d in (0, 8, 17)]
    out = []
    for bs in sizes:
        nullable = rng.random() < .5
        runs = rand_rows(rng, kind, nullable, rng.randrange(1, 8))
        out.append({"kind": kind, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30),
                    "bufs": split(rng, runs, rng.choice([1, 2, 3, 4])), "reuse": rng.random() < .5})
    return out


def many_blocks(rng, kind):
    """buffers of very many blocks next to small ones"""
    nullable = rng.random() < .6
    w = WIDTH[kind]
    ln = rng.choice([1, 1, 2, 3, 8])
    bs = rng.choice([1, 3, 4, 5, 8, 9, 13, 16, 17, 24, 32, 64, 100])
    per = -(-bs // (w or ln))
    bufs = []
    for _ in range(rng.randrange(2, 5)):
        if rng.random() < .5:
            blocks = rng.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513])
            n = blocks * per + rng.choice([-1, 0, 0, 1, per // 2])
        else:
            n = rng.choice([1, 1, 2, per - 1, per, per + 1])
        buf = []
        while n > 0:
            k = n if rng.random() < .4 else rng.randrange(1, n + 1)
            if nullable and rng.random() < .5:
                buf.append([0, rng.choice([1, 2, 7, 8, 9, 64]), 0])
            buf.append([1, k, ln])
            n -= k
        if nullable and rng.random() < .4:
            buf.append([0, rng.choice([1, 3, 8, 30]), 0])
        bufs.append(buf)
    return {"kind": kind, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30), "bufs": bufs,
            "reuse": rng.random() < .5}


def many_buffers(rng, kind, T=False):
    """columns of very many buffers, and of very many blocks"""
    w = WIDTH[kind]
    ln = rng.choice([0, 1, 2, 3])
    out = []

    def add(bufs, bs, nullable, merge):
        out.append({"kind": kind, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30), "bufs": bufs,
                    "reuse": rng.random() < .6, "merge": merge})
    val = lambda n=1: [1, n, ln]
    for n in [255, 256, 257, 300, 1000, 1023, 1024, 1025, 4100] + ([20000, 65535, 65536, 65537] if T else []):
        for part in ([[val()]], [[val(3)], []], [[[0, 1, 0]], [val()]], [[[0, 2, 0], val(), [0, 1, 0]]], [[val(), [0, 3, 0], val()]]):
            nullable = any(r[0] == 0 for b in part for r in b)
            vals = n * sum(r[1] for b in part for r in b if r[0])
            size = max(1, vals * (w or ln))
            bs = max(1, rng.choice([size, size + 1, size // 2, size // 3 + 1, size // 7, size // 40 + 1]))
            add([{"times": n, "bufs": part}] + rng.choice([[], [[val(2)]], [[val(vals)]]]), bs, nullable or rng.random() < .5,
                rng.choice([n, n // 2, n // 3 + 1]))
    # 2^16 and more buffers, without values, with one each, in one block and in many
    n = (1 << 16) + rng.choice([1, 2, 50])
    size = n * (w or 1)
    one = [1, 1, 1]
    for part, extra, bs, nullable in [([[]], [[one]], 8, True), ([[[0, 1, 0]]], [[one, [0, 3, 0], one]], 8, True), ([[one]], [[one]], size, False),
                                      ([[one]], [], size // 5, True), ([[one, [0, 7, 0]]], [], size // 3, True)]:
        add([{"times": n, "bufs": part}] + extra + [[one], [one]], bs, nullable, 20000)
    # 2^16 and more blocks
    add([{"times": 3, "bufs": [[[1, n // 3 + 1, 1]], [one]]}], w or 1, False, 2)
    add([[[1, n, 1]], [[0, 9, 0], one]], max(1, w - 1), True, 5)
    return out


def nullable_ok():
    return True


# ---- C19 --------------------------------------------------------------------
def batch_case(rng, kind, big=False):
    c = rand_column(rng, kind, big=big)
    rows = [r for b in c["bufs"] for r in b]
    alts = []
    total = sum(r[1] for r in rows)
    for _ in range(5):
        alts.append({"bufs": split(rng, rows, rng.choice([1, 2, 3, 7, 15])), "reuse": rng.random() < .6})
    alts.append({"bufs": [rows], "reuse": False})
    if total <= 400:
        alts.append({"bufs": [[[r[0], 1, r[2]]] for r in rows for _ in range(r[1])], "reuse": rng.random() < .5})
    # empty buffers in between
    e = []
    for b in alts[0]["bufs"]:
        e += [b, []] if rng.random() < .5 else [[], b, []]
    alts.append({"bufs": e, "reuse": True})
    for a in alts:
        if rng.random() < .2:
            a["other"] = other_column(rng, kind, c)
    c["alts"] = alts
    return c


# ---- checks -----------------------------------------------------------------
def model_runs(ck, kinds):
    """design model: exhaustive over small columns; returns its histories"""
    p = ck.prop
    inv = INVS[p]
    props = ["Terminates"] if p == "C05" else []
    vecs = []
    if "prim" in kinds:
        sizes = [1, 4, 5, 8, 9, 13] if not ck.thorough else [1, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17]
        r = ck.model("fixed width, nullable", "ColumnEncoder",
                     enc_cfg([99, 4], 5 if not ck.thorough else 7, 3, sizes, emit=True, invs=inv, props=props))
        vecs += [("prim", True, v) for v in vectors(r)]
        r = ck.model("fixed width", "ColumnEncoder",
                     enc_cfg([4], 6 if not ck.thorough else 9, 3, sizes, emit=True, invs=inv, props=props))
        vecs += [("prim", False, v) for v in vectors(r)]
    if "bin" in kinds:
        r = ck.model("binary, nullable", "ColumnEncoder",
                     enc_cfg([99, 0, 2], 4 if not ck.thorough else 5, 3, [1, 2, 3, 4, 5], emit=True,
                             invs=inv, props=props))
        vecs += [("bin", True, v) for v in vectors(r)]
        r = ck.model("binary", "ColumnEncoder",
                     enc_cfg([0, 1, 3], 4 if not ck.thorough else 5, 3, [1, 2, 3, 4, 7], emit=True,
                             invs=inv, props=props))
        vecs += [("bin", False, v) for v in vectors(r)]
    if p in ("C01", "C05"):
        unbounded(ck, "prim" in kinds)
    def deviation(bug):
        return bug, tlc("ColumnEncoder", enc_cfg([99, 1, 2], 4, 3, [2, 3], bug=bug, invs=inv),
                        workers=2, timeout=120)
    with ThreadPoolExecutor(4) as ex:
        caught = [f"{b}: {r.violated}" for b, r in ex.map(deviation, BUGS) if r.violated]
    if not caught:
        raise ToolError("no deviating design is rejected")
    ck.cov["rejected_deviations"] = caught
    ck.say(f"[{p}] deviating designs rejected: {', '.join(caught)}")
    return vecs


def unbounded(ck, prim):
    """fixed width, for every block size and any number of values: a proof by
    induction of the arithmetic, which the encoder refines"""
    if not prim:
        return
    for w, sizes in ((4, [1, 3, 4, 5, 8, 13]), (8, [7, 8, 9, 16, 17])):
        conf = enc_cfg([99, w], 4 if not ck.thorough else 6, 3, sizes, props=["Refines"])
        ck.model(f"the encoder refines the arithmetic of cutting, width {w}", "ColumnCut",
                 conf.replace("CONSTANTS\n", f"CONSTANTS\n  Width = {w}\n"))
    ck.mutant("cutting values from a relative end", "ColumnCut",
              enc_cfg([99, 4], 4, 3, [4, 8], bug="relative_end", props=["Refines"])
              .replace("CONSTANTS\n", "CONSTANTS\n  Width = 4\n"))
    if ck.thorough:
        ck.apalache("cutting: initially", "CutAll", "Inv", cinit="ConstNone")
        ck.apalache("cutting: every step, any block size", "CutAll", "Inv", "IndInit", 1, "ConstNone")
        ck.apalache("cutting: the loop ends", "CutAll", "Shrinks", "IndInit", 1, "ConstNone")
        for c in ("ConstDown", "ConstWhole"):
            ck.apalache(f"cutting: {c}", "CutAll", "Inv", "IndInit", 1, c, rejected=True)


def vec_case(rng, kind, nullable, v, raw):
    if kind == "prim":
        kind = rng.choice(PRIMS)
        w = WIDTH[kind]
        bs = v["bs"] if w == 4 else v["bs"] * 2 - (1 if v["bs"] % 4 else 0)
    else:
        bs = v["bs"]
    return {"kind": kind, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30),
            "bufs": [to_runs(b) for b in v["bufs"]], "reuse": rng.random() < .5, "raw": raw,
            **({"other": {"bufs": [[[1, rng.randrange(1, 4), 2]], [[1, 1, 1]]], "nullable": nullable, "bs": bs,
                          "seed": rng.randrange(1 << 30), "mode": rng.choice(["before", "turns", "together", "thread", "roving"]),
                          "flush": rng.random() < .3}} if rng.random() < .15 else {})}


def column_check(ck, kinds):
    rng = ck.rng
    vecs = model_runs(ck, kinds)
    rng.shuffle(vecs)
    T = ck.thorough
    nraw = 1200 if not T else 8000
    nproj = 6000 if not T else len(vecs)
    names = (PRIMS if "prim" in kinds else []) + (["bin"] if "bin" in kinds else [])

    cases = [vec_case(rng, k, n, v, True) for k, n, v in vecs[:nraw]]
    ck.conform("histories of the model, blocks decoded by the specification", "column", cases, "ColumnTrace",
               events=events)
    cases = [vec_case(rng, k, n, v, False) for k, n, v in vecs[nraw:nraw + nproj]]
    ck.conform("histories of the model", "column", cases, "ColumnTrace", events=events)

    cases = [rand_column(rng, rng.choice(names), raw=True) for _ in range(200 if not T else 2000)]
    ck.conform("random columns, blocks decoded by the specification", "column", cases, "ColumnTrace", events=events)
    n = 2000 if not T else 30000
    cases = [rand_column(rng, rng.choice(names), big=rng.random() < .4) for _ in range(n)]
    cases += [exact_column(rng, rng.choice(names), rng.random() < .7) for _ in range(n // 2)]
    ck.conform("random columns", "column", cases, "ColumnTrace", events=events)
    cases = [many_blocks(rng, names[i % len(names)]) for i in range(200 if not T else 2000)]
    ck.conform("columns of very many blocks", "column", cases, "ColumnTrace", events=events)
    cases = [c for k in names for _ in range(2 if not T else 20) for c in edge_sizes(rng, k)]
    ck.conform("block sizes at the ends of integer types", "column", cases, "ColumnTrace", events=events)
    some = names if T or len(names) == 1 else [rng.choice(PRIMS), "bin"] if "bin" in names else rng.sample(names, 2)
    cases = [c for k in some for c in many_buffers(rng, k, T)]
    ck.conform("columns of very many buffers", "column", cases, "ColumnTrace", events=events)
    cases = [c for k in names for c in large_columns(rng, k, T)]
    ck.conform("large columns", "column", cases, "ColumnTrace", events=events)


def c19(ck):
    rng = ck.rng
    vecs = model_runs(ck, ["prim", "bin"])
    rng.shuffle(vecs)
    T = ck.thorough
    # histories of the model with the same rows
    groups = {}
    for k, n, v in vecs:
        key = (k, n, v["bs"], tuple(x for b in v["bufs"] for x in b))
        groups.setdefault(key, []).append(v)
    cases = []
    for (k, n, bs, rows), vs in groups.items():
        if len(vs) < 2:
            continue
        c = vec_case(rng, k, n, vs[0], False)
        c["alts"] = [{"bufs": [to_runs(b) for b in v["bufs"]], "reuse": rng.random() < .5} for v in vs[1:8]]
        cases.append(c)
    rng.shuffle(cases)
    ck.conform("histories of the model with the same rows", "column", cases[:3000 if not T else len(cases)],
               "ColumnTrace", events=events19)
    names = PRIMS + ["bin"]
    n = 1500 if not T else 15000
    cases = [batch_case(rng, rng.choice(names), rng.random() < .3) for _ in range(n)]
    pairs = ck.conform("random rows, many batchings", "column", cases, "ColumnTrace", events=events19)
    # the same cases in other processes: different sharding, so different
    # neighbours and memory contents
    again = run_cases("column", cases[::-1], ck.dir, 3)
    other = {json.dumps(c): o for c, o in again}

    merged = []
    for c, o in pairs:
        o2 = other.get(json.dumps(c))
        if o2 and o.get("runs") and o2.get("runs"):
            merged.append((c, {**o, "runs": [o["runs"][0], o2["runs"][0]], "ev": []}))
    ck._judge("the same rows in another process", "column", merged, "ColumnTrace", None, "8g", events19)
    ck.cov["traces_validated_against_impl"] += len(merged)
    cases = []
    for i in range(100 if not T else 1000):
        c = many_blocks(rng, names[i % len(names)])
        rows = [r for b in c["bufs"] for r in b]
        c["alts"] = [{"bufs": split(rng, rows, 3), "reuse": True}, {"bufs": [rows], "reuse": False},
                     {"bufs": split(rng, rows, 20), "reuse": rng.random() < .5}]
        cases.append(c)
    ck.conform("columns of very many blocks, many batchings", "column", cases, "ColumnTrace", events=events19)
    cases = []
    for n in [255, 256, 257, 1000, 1025, 4100, 20000] + ([65537, 70000] if T else []):
        k = rng.choice(names)
        nullable = rng.random() < .6
        part = [[[1, 1, 2]], [[0, 1, 0]], [[0, 2, 0], [1, 1, 2]]] if nullable else [[[1, 1, 2]], [[1, 1, 2]], []]
        rows = [x for _ in range(n // 3 + 1) for b in part for x in b]
        bs = max(1, n * (WIDTH[k] or 2) // rng.choice([1, 2, 5, 60]))
        cases.append({"kind": k, "nullable": nullable, "bs": bs, "seed": rng.randrange(1 << 30), "reuse": True, "merge": 1 << 20,
                      "bufs": [{"times": n // 3 + 1, "bufs": part}],
                      "alts": [{"bufs": [rows], "reuse": False}, {"bufs": split(rng, rows, 30), "reuse": True}]})
    ck.conform("columns of very many buffers, many batchings", "column", cases, "ColumnTrace", events=events19)
    cases = []
    for k in names:
        for c in large_columns(rng, k, T):
            rows = [r for b in c["bufs"] for r in b]
            if sum(r[1] for r in rows) > (1 << 23 if T else 300000):
                continue
            c["alts"] = [{"bufs": split(rng, rows, 3), "reuse": True}, {"bufs": [rows], "reuse": False},
                         {"bufs": split(rng, rows, 20), "reuse": rng.random() < .5}]
            cases.append(c)
    ck.conform("large columns, many batchings", "column", cases, "ColumnTrace", events=events19)


def refused_blocks(ck):
    """C15: sinks that refuse a block"""
    rng, T = ck.rng, ck.thorough
    conf = lambda items, bug="none", emit=False: enc_cfg(items, 4, 3, [1, 2, 4, 5, 8], bug, emit, ["Reported"], faults=True)
    v = []
    for name, kind, nullable, items in (("fixed width", "prim", True, [99, 4]), ("fixed width without nulls", "prim", False, [4]),
                                        ("binary", "bin", True, [99, 0, 2])):
        r = ck.model("refused blocks, " + name, "ColumnEncoder", conf(items, emit=True))
        v += [(kind, nullable, x) for x in vectors(r) if "fail" in x]
    ck.mutant("ignore_refusal", "ColumnEncoder", conf([99, 1, 2], "ignore_refusal"))
    rng.shuffle(v)
    cases = []
    for kind, nullable, x in v[:2500 if not T else len(v)]:
        c = vec_case(rng, kind, nullable, x, False)
        # the block sizes of wider types are not always those of the model
        c["fail"] = x["fail"]
        cases.append(c)
    ck.conform("refused blocks of the model", "column", cases, "ColumnTrace", events=events)
    cases = []
    for _ in range(1500 if not T else 20000):
        c = rand_column(rng, rng.choice(PRIMS + ["bin"]), big=rng.random() < .2) if rng.random() < .6 \
            else exact_column(rng, rng.choice(PRIMS + ["bin"]), rng.random() < .7)
        c["fail"] = rng.choice([0, 0, 1, 2, rng.randrange(0, 20)])
        cases.append(c)
    ck.conform("refused blocks of random columns", "column", cases, "ColumnTrace", events=events)


CHECKS = {
    "C01": lambda ck: column_check(ck, ["prim"]),
    "C02": lambda ck: column_check(ck, ["bin"]),
    "C03": lambda ck: column_check(ck, ["prim", "bin"]),
    "C04": lambda ck: column_check(ck, ["prim", "bin"]),
    "C05": lambda ck: column_check(ck, ["prim", "bin"]),
    "C19": c19,
}

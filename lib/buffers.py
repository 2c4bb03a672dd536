"""C08, C09: column buffers."""
from core import *

PRIMS = ["i32", "i64", "u64", "f64"]


def events(o):
    if o.get("crash"):
        return 2
    return 2 + len(o["ev"])


def conf(items, ops, w=2, cap=1, bug="none", emit=False):
    return cfg({"Items": tla_set(items), "MaxOps": ops, "W": w, "Cap": cap, "Bug": f'"{bug}"',
                "Emit": "TRUE" if emit else "FALSE"}, ["Refines", "Position"])


def mk(rng, type_, nullable, ops, each=True):
    c = {"type": type_, "nullable": nullable, "seed": rng.randrange(1 << 30), "ops": ops, "each": each}
    if type_ == "bitmap":
        c["nullable"] = False
    return c


def bits_op(op, type_):
    """an operation on values and nulls as one on bits"""
    if op[0] == "a":
        return ["b", 1 if type_ == "bitmap" else (1 if op[2] else 0), op[1]]
    if op[0] == "n" and type_ == "bitmap":
        return ["b", 0, op[1]]
    return op


def as_type(v, type_):
    """a history of the model for a type of buffer"""
    out = []
    for op in v:
        if op[0] != "f":
            out.append(bits_op(op, type_) if type_ in ("bool", "bitmap") else op)
        elif type_ == "bitmap":
            out.append(["f", [bits_op(o, type_) for o in op[1]], op[4], op[3] - op[2], 0])
        elif type_ != "bool":
            out.append(op)
    return out


def models(ck, bugs):
    T = ck.thorough
    r = ck.model("values and nulls, two buffers", "BufferModel",
                 conf([99, 0, 2], 5 if not T else 6, emit=True), heap="12g")
    v1 = vectors(r)
    r = ck.model("no initial capacity", "BufferModel", conf([99, 1], 6 if not T else 7, w=2, cap=0, emit=True), heap="12g")
    v2 = vectors(r)
    r = ck.model("no nulls", "BufferModel", conf([0, 2], 6 if not T else 7, emit=True), heap="12g")
    v3 = vectors(r)
    for bug in bugs:
        ck.mutant(bug, "BufferModel", conf([99, 1, 2], 5, cap=0 if bug == "grow_zero" else 1, bug=bug))
    return v1, v2, v3


# ---- random histories -------------------------------------------------------
SIZES = [1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]
BIG = [1023, 1024, 1025, 4096, 8190, 8191, 8192, 8193, 8200, 16383, 16384, 16385, 20000, 32769, 66000]


def rand_ops(rng, type_, nullable, n, big):
    """operations, and the rows they leave"""
    ops, rows = [], []
    for _ in range(n):
        k = rng.choice(BIG) if big and rng.random() < .3 else rng.choice(SIZES)
        c = rng.random()
        if c < .12:
            ops.append(["c"])
            rows = []
        elif type_ in ("bitmap", "bool") and (c < .7 or not nullable or type_ == "bitmap"):
            bit = rng.randrange(2)
            ops.append(["b", bit, k])
            rows.append([bit if type_ == "bitmap" else 1, k])
        elif nullable and (c < .5 or type_ == "bool"):
            ops.append(["n", k])
            rows.append([0, k])
        else:
            l = rng.choice([0, 0, 1, 2, 3, 7, 8, 40, 300]) if type_ == "bin" else 0
            if k > 2000 and l > 8:
                l = 3
            ops.append(["a", k, l])
            rows.append([1, k])
    return ops, rows


def rand_copy(rng, type_, rows):
    """a range of a source with these rows: [start, end, row]"""
    total = sum(n for _, n in rows)
    vals = sum(k * n for k, n in rows)
    row = rng.choice([0, total, rng.randrange(total + 1), rng.randrange(total + 1)])
    pos = start = 0
    for k, n in rows:
        m = min(n, row - pos)
        start += k * m
        pos += m
    end = rng.choice([start, vals, min(vals, start + 1), rng.randrange(start, vals + 1),
                      min(vals, start + rng.choice(SIZES))])
    return ([row, end - start, 0] if type_ == "bitmap" else [start, end, row]), start, end


def chain(rng, type_, nullable, big):
    """consecutive ranges of the same source, each from where the last ended"""
    src, rows = rand_ops(rng, type_, nullable, rng.randrange(1, 9), big)
    flat_vals = sum(k * n for k, n in rows)
    ops = []
    start = row = 0
    for _ in range(rng.randrange(1, 7)):
        if start >= flat_vals:
            break
        end = min(flat_vals, start + rng.choice([1, 2, 7, 8, 9, flat_vals, rng.randrange(1, flat_vals + 1)]))
        ops.append(["f", src] + ([row, end - start, 0] if type_ == "bitmap" else [start, end, row]))
        # the row after the end-th value
        seen = pos = 0
        for k, n in rows:
            if k and seen + n >= end:
                row = pos + (end - seen)
                break
            seen += k * n
            pos += n
        start = end
    return ops


def simple_case(rng, big):
    type_ = rng.choice(PRIMS + ["bin", "bin", "bool", "bool", "bitmap", "bitmap"])
    nullable = rng.random() < .7
    ops, _ = rand_ops(rng, type_, nullable, rng.randrange(1, 20 if not big else 10), big)
    c = mk(rng, type_, nullable, ops)
    if type_ == "bitmap" and rng.random() < .7:
        c["cap"] = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 64, 100, 1000, 8192, 100000])
    return c


def copy_case(rng, big):
    type_ = rng.choice(PRIMS + ["bin", "bin", "bitmap"])
    nullable = rng.random() < .75
    ops = []
    for _ in range(rng.randrange(1, 6)):
        o, _ = rand_ops(rng, type_, nullable, rng.randrange(0, 4), big and rng.random() < .4)
        ops += o
        if rng.random() < .4:
            ops += chain(rng, type_, nullable, big)
        else:
            src, rows = rand_ops(rng, type_, nullable, rng.randrange(0, 8), big)
            a, _, _ = rand_copy(rng, type_, rows)
            ops.append(["f", src] + a)
    c = mk(rng, type_, nullable, ops)
    if type_ == "bitmap" and rng.random() < .5:
        c["cap"] = rng.choice([0, 1, 8, 9, 64, 8192])
    return c


def rng_copy(type_, start, end, row):
    return [row, end - start, 0] if type_ == "bitmap" else [start, end, row]


def c08(ck):
    rng, T = ck.rng, ck.thorough
    v1, v2, v3 = models(ck, ["clear_keeps_bits", "grow_zero", "clear_keeps_offsets", "clear_keeps_validity"])
    simple = [(v, n) for vs, n in ((v1, True), (v2, True), (v3, False))
              for v in {json.dumps([o for o in v if o[0] != "f"]) for v in vs}]
    srcs = {(json.dumps(o[1]), n) for vs, n in ((v1, True), (v2, True), (v3, False))
            for v in vs for o in v if o[0] == "f"}
    pool = sorted(set(simple) | srcs)
    rng.shuffle(pool)
    cases = []
    for v, n in pool[:6000 if not T else len(pool)]:
        type_ = rng.choice(PRIMS + ["bin", "bool", "bitmap"])
        c = mk(rng, type_, n, as_type(json.loads(v), type_))
        if type_ == "bitmap":
            c["cap"] = rng.choice([0, 1, 8, 9, 64])
        cases.append(c)
    ck.conform("histories of the model", "buffers", cases, "BuffersTrace", events=events)
    # every sequence of bits, nulls and clears up to a length, in a cleared buffer
    cases = []
    for n in range(1, 7 if not T else 9):
        for x in range(3 ** n):
            seq = [(x // 3 ** i) % 3 for i in range(n)]
            ops = [["b", 1, 11], ["n", 7], ["c"]] + [["n", 1] if s == 2 else ["b", s, 1] for s in seq]
            cases.append(mk(rng, "bool", True, ops + [["o"]], False))
            if 2 not in seq:
                c = mk(rng, "bitmap", False, [["b", 1, 3], ["c"]] + [["b", s, 1] for s in seq] + [["o"]], False)
                c["cap"] = rng.choice([0, 1, 7, 8])
                cases.append(c)
    ck.conform("all short histories after a clear", "buffers", cases, "BuffersTrace", events=events)
    cases = [simple_case(rng, False) for _ in range(3000 if not T else 40000)]
    ck.conform("random histories", "buffers", cases, "BuffersTrace", events=events)
    cases = [simple_case(rng, True) for _ in range(500 if not T else 5000)]
    ck.conform("large buffers", "buffers", cases, "BuffersTrace", events=events)
    cases = []
    for cap in list(range(0, 40)) + [63, 64, 65, 8191, 8192, 8193, 1 << 20]:
        for n in (0, 1, 7, 8, 9, 17, 64, 8192, 9000):
            c = mk(rng, "bitmap", False, [["b", 1, n], ["b", 0, n + 3], ["b", 1, 2], ["c"], ["b", 0, n], ["b", 1, 1],
                                          ["b", 0, 30]])
            c["cap"] = cap
            cases.append(c)
    ck.conform("bitmaps of every small capacity", "buffers", cases, "BuffersTrace", events=events)
    cases = []
    for type_ in PRIMS + ["bin", "bool"]:
        for n in BIG + [8192 * 2 + 1, 100000]:
            for first in ("a", "n"):
                val = ["b", 1, n] if type_ == "bool" else ["a", n, 2]
                one = ["b", 0, 9] if type_ == "bool" else ["a", 9, 1]
                ops = [val, ["n", n], ["c"], ["n", 5], one, ["n", n + 3], val, ["c"], one, ["n", 3]]
                if first == "n":
                    ops = [["n", n]] + ops
                cases.append(mk(rng, type_, True, ops))
    ck.conform("large buffers cleared and refilled", "buffers", cases, "BuffersTrace", events=events)
    # cleared very many times
    cases = []
    for type_ in PRIMS + ["bin", "bool", "bitmap"]:
        for n in [254, 255, 256, 1000, 1023, 65534, 65535, 66000] + ([1 << 20] if T else []):
            for nullable in (True, False):
                few = lambda: as_type([["a", rng.randrange(1, 9), 2]] + ([["n", rng.randrange(1, 4)]] if nullable else [])
                                      + [["a", rng.randrange(1, 4), 1]], type_) if type_ in ("bool", "bitmap") \
                    else [["a", rng.randrange(1, 9), 2]] + ([["n", rng.randrange(1, 4)]] if nullable else []) + [["a", rng.randrange(1, 4), 1]]
                ops = few() + [["r", n, few()]] + few()
                for _ in range(3):
                    ops += [["r", 1, few()]] + few()
                cases.append(mk(rng, type_, nullable and type_ != "bitmap", ops))
    ck.conform("cleared very many times", "buffers", cases, "BuffersTrace", events=events)
    # much content, of values only or with nulls, then the buffer is used again
    cases = []
    much = {"bin": [(1, (1 << 16) + 1), (1, (1 << 20) - 1), (1, (1 << 20) + 1), (3, 1 << 20), (1, 5 << 20), (40, 70000),
                    (1 << 17, 9), (1 << 18, 0)],
            "bool": [((1 << 17) + 1, 0), ((1 << 20) + 9, 0)], "bitmap": [((1 << 17) + 1, 0), ((1 << 20) + 9, 0)]}
    for type_ in PRIMS + ["bin", "bool", "bitmap"]:
        for n, l in much.get(type_, [((1 << 16) + 1, 0), ((1 << 17) + 1, 0), ((1 << 18) + 3, 0)]):
            for nulls in ((0, 1, n) if type_ != "bitmap" else (0,)):
                for nullable in ((True, False) if type_ != "bitmap" and not nulls else (nulls > 0,)):
                    add = [["a", n, l], ["n", min(nulls, 70000)]] if nulls else [["a", n, l]]
                    few = [["a", 2, 1], ["n", 3], ["a", 9, 1]] if nullable else [["a", 11, 1]]
                    ops = add + [["c"]] + few + [["c"]] + add[::-1] + [["c"], ["c"]] + few + few
                    cases.append(mk(rng, type_, nullable, as_type(ops, type_) if type_ in ("bool", "bitmap") else ops))
    ck.conform("much content, then cleared and used again", "buffers", cases, "BuffersTrace", events=events)


def c09(ck):
    rng, T = ck.rng, ck.thorough
    v1, v2, v3 = models(ck, ["copy_rows", "absolute_offsets", "copy_from_first", "returns_count",
                             "clear_keeps_bits"])
    pool = [(v, n) for vs, n in ((v1, True), (v2, True), (v3, False)) for v in vs
            if any(o[0] == "f" for o in v)]
    rng.shuffle(pool)
    cases = []
    for v, n in pool[:10000 if not T else 150000]:
        type_ = rng.choice(PRIMS + ["bin", "bin", "bitmap"])
        cases.append(mk(rng, type_, n, as_type(v, type_)))
    ck.conform("histories of the model", "buffers", cases, "BuffersTrace", events=events)
    cases = [copy_case(rng, False) for _ in range(4000 if not T else 60000)]
    ck.conform("random ranges", "buffers", cases, "BuffersTrace", events=events)
    cases = [copy_case(rng, True) for _ in range(500 if not T else 6000)]
    ck.conform("ranges of large buffers", "buffers", cases, "BuffersTrace", events=events)
    cases = []
    for type_ in PRIMS + ["bin", "bitmap"]:
        for n in [65534, 65535, 65536, 65537, 131071, 131073, 300000]:
            nullable = type_ == "bitmap" or rng.random() < .7
            gap = rng.choice([1, 7, 70000])
            src = [["a", 5, 1]] + ([["n", gap]] if nullable else []) + [["a", n, 1]] + ([["n", 3]] if nullable else []) + [["a", 4, 2]]
            if type_ == "bitmap":
                src = as_type(src, type_)
            # rows of the source: 5 values, nulls, n values, nulls, 4 values
            g, e = (gap, 3) if nullable else (0, 0)
            at = lambda v: v + (g if v >= 5 and v < 5 + n else g + e if v >= 5 + n else 0) if v != 5 else rng.choice([5, 5 + g])
            ops = [["f", src] + rng_copy(type_, 5, n + 5, at(5)), ["f", src] + rng_copy(type_, 0, n + 9, 0),
                   ["f", src] + rng_copy(type_, n - 3, n + 9, at(n - 3)), ["f", src] + rng_copy(type_, n // 2, n // 2 + 9, at(n // 2)), ["c"],
                   ["f", src] + rng_copy(type_, 3, n + 7, 3), ["f", src] + rng_copy(type_, n + 4, n + 9, at(n + 4))]
            cases.append(mk(rng, type_, nullable, ops))
    ck.conform("ranges of 2^16 and more rows", "buffers", cases, "BuffersTrace", events=events)


CHECKS = {"C08": c08, "C09": c09}

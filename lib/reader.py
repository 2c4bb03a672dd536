"""C13, C14: batch reads."""
from core import *


def events(o):
    if o.get("crash"):
        return 2
    return 2 + len(o["ev"])


def conf(n, kinds, acts, depth=2, spurious=True, drops=True, bug="none", emit=False, invs=None, props=(), fair=False):
    return cfg({"N": n, "Kinds": tla_set(f'"{k}"' for k in kinds), "Acts": tla_set(f'"{a}"' for a in acts),
                "Depth": depth, "Spurious": "TRUE" if spurious else "FALSE",
                "Drops": "TRUE" if drops else "FALSE", "Bug": f'"{bug}"', "Emit": "TRUE" if emit else "FALSE"},
               INVS if invs is None else invs, props, spec="Fair" if fair else "Spec")


INVS = ["InOrder", "Complete", "InFlight", "Buffered", "Lazy", "ReadAhead"]
BUGS = {"C13": [("unordered", INVS, ()), ("error_ends", INVS, ()), ("error_drops", INVS, ())],
        "C14": [("unbounded", INVS, ()), ("serial", INVS, ()), ("eager", INVS, ()),
                ("never_wakes", [], ["Progress"])]}
# where the content begins: offsets beyond 31, 32 and 40 bits
BASES = [0] * 12 + [1, (1 << 31) - 1000, (1 << 32) - 1000, 1 << 32, 1 << 33, (1 << 40) + 12345]
SHAPES_BAD = ["reversed", "past", "straddle", "far", "huge"]


# ---- operations -------------------------------------------------------------
def rand_info(rng):
    k = rng.randrange(3)
    return [k, rng.choice([0, 1, rng.randrange(1 << 20), (1 << 30)]) if k == 2 else 0]


def make_op(rng, size, want, starts=None, maxlen=4000):
    """[start, end, kind, rowid], shape"""
    info = rand_info(rng)
    if want == "ok":
        for _ in range(1000):
            s = rng.choice([0, rng.randrange(size), max(0, size - rng.randrange(1, 50))])
            n = rng.choice([1, 2, 16, 100, rng.randrange(1, maxlen)])
            e = min(size, s + n)
            if rng.random() < .1:
                e = size
            if e > s and (starts is None or s not in starts):
                break
        else:
            raise ToolError("no range left")
        if starts is not None:
            starts.add(s)
        return [s, e, *info], "ok"
    if want == "empty":
        s = rng.choice([0, size, rng.randrange(size + 1)])
        return [s, s, *info], "ok"
    if want == "reversed":
        e = rng.randrange(0, size)
        return [rng.choice([e + 1, size, size + 7, str((1 << 64) - 1), str(1 << 63)]) if e + 1 <= size else size,
                e, *info], "bad"
    if want == "past":
        return [size + rng.randrange(0, 3), size + rng.randrange(3, 100), *info], "bad"
    if want == "straddle":
        return [rng.randrange(size + 1), size + rng.choice([1, 1, 2, 1000]), *info], "bad"
    if want == "far":
        s = size + rng.randrange(1, 1 << 20)
        return [s, s, *info], "bad"
    if want == "huge":
        return [rng.choice([0, rng.randrange(size)]),
                rng.choice([str((1 << 64) - 1), str(1 << 63), str((1 << 63) - 1), str(1 << 40), (1 << 33)]), *info], "bad"
    raise ToolError(want)


def free_op(rng, size):
    return make_op(rng, size, rng.choice(["empty", *SHAPES_BAD]))


def sched_case(rng, v):
    size = rng.choice([5000, 20000])
    starts = set()
    ops, shape = [], []
    for k in v["kind"]:
        o, s = make_op(rng, size, "ok", starts) if k == "ok" else free_op(rng, size)
        ops.append(o)
        shape.append(s)
    steps = [dict(s) for s in v["steps"]]
    for s in steps:
        if s.get("act") == "short":
            o = ops[s["k"] - 1]
            s["arg"] = rng.randrange(1, o[1] - o[0] + 1)
    c = {"size": size, "seed": rng.randrange(1 << 30), "ops": ops, "shape": shape, "steps": steps,
         "base": rng.choice(BASES)}
    if rng.random() < .5:
        c["wakers"] = "fresh"
    if rng.random() < .3:
        c["before"] = [[rng.choice([1, 1, 2, 3, 20]), rng.choice([0, 1, 1, 2, 3, 9]), rng.choice([1, 2, 3, 9])]]
    return c


def free_case(rng, n, single=False, size=None, plain=False):
    size = size or rng.choice([1, 2, 100, 5000, 20000, 70000])
    ops, shape, faults = [], [], []
    p_bad = rng.choice([0, 0, .1, .4])
    for _ in range(n):
        c = rng.random()
        want = "ok" if c > p_bad + .1 else "empty" if c > p_bad else rng.choice(SHAPES_BAD)
        if want == "ok" and ops and rng.random() < .15:
            j = rng.randrange(len(ops))        # repeated range
            o, s = ops[j][:2] + rand_info(rng), shape[j]
        else:
            o, s = make_op(rng, size, want, maxlen=size if size > 30000 else 4000)
        ops.append(o)
        shape.append(s)
    byoff = {}
    for k, o in enumerate(ops):
        if shape[k] != "bad" and o[0] != o[1]:
            byoff.setdefault(o[0], []).append(k)
    if rng.random() < .6 and not plain:
        # a short read goes on at another offset, so it is not mixed with failing ones
        hard = rng.random() < .5
        for off, ks in byoff.items():
            c = rng.random()
            if c < .25 and hard:
                kind = rng.choice(["EIO", rng.choice(["ENOMEM", "EAGAIN", "EINVAL", "ESTALE", "ENXIO", "EBADF", "EPERM"]), "zero"])
                faults.append({"file": "file.dat", "call": "read", "nth": off, "kind": kind})
                if len(ks) == 1:
                    shape[ks[0]] = "fault"
                else:
                    faults.pop()
            elif c < .6:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    faults.append({"file": "file.dat", "call": "read", "nth": off,
                                   "kind": "EINTR" if hard else rng.choice(["EINTR", "short"]), "arg": rng.choice([1, 2, 100, 5000])})
    c = {"size": size, "seed": rng.randrange(1 << 30), "ops": ops, "shape": shape, "faults": faults,
         "single": single, "base": rng.choice(BASES)}
    if rng.random() < .3 and not single:
        c["beside"] = [free_op(rng, size)[0] if rng.random() < .1 else
                       make_op(rng, size, "ok", maxlen=4000)[0] for _ in range(rng.choice([1, 3, n, 2 * n + 1]))]
        # a fault hits whichever batch reads there first
        c["beside"] = [o for o in c["beside"] if o[0] not in byoff]
        if any(f["kind"] == "short" for f in faults):
            del c["beside"]
        else:
            c["clone"] = rng.random() < .5
    if rng.random() < .4:
        c["impatient"] = True
    if rng.random() < .1 and not faults and not plain:
        # the file becomes shorter after it was opened
        cut = rng.randrange(0, size + 1)
        c["truncate"] = cut
        for k, o in enumerate(ops):
            if shape[k] == "ok" and o[1] > cut:
                # (nothing is asked for beyond the end by an empty range)
                shape[k] = "bad" if o[0] < o[1] else "either"
    elif rng.random() < .15 and not faults and not plain:
        # its content is replaced
        c["rewrite"] = True
    if ("truncate" in c or "rewrite" in c) and rng.random() < .7:
        c["before"] = [[rng.choice([1, 1, 3]), n + 1, rng.choice([n, n, 1, 3])]]
    return c


# ---- checks -----------------------------------------------------------------
def reader_check(ck):
    rng, T = ck.rng, ck.thorough
    ck.model("every consumer, completion order and result", "BlockReader",
             conf(6 if not T else 8, ["ok", "free"], ["ok", "EIO"], props=["AfterDrop"]))
    if ck.prop == "C14":
        ck.model("a consumer that polls when woken gets all results", "BlockReader",
                 conf(6 if not T else 8, ["ok", "free"], ["ok", "EIO"], spurious=False, drops=False,
                      props=["Progress"], fair=True))
    for bug, invs, props in BUGS[ck.prop]:
        ck.mutant(bug, "BlockReader", conf(3, ["ok", "free"], ["ok", "EIO"], spurious=not props, drops=not props,
                                           bug=bug, invs=invs, props=props, fair=bool(props)))
    r = ck.model("schedules", "BlockReader", conf(3, ["ok", "free"], ["ok", "EIO"], emit=True,
                                                  props=["AfterDrop"]))
    vecs = vectors(r)
    r = ck.model("schedules of reads", "BlockReader", conf(4, ["ok"], ["ok"], emit=True, spurious=False,
                                                           props=["AfterDrop"]))
    vecs += vectors(r)
    rng.shuffle(vecs)
    ck.say(f"[{ck.prop}] {len(vecs)} schedules of the model")
    cases = [sched_case(rng, v) for v in vecs[:2500 if not T else 20000]]
    ck.conform("schedules of the model", "reader", cases, "ReaderTrace", events=events)
    r = ck.simulate("longer batches, all kinds of results", "BlockReader",
                    conf(8, ["ok", "free"], ["ok", "EIO", "short", "EINTR", "zero"], emit=True, drops=False),
                    600 if not T else 6000, 80)
    v = vectors(r)
    r = ck.simulate("longer batches, dropped", "BlockReader",
                    conf(8, ["ok"], ["ok", "EIO", "short"], emit=True), 300 if not T else 3000, 80)
    v += vectors(r)
    r = ck.simulate("long batches of reads", "BlockReader",
                    conf(20, ["ok"], ["ok", "EINTR"], emit=True, drops=False), 60 if not T else 600, 200)
    v += vectors(r)
    ck.conform("simulated schedules of the model", "reader", [sched_case(rng, x) for x in v], "ReaderTrace",
               events=events)
    cases = []
    for n in [40, 70, 130, 300, 1030] + ([5000, 66000] if T else []):
        for take in (0, 1, 2, 3):
            c = sched_case(rng, rng.choice(v))
            c["before"] = [[n, take, rng.choice([4, 9])]]
            cases.append(c)
    ck.conform("schedules on readers with many abandoned batches", "reader", cases, "ReaderTrace", events=events)
    cases = [free_case(rng, rng.choice([0, 1, 2, 3, 5, 20])) for _ in range(1200 if not T else 20000)]
    cases += [free_case(rng, n) for n in ([1025, 2500, 5000] if not T else [1023, 1024, 1025, 4097, 10000, 20000])]
    cases += [free_case(rng, rng.choice([100, 500])) for _ in range(30 if not T else 400)]
    cases += [free_case(rng, rng.choice([1, 3, 6]), size=rng.choice([1 << 20, (1 << 21) + 1, 5000000]))
              for _ in range(24 if not T else 300)]
    ck.conform("random batches", "reader", cases, "ReaderTrace", events=events)
    # a reader that was used very often, and very long batches
    cases = []
    for n in [3, 30, 255, 256, 257, 600, 1030, 2000] + ([70000] if T else []):
        for take in (1000, 1, 0, 2, 3):
            c = free_case(rng, rng.choice([3, 6, 10]), single=rng.random() < .2, size=rng.choice([100, 5000]), plain=True)
            c["before"] = [[n, take, rng.choice([3, 4, 10])]]
            if rng.random() < .3:
                c["before"].append([rng.choice([1, 5, 300]), rng.choice([0, 1, 2, 5]), 6])
            cases.append(c)
    for n in ([66000] if not T else [65535, 65536, 65537, 200000]):
        c = free_case(rng, n, size=5000, plain=True)
        c.pop("beside", None)
        cases.append(c)
    ck.conform("readers used very often, very long batches", "reader", cases, "ReaderTrace", events=events)
    if ck.prop == "C13":
        # ranges longer than one system call reads, and than 32 bits
        cases = []
        for k in range(2 if not T else 6):
            c = free_case(rng, 3, single=k % 2 == 1, size=rng.choice([5000, 70000]))
            for f in ("faults", "beside", "clone", "truncate", "rewrite", "before"):
                c.pop(f, None)
            c["shape"] = ["ok" if s == "fault" else s for s in c["shape"]]
            for j in range(3):
                c["ops"][j], c["shape"][j] = make_op(rng, c["size"], "ok" if j != 1 else rng.choice(["ok", "huge"]))
            c["ops"][0] = [0, rng.randrange(1, c["size"] + 1), *c["ops"][0][2:4], "hole"]
            c["base"] = [(1 << 32) + 70001, (1 << 31) + 3][k % 2] + (rng.randrange(1 << 20) if T else 0)
            c["patience"] = 120
            cases.append(c)
        ck.conform("ranges of several GiB", "reader", cases, "ReaderTrace", events=events)
        cases = [free_case(rng, rng.choice([1, 3, 10]), True) for _ in range(300 if not T else 3000)]
        ck.conform("single reads", "reader", cases, "ReaderTrace", events=events)


CHECKS = {"C13": reader_check, "C14": reader_check}

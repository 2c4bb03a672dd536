"""C10, C11, C12, C15, C16, C17: segments and block writers; C18: type/encoding matrix."""
import column
from core import *

SOFT = {"EINTR", "short", "wait"}
CHUNK = 16384
MANY = {False: [255, 256, 257, 600, 1025, 5000], True: [255, 256, 257, 600, 1025, 5000, 20000, 65535, 65537, 70000]}
ERRNOS = ["EIO", "ENOSPC", "EDQUOT", "EFBIG", "EINVAL", "EROFS", "ENOSYS", "EOPNOTSUPP", "EAGAIN", "EPIPE", "EBADF", "ENOMEM",
          "ETIMEDOUT", "ESTALE", "ENXIO", "EPERM", "EBUSY", "EACCES"]


def errno(rng):
    return rng.choice(["EIO", "ENOSPC", rng.choice(ERRNOS)])


def shape(c, o):
    o["soft"] = all(f["kind"] in SOFT for f in c.get("faults", []))
    o["preexist"] = [["d/" + n, s] for n, s in c.get("preexist", [])] if isinstance(c.get("preexist"), list) else []
    return o


def events_log(o):
    return 2 if o.get("crash") else 2 + len(o["log"])


def events_open(o):
    return 2


# ---- cases ------------------------------------------------------------------
def rand_id(rng):
    c = rng.random()
    if c < .15:
        return rng.choice(["0" * 32, "f" * 32, "fb" * 16, "fbefbe" * 5 + "fb", "ffffff" * 5 + "fe", "3e" * 16,
                           "0" * 31 + "1", "1" + "0" * 31])
    if c < .45:       # many characters '-' and '_'
        return "".join(rng.choice("fbe") for _ in range(32))
    return "%032x" % rng.randrange(1 << 128)


NAMES = ["", "a", "x" * 127, "x" * 128, "y" * 300, "größe", "日本語", "with space", "a/b", " ", " front", "back ", "tab\t", "nbsp\u00a0", "crlf\r\n", "A", "Ä", "a\u0308", "\ufeffbom", "nul\0",
         "\u0000", "\u202eright", "😀", "%s", "a.b", "`q`", '"q"', "\\", "\x7f", "\x80", "ǅ", "İ", "ß", "-1", "0", "NULL", "..", "\n\t\0", "MEERKAT_IDX1", "c" * 17]


def rand_name(rng, used=()):
    for _ in range(100):
        if rng.random() < .004:
            return rng.choice("uvwxyz") * rng.choice([4090, 16377, 16378, 20000]) + "%06d" % rng.randrange(10 ** 6)
        n = rng.choice(NAMES) if rng.random() < .5 else "".join(
            rng.choice("abcdefghijklmnopqrstuvwxyz_0123456789ABC") for _ in range(rng.randrange(1, 20)))
        if n not in used:
            return n
    return "n%d" % rng.randrange(1 << 60)


def u32(rng):
    return rng.choice([0, 1, 127, 128, 16383, 16384, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rng.randrange(1 << 32)])


def rand_bufs(rng, nullable, size):
    """size: none, small, chunks (some hundred kB), blocks (more than one block)"""
    if size == "none":
        return rng.choice([[], [[]], [[], []], [[[0, 5, 0]]] if nullable else [[]]])
    if size == "small":
        runs = column.rand_rows(rng, "bin", nullable, rng.randrange(1, 12))
    else:
        total = rng.randrange(10000, 70000) if size == "chunks" else rng.randrange(131000, 420000)
        l = rng.choice([1000, 3000, 16384, 16383, 40000, 131072, 131071, 200000, rng.randrange(50, 5000)])
        if size == "chunks":
            l = min(l, 20000)
        runs = []
        while total > 0:
            if nullable and rng.random() < .4:
                runs.append([0, rng.choice([1, 3, 8, 100, 3000, 70000]), 0])
            n = min(max(1, total // l), rng.randrange(1, 40))
            runs.append([1, n, l if rng.random() < .8 else rng.randrange(0, l + 1)])
            total -= max(1, n * runs[-1][2])
        if nullable and rng.random() < .4:
            runs.append([0, rng.choice([1, 3, 1000]), 0])
    return column.split(rng, runs, rng.choice([1, 1, 2, 3, 5]))


def rand_col(rng, size=None, used=(), close=True):
    nullable = rng.random() < .5
    return {"name": rand_name(rng, used), "ctype": rng.randrange(0, 10), "index": rng.randrange(0, 4), "enc": 0,
            "nullable": nullable, "seed": rng.randrange(1 << 30),
            "bufs": rand_bufs(rng, nullable, size or rng.choice(["none", "small", "small", "small", "chunks"])),
            "close": close or rng.random() < .7, "reuse": rng.random() < .5}


def rand_seg(rng, ncols=None, sizes=None, stop="close", unclosed=False, ids=None):
    used, cols = [], []
    for _ in range(rng.randrange(0, 5) if ncols is None else ncols):
        cols.append(rand_col(rng, rng.choice(sizes) if sizes else None, used, not unclosed))
        used.append(cols[-1]["name"])
    return {"id": ids or rand_id(rng), "db": rand_name(rng), "table": rand_name(rng), "shard": u32(rng),
            "rows": u32(rng), "cols": cols, "stop": stop}


def steps_of(seg):
    return 2 + sum(1 + len(c["bufs"]) + (1 if c["close"] else 0) for c in seg["cols"])


def stem(hexid):
    import base64
    return base64.urlsafe_b64encode(bytes.fromhex(hexid)).decode().rstrip("=")


def rand_sched(rng, segs):
    s = [i for i, g in enumerate(segs) for _ in range(steps_of(g))]
    rng.shuffle(s)
    return s


def case(segs, **kw):
    return {"segs": segs, "sched": [], "faults": [], **kw}


def block_seg(rng, blocks, stop="sync", nullable=False):
    """a segment whose data file gets the given numbers of background writes per block"""
    cols = []
    for k, n in enumerate(blocks):
        size = n * CHUNK - rng.randrange(200, 8000)
        cols.append({"name": "c%d" % k, "ctype": 8, "index": 0, "enc": 0, "nullable": nullable,
                     "seed": rng.randrange(1 << 30), "bufs": [[[1, 1, size]]], "close": True, "reuse": False})
    return {"id": rand_id(rng), "db": "db", "table": "t", "shard": 1, "rows": len(blocks), "cols": cols, "stop": stop}


def huge_case(rng, mib=32, gib=4):
    """a data file of more than 4 GiB: values of zeros, which the recorder turns into holes"""
    s = rand_seg(rng, ncols=1, sizes=["chunks"])
    big = {"name": "huge", "ctype": 8, "index": 0, "enc": 0, "nullable": rng.random() < .5, "seed": 1, "zero": True, "unit": 1 << 20,
           "bufs": [[[1, 1, mib << 20]] for _ in range(gib * 1024 // mib)], "close": True, "reuse": True}
    s["cols"] = s["cols"][:1] + [big] + rand_seg(rng, ncols=2, sizes=["small", "blocks"])["cols"]
    for k, c in enumerate(s["cols"]):
        c["name"] += str(k)
    return case([s], sparse=True, patience=300)


def wide_seg(rng, ncols, stop="close"):
    """many small columns"""
    s = rand_seg(rng, ncols=ncols, sizes=["none", "small"], stop=stop, unclosed=rng.random() < .5)
    for k, c in enumerate(s["cols"]):
        c["name"] = "%s%d" % (c["name"][:20], k)
    return s


def many_writes(rng, n):
    """columns written in very many calls"""
    s = rand_seg(rng, ncols=3, sizes=["small"])
    for k, c in enumerate(s["cols"]):
        c["name"] = "w%d" % k
        c["nullable"] = nullable = rng.random() < .5
        l = rng.choice([1, 3, 100, max(1, rng.choice([131072, 140000, 300000]) // n)])
        part = rng.choice([[[[1, 1, l]]], [[[1, 2, l]], []], [[[1, 1, l]], [[1, 1, 0]]]]) if not nullable else \
            rng.choice([[[[1, 1, l]], [[0, 1, 0]]], [[[0, 2, 0], [1, 1, l], [0, 1, 0]]], [[[0, 9, 0]], [[1, 1, l]], []]])
        c["bufs"] = [{"times": rng.choice([n, n, n + 1, n // 2]), "bufs": part}] + rng.choice([[], [[[1, 2, 7]]], [[[1, 1, 140000]]]])
    return case([s], merge=True)


def big_value_seg(rng):
    """values of many MiB, columns with very many nulls"""
    s = rand_seg(rng, ncols=3, sizes=["small"])
    for k, c in enumerate(s["cols"]):
        c["name"] = "b%d" % k
        c["nullable"] = True
        c["bufs"] = rand_bufs(rng, True, "small")
    mib = lambda: rng.choice([1 << 20, (1 << 21) + 1, (1 << 22) - 1, 5000000, 1 << 23, (1 << 24) + 1, 20000000, (1 << 25) + 3])
    b = s["cols"][1]
    b["bufs"] = [[[1, 1, mib()], [1, 3, 5]], [[1, 1, rng.choice([0, 200000])], [0, 2, 0], [1, 1, mib()]]]
    s["cols"][2]["bufs"] += [[[0, rng.choice([65536, 1 << 20, (1 << 21) + 3, (1 << 22) + 5]), 0], [1, 2, 70000]], [[1, 2, 70000]]]
    return s


def model_case(rng, v):
    """a behaviour of SegmentWriter.tla"""
    faults = []
    failed = False
    for e in v["env"]:
        f = {"file": "." + e["file"], "call": "write", "nth": e["nth"]}
        if e["other"] > 0:
            faults.append({**f, "kind": "wait", "arg": e["other"]})
        if not e["ok"]:
            faults.append({**f, "kind": rng.choice([errno(rng), errno(rng), "EIO", "zero"])})
            failed = True
    if v["result"] == "error" and not failed:
        faults.append({"file": rng.choice([".dat", ".idx"]), "call": "sync", "nth": 1, "kind": errno(rng)})
    return case([block_seg(rng, v["blocks"])], faults=faults)


def rand_faults(rng, segs, hard=True, waits=True):
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        f = rng.choice([".dat", ".dat", ".idx"])
        if len(segs) > 1 and rng.random() < .7:
            f = stem(rng.choice(segs)["id"]) + f
        c = rng.random()
        if hard and c < .08:
            faults.append({"file": f, "call": "open", "nth": 1, "kind": rng.choice(["EACCES", "EMFILE", "EINTR", errno(rng)])})
        elif hard and c < .2:
            faults.append({"file": f, "call": "sync", "nth": 1, "kind": rng.choice([errno(rng), errno(rng), "EINTR"])})
        elif hard and c < .6:
            faults.append({"file": f, "call": "write", "nth": rng.choice([1, 2, 3, 4, 5, rng.randrange(1, 30)]),
                           "kind": rng.choice([errno(rng), errno(rng), "zero"]), "forever": rng.random() < .2})
        elif waits and c < .75:
            faults.append({"file": f, "call": "write", "nth": rng.randrange(1, 8), "kind": "wait", "arg": rng.randrange(1, 6)})
        else:
            kind = rng.choice(["EINTR", "short"])
            for n in range(rng.choice([1, 1, 3])):
                faults.append({"file": f, "call": "write", "nth": rng.randrange(1, 8), "kind": kind,
                               "arg": rng.choice([1, 2, 100, 5000])})
    # one fault per place
    seen, out = set(), []
    for f in faults:
        k = (f["file"], f["call"], f["nth"])
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def at_once(rng, n, stops=("close",), faults=None):
    """segments of which the calls overlap: tasks of one thread or of a pool of threads, or a thread each"""
    cs = []
    while len(cs) < n:
        ids = near_ids(rng, rng.choice([2, 2, 3, 4]))
        segs = [rand_seg(rng, ids=i, ncols=rng.randrange(0, 4), sizes=["none", "small", "small", "chunks", "blocks"],
                         stop=rng.choice(stops), unclosed=bool(faults)) for i in ids]
        f = []
        if faults and rng.random() < .7:
            f = rand_faults(rng, segs, hard=faults == "hard", waits=False)
        cs.append(case(segs, mode=rng.choice(["together", "threads", "roving"]), faults=f))
    return cs


def once_more(rng, n, stops=("close",)):
    """segments that this process wrote (or began) before with other content, here or in another directory"""
    cs, ids = [], [rand_id(rng) for _ in range(3)]
    for _ in range(n):
        make = lambda stop: rand_seg(rng, ids=i, ncols=rng.randrange(0, 4), sizes=["none", "small", "small", "chunks", "blocks"],
                                     stop=stop, unclosed=stop == "drop")
        i = rng.choice(ids)
        seg = make(rng.choice(stops))
        again = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            prior = make(rng.choice(["close", "sync", "drop"]))
            if rng.random() < .4:  # same description, other rows
                prior = {**seg, "stop": prior["stop"],
                         "cols": [{**c, "bufs": rand_bufs(rng, c["nullable"], "small"), "seed": rng.randrange(1 << 30)} for c in seg["cols"]]}
            again.append({"seg": prior, "dir": rng.choice(["same", "other"]), "left": rng.random() < .5})
        cs.append(case([seg], again=again))
    return cs


def big_blocks(rng):
    """blocks of many MiB, as a single very long value makes them"""
    M = 1 << 20
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(["w", rng.choice([1, 100, 30000])])
        ops.append(["w", rng.choice([M, 2 * M, 2 * M + 1, 3 * M + 77, 4 * M, 4 * M + 1, 5 * M, 8 * M, 8 * M + 1, 9 * M + 5, 12 * M,
                                     16 * M + 1, 20 * M + 3, rng.randrange(M, 12 * M)])])
    ops.append([rng.choice(["flush", "sync"])])
    faults = []
    if rng.random() < .5:
        n = sum(-(-o[1] // CHUNK) for o in ops if o[0] == "w")
        faults.append({"file": "file.dat", "call": "write", "nth": rng.randrange(1, n + 1),
                       "kind": rng.choice(["EINTR", "short", errno(rng), "zero"]), "arg": rng.choice([1, 100, 5000])})
    return {"ops": ops, "seed": rng.randrange(1 << 30), "faults": faults}


def writer_case(rng, hard):
    ops = []
    for _ in range(rng.randrange(1, 12)):
        c = rng.random()
        if c < .7:
            ops.append(["w", rng.choice([0, 1, 5, 100, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1, 50000, 200000,
                                         rng.randrange(0, 70000)])])
        else:
            ops.append([rng.choice(["flush", "flush", "sync"])])
    ops.append([rng.choice(["flush", "sync"])])
    faults = []
    if rng.random() < .85:
        for _ in range(rng.choice([1, 1, 2, 4])):
            c = rng.random()
            if hard and c < .6:
                faults.append({"file": "file.dat", "call": "write", "nth": rng.randrange(1, 16),
                               "kind": rng.choice([errno(rng), errno(rng), "zero"]), "forever": rng.random() < .2})
            elif hard and c < .75:
                faults.append({"file": "file.dat", "call": "sync", "nth": rng.randrange(1, 3), "kind": rng.choice([errno(rng), errno(rng), "EINTR"])})
            elif hard and c < .8:
                faults.append({"file": "file.dat", "call": "open", "nth": 1, "kind": rng.choice(["EACCES", "EINTR"])})
            else:
                faults.append({"file": "file.dat", "call": "write", "nth": rng.randrange(1, 16),
                               "kind": rng.choice(["EINTR", "short"]), "arg": rng.choice([1, 100, 5000])})
    seen, out = set(), []
    for f in faults:
        k = (f["call"], f["nth"])
        if k not in seen:
            seen.add(k)
            out.append(f)
    c = {"ops": ops, "seed": rng.randrange(1 << 30), "faults": out}
    if rng.random() < .3:
        c["preexist"] = rng.choice([0, 10, 1000000])
    return c


# ---- models -----------------------------------------------------------------
def tseq(xs):
    return "<<" + ", ".join(str(x) for x in xs) + ">>"


def idx_cfg(bug, ncols=2, small=False):
    names = ["<<>>", "<<97>>"] if small else ["<<>>", "<<97>>", tseq([98] * 3)]
    nums = ["Zero", "Small(300)"] if small else ["Zero", "Small(127)", "Small(2097153)"]
    # constants are operators of the specification, so they are given by definitions
    return cfg({"MaxCols": ncols, "Bug": f'"{bug}"'}, ["Faithful", "NotBefore"],
               extra="CONSTANTS\n  Names <- NamesDef\n  Numbers <- NumbersDef\n")


def writer_model(blocks, faults, bug="none", emit=False, invs=("FooterImpliesData", "NothingLost", "Durable"),
                 props=(), fair=False):
    # the sequences of blocks: all of at most `blocks` blocks of one or two chunks
    return cfg({"MaxBlocks": blocks, "MaxFaults": faults, "Bug": f'"{bug}"', "Emit": "TRUE" if emit else "FALSE"},
               invs, props, spec="Fair" if fair else "Spec")


WRITER_BUGS = {"C15": [("swallow", ["NothingLost"]), ("no_data_flush", ["NothingLost"]), ("no_index_flush", ["NothingLost"])],
               "C16": [("sync_index_only", ["Durable"]), ("sync_data_only", ["Durable"]), ("sync_without_flush", ["Durable"])],
               "C17": [("no_data_flush", ["FooterImpliesData"]), ("flush_after_footer", ["FooterImpliesData"]),
                       ("swallow", ["FooterImpliesData"])]}


def writer_models(ck):
    T = ck.thorough
    ck.model("caller and background writes of both files", "SegmentWriter", writer_model(3 if T else 2, 2))
    ck.model("every call returns", "SegmentWriter", writer_model(2 if T else 1, 1, props=["Returns"], fair=True))
    for bug, invs in WRITER_BUGS[ck.prop]:
        ck.mutant(bug, "SegmentWriter", writer_model(2, 1, bug=bug, invs=invs))
    r = ck.model("histories", "SegmentWriter", writer_model(2, 1, emit=True))
    v = vectors(r)
    # distinct environments
    uniq = {json.dumps(x, sort_keys=True): x for x in v}
    v = [uniq[k] for k in sorted(uniq)]
    ck.rng.shuffle(v)
    # those with an early fault or a delay first
    ck.say(f"[{ck.prop}] {len(v)} histories of the model")
    return v


PIPE_INV = ["TypeOK", "DataFile", "Described", "Readable", "NoOrphans"]
PIPE_BUGS = {"C04": ["index_not_cleared", "offset_before_write", "rows_continue"],
             "C05": ["close_keeps_rows", "encoder_shared"],
             "C10": ["data_at_column_start", "index_before_last", "encoder_shared"],
             "C11": ["registered_at_open", "only_with_blocks"]}
UNIT = 65536      # half a block


def pipe_cfg(cols, rows, bufs, lens="{0, 1, 3}", bug="none", emit=False):
    return cfg({"MaxCols": cols, "MaxRows": rows, "MaxBufs": bufs, "Lens": lens, "BS": 2, "Bug": f'"{bug}"',
                "Emit": "TRUE" if emit else "FALSE"}, PIPE_INV)


def pipe_seg(rng, v):
    """a history of Pipeline.tla; one unit is half a block"""
    cols, used = [], []
    for c in v["cols"]:
        cols.append({"name": rand_name(rng, used), "ctype": rng.randrange(10), "index": rng.randrange(4), "enc": 0,
                     "nullable": c["nullable"], "seed": rng.randrange(1 << 30), "close": c["closed"],
                     "reuse": rng.random() < .5,
                     "bufs": [[[0, 1, 0] if x == 99 else [1, 1, x * UNIT] for x in b] for b in c["bufs"]]})
        used.append(cols[-1]["name"])
    return {"id": rand_id(rng), "db": rand_name(rng), "table": rand_name(rng), "shard": u32(rng), "rows": u32(rng),
            "cols": cols, "stop": rng.choice(["close", "close", "sync"])}


def pipeline(ck, quick=250):
    """whole segments: the histories of Pipeline.tla on the code"""
    rng, T = ck.rng, ck.thorough
    v = vectors(ck.model("whole segments", "Pipeline", pipe_cfg(2, 3, 2, emit=True)))
    if T:
        ck.model("whole segments of more rows", "Pipeline", pipe_cfg(2, 4, 2, "{0, 1, 2, 3}"))
        ck.model("whole segments of three columns", "Pipeline", pipe_cfg(3, 3, 2, "{1, 2}"))
    for bug in PIPE_BUGS[ck.prop]:
        ck.mutant(bug, "Pipeline", pipe_cfg(2, 3, 2, bug=bug))
    w = vectors(ck.simulate("whole segments of three columns", "Pipeline", pipe_cfg(3, 4 if not T else 5, 3, "{0, 1, 3}" if not T else "{0, 1, 2, 3}", emit=True),
                            400 if not T else 3000, 16))
    pick = lambda hs: [h for h in hs if any(c["bufs"] for c in h["cols"])]
    v, w = pick(v), pick(w)
    rng.shuffle(v)
    rng.shuffle(w)
    n = quick if not T else 20 * quick
    hs = v[:n // 2] + w[:n // 2]
    ck.conform("histories of whole segments", "segment", [case([pipe_seg(rng, h)]) for h in hs], "SegmentTrace",
               shape=shape, events=events_open)


# ---- checks -----------------------------------------------------------------
def data_check(ck):
    """C10"""
    rng, T = ck.rng, ck.thorough
    ck.model("caller and background writes of both files", "SegmentWriter", writer_model(2, 0))
    ck.mutant("bytes not flushed", "SegmentWriter", writer_model(2, 0, bug="no_data_flush", invs=["NothingLost"]))
    ck.model("segments in one directory", "Segments", segs_cfg(2, 3))
    ck.mutant("shared file", "Segments", segs_cfg(2, 2, bug="one_file"))
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_open)
    pipeline(ck)
    go("small segments", [case([rand_seg(rng, unclosed=True, sizes=["none", "small"])]) for _ in range(600 if not T else 8000)])
    go("segments with many chunks", [case([rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["small", "chunks"], unclosed=True)])
                                     for _ in range(250 if not T else 3000)])
    go("segments with many blocks", [huge_case(rng) for _ in range(1 if not T else 4)] + [case([rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["small", "blocks", "blocks"])])
                                     for _ in range(150 if not T else 2500)])
    cs = []
    for _ in range(200 if not T else 3000):
        segs = [rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["none", "small", "small", "chunks", "blocks"]) for _ in range(rng.choice([2, 2, 3]))]
        if len({s["id"] for s in segs}) == len(segs):
            cs.append(case(segs, sched=rand_sched(rng, segs)))
    go("interleaved segments", cs)
    go("segments written at the same time", at_once(rng, 60 if not T else 1200))
    go("segments written once more", once_more(rng, 40 if not T else 600))
    cs = []
    for _ in range(80 if not T else 1000):
        s = rand_seg(rng, ncols=rng.randrange(0, 3), sizes=["small", "chunks"])
        cs.append(case([s], preexist=[[stem(s["id"]) + rng.choice([".dat", ".idx"]), rng.choice([1, 100, 500000])]]))
    go("over older files of the same name", cs)
    cs = []
    for _ in range(150 if not T else 2000):
        s = rand_seg(rng, ncols=rng.randrange(1, 3), sizes=["small", "chunks"])
        cs.append(case([s], faults=rand_faults(rng, [s], hard=False)))
    go("interrupted, partial and slow writes", cs)
    wide = []
    for _ in range(6 if not T else 60):
        wide.append(case([rand_seg(rng, ncols=rng.choice([20, 60]), sizes=["none", "small"])]))
    go("many columns", wide)
    go("columns written in very many calls", [many_writes(rng, n) for n in MANY[T] for _ in range(2)])
    go("values of many MiB and many nulls", [case([big_value_seg(rng)]) for _ in range(12 if not T else 100)])


def index_check(ck):
    """C11"""
    rng, T = ck.rng, ck.thorough
    ck.model("write and read the index file", "IndexFileModel", idx_cfg("none", 3 if T else 2))
    for bug in ["field_swap", "first_column", "big_endian", "end_pos"]:
        ck.mutant(bug, "IndexFileModel", idx_cfg(bug))
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_open)
    pipeline(ck, 150)
    # every column type, index type and nullability, alone
    cs = []
    for ctype in range(10):
        for index in range(4):
            for nullable in (False, True):
                s = rand_seg(rng, ncols=1, sizes=["small"])
                s["cols"][0].update(ctype=ctype, index=index, nullable=nullable, bufs=rand_bufs(rng, nullable, "small"))
                cs.append(case([s]))
    go("all kinds of columns", cs)
    go("segments", [case([rand_seg(rng, unclosed=True, sizes=["none", "small"])]) for _ in range(900 if not T else 12000)])
    go("long data", [case([rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["small", "chunks", "blocks"])])
                     for _ in range(100 if not T else 1500)])
    cs = []
    for _ in range(60 if not T else 800):
        s = rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["none", "small"])
        for c in s["cols"]:
            c["enc"] = rng.choice([0, 4])
        cs.append(case([s]))
    go("encodings", cs)
    cs = []
    for _ in range(60 if not T else 800):
        s = rand_seg(rng, ncols=rng.randrange(0, 4), sizes=["none", "small"])
        cs.append(case([s], preexist=[[stem(s["id"]) + ".idx", rng.choice([1, 100, 10000])]]))
    go("over older files of the same name", cs)
    cs = []
    for _ in range(150 if not T else 2000):
        segs = [rand_seg(rng, sizes=["none", "small"]) for _ in range(rng.choice([2, 3]))]
        if len({s["id"] for s in segs}) == len(segs):
            cs.append(case(segs, sched=rand_sched(rng, segs)))
    go("interleaved segments", cs)
    go("segments written at the same time", at_once(rng, 60 if not T else 1200))
    go("segments written once more", once_more(rng, 40 if not T else 600))
    cs = []
    for _ in range(100 if not T else 1500):
        s = rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["small", "chunks"])
        cs.append(case([s], faults=rand_faults(rng, [s], hard=False)))
    go("interrupted, partial and slow writes", cs)
    go("many columns", [case([rand_seg(rng, ncols=rng.choice([20, 60, 150]), sizes=["none", "small"])]) for _ in range(8 if not T else 60)]
       + [case([wide_seg(rng, n)]) for n in ([257, 300] if not T else [255, 256, 257, 300, 513, 1025])])


def segs_cfg(n, calls, bug="none", emit=False, invs=("OwnFiles", "TwoFiles")):
    return cfg({"N": n, "Calls": calls, "Bug": f'"{bug}"', "Emit": "TRUE" if emit else "FALSE"}, invs,
               extra="CONSTANTS\n  Ids <- IdsDef\n")


def small_seg(rng, hexid, writes=1):
    return {"id": hexid, "db": "d", "table": "t", "shard": 1, "rows": 1, "stop": "close",
            "cols": [{"name": "c", "ctype": 8, "index": 0, "enc": 0, "nullable": False, "seed": rng.randrange(1 << 30),
                      "bufs": [[[1, rng.randrange(1, 4), rng.choice([1, 5, 300])]] for _ in range(writes)],
                      "close": True, "reuse": False}]}


def near_ids(rng, n):
    """ids whose names differ little"""
    c = rng.random()
    if c < .4:
        base = int(rand_id(rng), 16)
        out = {base}
        while len(out) < n:
            out.add(base ^ (1 << rng.randrange(128)))
        r = ["%032x" % x for x in out]
        rng.shuffle(r)
        return r
    if c < .6:    # names that differ in upper and lower case only: 'A' is 0, 'a' is 26
        a = "%032x" % (rng.randrange(1 << 122))
        b = "%032x" % (int(a, 16) | (26 << 122))
        out = [a, b]
    elif c < .8:  # '-' and '_' in different places
        out = ["f" * 32, "fb" * 16, "fbefbe" * 5 + "fb", "ffefbe" * 5 + "fb"]
        rng.shuffle(out)
    else:
        out = []
    out = list(dict.fromkeys(out))[:n]
    while len(out) < n:
        i = rand_id(rng)
        if i not in out:
            out.append(i)
    return out


# U+FFFF stands for a byte that is not UTF-8
DIRS = ["d", "a.dat", "x.idx", "d.d/e.e/f.f", "with space", "größe/日本語", "bad\uffffbyte", "\uffff\uffff", "-", "~", "$HOME", "%41", "a\nb",
        ".hidden", "...", "n" * 255, "/".join(["deep"] * 20), "MEERKAT_DATA1", "A" * 22 + ".dat"]
FORMS = ["absolute", "relative", "dot", "empty", "up", "slash", "slashes", "link"]


def files_check(ck):
    """C12"""
    rng, T = ck.rng, ck.thorough
    ck.model("segments in one directory", "Segments", segs_cfg(2, 3))
    ck.model("three segments in one directory", "Segments", segs_cfg(3, 1))
    for bug in ["truncated", "caseless", "constant", "one_file"]:
        ck.mutant(bug, "Segments", segs_cfg(2, 1, bug=bug))
    v = vectors(ck.model("interleavings of two", "Segments", segs_cfg(2, 3, emit=True)))
    v += vectors(ck.simulate("interleavings of three", "Segments", segs_cfg(3, 4, emit=True), 300 if not T else 5000, 60))
    v = [list(x) for x in dict.fromkeys(tuple(x) for x in v)]
    rng.shuffle(v)
    cs = []
    for s in v[:1000 if not T else 10000]:
        n = max(s) + 1
        w = 1 if n == 2 else 2
        cs.append(case([small_seg(rng, i, w) for i in near_ids(rng, n)], sched=s))
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_log)
    go("interleavings of the model", cs)
    cs = []
    for _ in range(250 if not T else 4000):
        ids = near_ids(rng, rng.choice([2, 3, 4]))
        segs = [rand_seg(rng, ids=i, sizes=["none", "small", "chunks"], stop=rng.choice(["close", "sync", "drop"])) for i in ids]
        pre = []
        if rng.random() < .5:
            pre = [[n, rng.randrange(100)] for n in rng.sample(["other.dat", "other.idx", "file", "x.tmp", "A.dat", "data.idx"], 2)]
        if rng.random() < .3:
            pre.append([stem(rng.choice(ids)) + rng.choice([".dat", ".idx"]), 1000])
        # the files of another segment, with a name that is almost the same
        if rng.random() < .4:
            o = "%032x" % (int(ids[0], 16) ^ (1 << rng.randrange(128)))
            if o not in ids:
                pre += [[stem(o) + ".dat", 77], [stem(o) + ".idx", 33]]
        cs.append(case(segs, sched=rand_sched(rng, segs), preexist=pre))
    go("random segments among other files", cs)
    go("segments written at the same time", at_once(rng, 100 if not T else 2000, ("close", "sync", "drop"), "soft"))
    go("segments written once more", once_more(rng, 40 if not T else 600, ("close", "sync", "drop")))
    cs = []
    for name in DIRS:
        for form in FORMS:
            ids = near_ids(rng, 2)
            segs = [rand_seg(rng, ids=i, ncols=rng.choice([0, 1, 2]), sizes=["none", "small"], stop=rng.choice(["close", "sync", "drop"]))
                    for i in ids[:rng.choice([1, 2])]]
            cs.append(case(segs, sched=rand_sched(rng, segs), dir=name, form=form))
    go("directories of all kinds", cs)
    cs = [case([small_seg(rng, rand_id(rng))]) for _ in range(500 if not T else 8000)]
    for b in range(128):
        cs.append(case([small_seg(rng, "%032x" % (1 << b))]))
        cs.append(case([small_seg(rng, "%032x" % ((1 << 128) - 1 - (1 << b)))]))
    for v6 in range(64):     # every character at every place
        cs.append(case([small_seg(rng, "%032x" % (int(format(v6, "06b") * 21 + format(v6, "06b")[:2], 2)))]))
    go("names", cs)


def errors_check(ck):
    """C15"""
    rng, T = ck.rng, ck.thorough
    v = writer_models(ck)
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_log)
    go("histories of the model", [model_case(rng, x) for x in v[:700 if not T else 6000]])
    # every place of a failing call
    cs = []
    for blocks in ([1], [2, 1], [9]):
        n = sum(blocks) + 1
        for f, m in ((".dat", n), (".idx", 3)):
            for k in range(1, m + 1):
                for kind in ("EIO", "ENOSPC", "zero", "EINTR", "short"):
                    for stop in ("close", "sync"):
                        cs.append(case([block_seg(rng, blocks, stop)], faults=[
                            {"file": f, "call": "write", "nth": k, "kind": kind, "arg": rng.choice([1, 3, 1000])}]))
            for call in ("open", "sync"):
                for kind in ERRNOS + ["EINTR"]:
                    cs.append(case([block_seg(rng, blocks)], faults=[{"file": f, "call": call, "nth": 1, "kind": kind}]))
    for kind in ERRNOS:
        for f in (".dat", ".idx"):
            for k in (1, 2, 3):
                cs.append(case([block_seg(rng, [1, 2])], faults=[{"file": f, "call": "write", "nth": k, "kind": kind}]))
    go("every failing call", cs)
    cs = []
    for _ in range(400 if not T else 8000):
        segs = [rand_seg(rng, ncols=rng.randrange(0, 4), sizes=["none", "small", "chunks"], stop=rng.choice(["close", "sync"]), unclosed=True)
                for _ in range(rng.choice([1, 1, 2]))]
        if len({s["id"] for s in segs}) == len(segs):
            cs.append(case(segs, sched=rand_sched(rng, segs), faults=rand_faults(rng, segs)))
    go("random segments and faults", cs)
    go("segments written at the same time", at_once(rng, 60 if not T else 1200, ("close", "sync"), "hard"))
    go("segments written once more", once_more(rng, 40 if not T else 600, ("close", "sync")))
    cs = []
    for _ in range(60 if not T else 1500):
        s = rand_seg(rng, ncols=rng.randrange(1, 3), sizes=["blocks"], stop=rng.choice(["close", "sync"]))
        cs.append(case([s], faults=[{"file": ".dat", "call": "write", "nth": rng.randrange(1, 30), "kind": rng.choice(["EIO", "EINTR", "short"]),
                                     "arg": rng.choice([1, 500])}]))
    go("many blocks and faults", cs)
    cs = []
    for _ in range(40 if not T else 800):
        s = wide_seg(rng, rng.choice([6, 9, 12, 17, 33, 65]), rng.choice(["close", "sync"]))
        cs.append(case([s], faults=rand_faults(rng, [s])))
    go("many columns and faults", cs)
    cs = [writer_case(rng, rng.random() < .6) for _ in range(1200 if not T else 20000)]
    ck.conform("block writer", "writer", cs, "WriterTrace", shape=shape, events=events_log)
    ck.conform("block writer, big blocks", "writer", [big_blocks(rng) for _ in range(60 if not T else 600)], "WriterTrace",
               shape=shape, events=events_log)
    column.refused_blocks(ck)


def sync_check(ck):
    """C16"""
    rng, T = ck.rng, ck.thorough
    v = writer_models(ck)
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_log)
    go("histories of the model", [model_case(rng, x) for x in v[:700 if not T else 6000]])
    cs = []
    for blocks in ([1], [2, 1], [9]):
        for f in (".dat", ".idx"):
            for kind in ERRNOS + ["EINTR"]:
                cs.append(case([block_seg(rng, blocks)], faults=[{"file": f, "call": "sync", "nth": 1, "kind": kind}]))
            cs.append(case([block_seg(rng, blocks)], faults=[{"file": f, "call": "sync", "nth": 1, "kind": "EIO", "forever": True}]))
            for k in range(1, 12):
                for arg in (1, 2, 3, 5):
                    cs.append(case([block_seg(rng, blocks)], faults=[{"file": f, "call": "write", "nth": k, "kind": "wait", "arg": arg}]))
                cs.append(case([block_seg(rng, blocks)], faults=[{"file": f, "call": "write", "nth": k, "kind": "EIO"}]))
    go("failing synchronisations and late writes", cs)
    cs = []
    for _ in range(400 if not T else 8000):
        segs = [rand_seg(rng, ncols=rng.randrange(0, 4), sizes=["none", "small", "chunks"], stop="sync", unclosed=True)
                for _ in range(rng.choice([1, 1, 2, 3]))]
        if len({s["id"] for s in segs}) == len(segs):
            cs.append(case(segs, sched=rand_sched(rng, segs),
                           faults=rand_faults(rng, segs) if rng.random() < .8 else []))
    go("random segments and faults", cs)
    go("segments written at the same time", at_once(rng, 60 if not T else 1200, ("sync",), "hard"))
    go("segments written once more", once_more(rng, 40 if not T else 600, ("sync",)))
    go("many columns", [case([s], faults=rand_faults(rng, [s]) if rng.random() < .5 else [])
                        for s in [wide_seg(rng, rng.choice([6, 9, 12, 17, 33, 65]), "sync") for _ in range(40 if not T else 800)]])
    go("many blocks", [case([rand_seg(rng, ncols=rng.randrange(1, 3), sizes=["blocks"], stop="sync")]) for _ in range(60 if not T else 1500)])
    cs = [writer_case(rng, rng.random() < .6) for _ in range(600 if not T else 10000)]
    ck.conform("block writer", "writer", cs, "WriterTrace", shape=shape, events=events_log)


def footer_check(ck):
    """C17"""
    rng, T = ck.rng, ck.thorough
    v = writer_models(ck)
    ck.model("nothing before the footer looks complete", "IndexFileModel", idx_cfg("none", 2))
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_log)
    go("histories of the model", [model_case(rng, x) for x in v[:700 if not T else 6000]])
    cs = []
    for blocks in ([1], [2], [2, 1], [3], [9]):
        for k in range(1, sum(blocks) + 2):
            for arg in (1, 2, 3, 4, 6):
                for stop in ("close", "sync"):
                    cs.append(case([block_seg(rng, blocks, stop)], faults=[{"file": ".dat", "call": "write", "nth": k, "kind": "wait", "arg": arg}]))
            for kind in ("EIO", "short", "EINTR"):
                cs.append(case([block_seg(rng, blocks)], faults=[{"file": ".dat", "call": "write", "nth": k, "kind": kind, "arg": 10}]))
    go("late and failing writes of blocks", cs)
    cs = []
    for _ in range(400 if not T else 8000):
        segs = [rand_seg(rng, ncols=rng.randrange(0, 4), sizes=["none", "small", "chunks"], stop=rng.choice(["close", "sync", "drop"]), unclosed=True)
                for _ in range(rng.choice([1, 1, 2]))]
        if len({s["id"] for s in segs}) == len(segs):
            cs.append(case(segs, sched=rand_sched(rng, segs),
                           faults=rand_faults(rng, segs) if rng.random() < .8 else []))
    go("random segments and faults", cs)
    go("segments written at the same time", at_once(rng, 60 if not T else 1200, ("close", "sync", "drop"), "hard"))
    go("segments written once more", once_more(rng, 40 if not T else 600, ("close", "sync", "drop")))
    cs = []
    for _ in range(60 if not T else 1500):
        s = rand_seg(rng, ncols=rng.randrange(1, 3), sizes=["blocks"])
        cs.append(case([s], faults=[{"file": ".dat", "call": "write", "nth": rng.randrange(5, 30), "kind": "wait", "arg": rng.randrange(1, 5)}]))
    go("many blocks and late writes", cs)
    cs = []
    for _ in range(60 if not T else 1000):
        s = wide_seg(rng, rng.choice([6, 9, 12, 17, 33, 65, 130]), rng.choice(["close", "sync", "drop", "drop"]))
        cs.append(case([s], faults=rand_faults(rng, [s]) if rng.random() < .5 else []))
    go("many columns", cs)
    cs = []
    for k in range(20 if not T else 200):
        s = rand_seg(rng, ncols=2, sizes=["blocks"], stop="drop")
        s["cols"][1]["name"] += "x"
        s["cols"][k % 2]["close"] = False
        cs.append(case([s]))
    go("many blocks, not closed", cs)


def to_runs(buf):
    return [[0, 1, 0] if x == -1 else [1, 1, 3] for x in buf]


def matrix_case(rng, kind, enc, nullable, bufs, via, bs=None):
    if via == "encoder":
        return {"kind": kind, "enc": enc, "nullable": nullable, "via": via, "bufs": bufs,
                "bs": bs or rng.choice([1, 4, 8, 9, 64, 4096, 1 << 17]), "seed": rng.randrange(1 << 30)}
    s = rand_seg(rng, ncols=1, sizes=["none"])
    s["cols"][0].update(enc=enc, nullable=nullable, bufs=bufs, close=True)
    return {"kind": kind, "via": via, "enc": enc, "seg": case([s])}


def matrix_check(ck):
    """C18"""
    rng, T = ck.rng, ck.thorough
    inv = ["Honest", "RefusedClean", "RawAvailable"]
    conf = lambda rows, bug="none", emit=False: cfg({"Encodings": "{0, 1, 2, 3, 4}", "MaxRows": rows, "Bug": f'"{bug}"',
                                                     "Emit": "TRUE" if emit else "FALSE"}, inv)
    r = ck.model("every request, small columns", "Matrix", conf(3 if not T else 4, emit=True))
    for bug in ["discard", "late", "no_raw", "forget_nulls"]:
        ck.mutant(bug, "Matrix", conf(2, bug=bug))
    events = lambda o: 2
    go = lambda name, cases: ck.conform(name, "matrix", cases, "MatrixTrace", events=events)
    vecs = vectors(r)
    # refused requests are tried with rows of some other request
    kept = [v["bufs"] for v in vecs if not v["refused"] and v["bufs"]]
    cs = []
    for v in vecs:
        if v["refused"]:
            for via in ["encoder"] + (["segment"] if v["kind"] == "bin" else []):
                for _ in range(10):
                    b = rng.choice(kept)
                    b = [to_runs(x) for x in b]
                    if not v["nullable"]:
                        b = [[[1, 1, r[2] or 3] for r in x] for x in b]
                    cs.append(matrix_case(rng, v["kind"], v["enc"], v["nullable"], b, via))
        else:
            for via in ["encoder"] + (["segment"] if v["kind"] == "bin" else []):
                cs.append(matrix_case(rng, v["kind"], v["enc"], v["nullable"], [to_runs(x) for x in v["bufs"]], via))
    rng.shuffle(cs)
    go("requests of the model", cs)
    cs = []
    for _ in range(2500 if not T else 40000):
        kind = rng.choice(["i32", "i64", "u64", "f64", "bin", "bin"])
        nullable = rng.random() < .5
        rows = column.rand_rows(rng, kind, nullable, rng.randrange(1, 15), big=rng.random() < .2)
        bufs = column.split(rng, rows, rng.choice([1, 2, 3]))
        via = "segment" if kind == "bin" and rng.random() < .5 else "encoder"
        cs.append(matrix_case(rng, kind, rng.randrange(5), nullable, bufs, via, column.pick_bs(rng, kind, rows)))
    go("random columns in every encoding", cs)


def seg_blocks(ck):
    """C04, C05: the blocks and the block index of segments"""
    rng, T = ck.rng, ck.thorough
    go = lambda name, cases: ck.conform(name, "segment", cases, "SegmentTrace", shape=shape, events=events_open)
    pipeline(ck)
    go("columns of segments", [case([rand_seg(rng, unclosed=True, sizes=["none", "small", "small", "chunks"])])
                               for _ in range(250 if not T else 4000)])
    huge = [huge_case(rng) for _ in range(1 if not T else 4)] if ck.prop == "C04" else []
    go("columns of many blocks in segments", huge + [case([rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["small", "blocks", "blocks"])])
                                              for _ in range(80 if not T else 1500)])
    go("columns written in very many calls", [many_writes(rng, n) for n in MANY[T] for _ in range(2)])
    cs = []
    for _ in range(60 if not T else 1000):
        segs = [rand_seg(rng, ncols=rng.randrange(1, 4), sizes=["none", "small", "blocks"]) for _ in range(2)]
        if len({s["id"] for s in segs}) == len(segs):
            cs.append(case(segs, sched=rand_sched(rng, segs)))
    go("interleaved segments", cs)
    if ck.prop == "C04":
        go("segments written at the same time", at_once(rng, 30 if not T else 800))
        go("segments written once more", once_more(rng, 40 if not T else 600))


def with_segments(prop):
    def go(ck):
        column.CHECKS[prop](ck)
        seg_blocks(ck)
    return go


CHECKS = {"C10": data_check, "C11": index_check, "C12": files_check, "C15": errors_check, "C16": sync_check,
          "C17": footer_check, "C18": matrix_check, "C04": with_segments("C04"), "C05": with_segments("C05")}

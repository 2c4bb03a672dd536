"""C06, C07: validity bitmap codec and varints."""
from core import *


def events(o):
    return 2 + len(o.get("ev", []))


# ---- C07 --------------------------------------------------------------------
def digits(v):
    return [(v >> (7 * i)) & 127 for i in range(10)]


def c07(ck):
    rng, T = ck.rng, ck.thorough

    def conf(ds, pos, bug="none", emit=False):
        return cfg({"Ds": tla_set(ds), "Positions": pos, "Bug": f'"{bug}"',
                    "Emit": "TRUE" if emit else "FALSE"},
                   ["Canonical", "Announced", "Shortest", "RoundTrip"])
    r = ck.model("values with notable digits", "VarintModel", conf([0, 1, 127], 6 if not T else 8, emit=True))
    vecs = {tuple(v["v"]) for v in vectors(r)}
    ck.model("all digits, low positions", "VarintModel", conf(range(128), 1))
    for b in ("formula", "off_by_one", "part_shift"):
        ck.mutant(b, "VarintModel", conf([0, 1, 127], 3, b))
    if T:
        ck.apalache("every 64-bit value, every continuation", "VarintAll", "Inv", length=1)
        ck.apalache("a wrong announced length", "VarintAll", "WrongFormula", length=1, rejected=True)

    def suffix():
        return [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 5, 7, 8, 11, 16, 30, rng.randrange(60)]))]
    vals = {sum(d << (7 * i) for i, d in enumerate(v)) for v in vecs}
    for k in range(64):
        for d in (-2, -1, 0, 1, 2):
            vals.add(max(0, min((1 << 64) - 1, (1 << k) + d)))
    vals.add((1 << 64) - 1)
    for _ in range(3000 if not T else 40000):
        vals.add(sum(rng.choice([0, 0, 1, 64, 127, 127]) << (7 * i) for i in range(rng.randrange(1, 11))) % (1 << 64))
    for _ in range(4000 if not T else 60000):
        vals.add(rng.getrandbits(rng.randrange(1, 65)))
    vals |= set(range(0, 20000 if not T else 140000, 1 if T else 3))
    vals = sorted(vals)
    cases = [{"op": "enc", "v": digits(v), "pre": rng.choice([0, 1, 5, rng.choice([7, 8, 9, 15, 16, 31, 64, 127, 128, 1000, 1 << 16])]), "suf": suffix()} for v in vals]
    ck.conform("values", "varint", cases, "VarintTrace", events=lambda o: 2)
    dec = []
    for n in range(10, 30):
        for _ in range(10 if not T else 100):
            b = [rng.choice([128, 129, 255, rng.randrange(128, 256)]) for _ in range(n)]
            dec.append({"op": "dec", "b": b + [rng.randrange(256) for _ in range(rng.randrange(3))]})
    ck.conform("ten or more continuation bytes", "varint", dec, "VarintTrace", events=lambda o: 2)


# ---- C06 --------------------------------------------------------------------
def bits_of_bytes(bs):
    runs = []
    for x in bs:
        for k in range(8):
            v = (x >> k) & 1
            if runs and runs[-1][0] == v:
                runs[-1][1] += 1
            else:
                runs.append([v, 1])
    return runs


def rand_bits(rng, n_runs):
    out = []
    for _ in range(n_runs):
        c = rng.random()
        if c < .4:
            n = rng.randrange(1, 10)
        elif c < .7:
            n = 8 * rng.randrange(1, 8) + rng.choice([0, 0, 0, 1, -1])
        elif c < .9:
            n = rng.choice([16, 24, 32, 40]) + rng.randrange(0, 8)
        else:
            n = rng.choice([500, 504, 512, 520, 1016, 1024, 1032]) + rng.randrange(-1, 2)
        out.append([rng.randrange(2), max(1, n)])
    return out


def rand_bytes_bits(rng):
    """byte-aligned patterns: runs of two, three and more bytes among literals"""
    bs = []
    for _ in range(rng.randrange(1, 25)):
        x = rng.choice([0, 255, 1, 128, 0x55, rng.randrange(256)])
        bs += [x] * rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 63, 64, 65, 127, 128, 129] if rng.random() < .2
                               else [1, 1, 2, 2, 3, 3, 4])
    r = bits_of_bytes(bs)
    for _ in range(rng.randrange(0, 8)):
        r.append([rng.randrange(2), 1])
    return r


def as_ops(rng, runs):
    """the bits put one by one, or from ranges of a bitmap, or both"""
    style = rng.random()
    if style < .5:
        return [["put", b, n] for b, n in runs]
    ops, ones = [], sum(n for b, n in runs if b)
    if ones == 0 or style > .9:
        k = rng.randrange(len(runs) + 1)
        ops = [["put", b, n] for b, n in runs[:k]]
        runs = runs[k:]
        ones = sum(n for b, n in runs if b)
    if ones:
        # consecutive ranges of one bitmap, which has other bits in front
        front = rand_bits(rng, rng.randrange(0, 3))
        bm = front + runs
        start = sum(n for _, n in front)
        left, pos = ones, start
        flat = [b for b, n in runs for _ in range(n)] if sum(n for _, n in runs) < 20000 else None
        while left > 0:
            num = left if flat is None else rng.randrange(1, left + 1)
            if len(ops) > 12:
                num = left
            ops.append(["from", bm, pos, num])
            if flat is not None:
                seen = 0
                i = pos - start
                while seen < num:
                    seen += flat[i]
                    i += 1
                pos = start + i
            left -= num
    return ops


def c06(ck):
    rng, T = ck.rng, ck.thorough
    invs = ["Lossless", "Compact", "Maximal"]

    def conf(alpha, n, rounds, bug="none", emit=False):
        return cfg({"Alphabet": tla_set(alpha), "MaxLen": n, "Rounds": rounds, "Bug": f'"{bug}"',
                    "Emit": "TRUE" if emit else "FALSE"}, invs)
    r1 = ck.model("three byte values", "RleModel", conf([0, 255, 6], 8 if not T else 10, 1, emit=True))
    r2 = ck.model("two rounds", "RleModel", conf([0, 255], 6 if not T else 7, 2, emit=True))
    for b in ("run_start", "flush_run"):
        ck.mutant(b, "RleModel", conf([0, 255, 6], 6, 1, b))
    for b in ("clear_state", "clear_buffer"):
        ck.mutant(b, "RleModel", conf([0, 255], 5, 2, b))
    vecs = vectors(r1) + vectors(r2)
    rng.shuffle(vecs)
    cases = []
    for v in vecs[:8000 if not T else len(vecs)]:
        ops = []
        for rnd in v:
            runs = bits_of_bytes(rnd)
            tail = rng.randrange(0, 8)
            if tail:
                runs.append([rng.randrange(2), tail])
            ops += [["put", b, n] for b, n in runs]
            ops += [["flush"], ["clear"]]
        cases.append({"ops": ops[:-1]})
    ck.conform("byte sequences of the model", "rle", cases, "RleTrace", events=events)
    # every bit sequence up to a length
    cases = []
    top = 10 if not T else 14
    for n in range(0, top + 1):
        for x in range(1 << n):
            cases.append({"ops": [["put", (x >> i) & 1, 1] for i in range(n)] + [["flush"]]})
    ck.conform(f"all bit sequences up to {top} bits", "rle", cases, "RleTrace", events=events)
    cases = []
    for _ in range(2500 if not T else 25000):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            runs = rand_bits(rng, rng.randrange(1, 30)) if rng.random() < .5 else rand_bytes_bits(rng)
            ops += as_ops(rng, runs)
            if rng.random() < .9:
                ops.append(["flush"])
            ops.append(["clear"])
        cases.append({"ops": ops})
    ck.conform("random bits and ranges, encoders reused", "rle", cases, "RleTrace", events=events)
    # encoders used very many times
    cases = []
    for n in [255, 256, 257, 1023, 1025, 65535, 65536, 66000] + ([1 << 20] if T else []):
        for _ in range(6):
            use = rand_bits(rng, rng.randrange(1, 3)) if rng.random() < .5 else rand_bytes_bits(rng)[:6]
            use = [["put", b, min(k, 40)] for b, k in use] + [["flush"]] * rng.choice([0, 1])
            ops = [["rep", n, use]]
            for _ in range(3):
                ops += as_ops(rng, rand_bits(rng, rng.randrange(1, 9))) + [["flush"], ["clear"]]
            cases.append({"ops": ops})
    ck.conform("encoders reused very many times", "rle", cases, "RleTrace", events=events)
    # lengths at which the frame headers grow
    cases = []
    for n in (63, 64, 65, 8191, 8192, 8193):
        alt = [[1, 4]] + [[i % 2, 8] for i in range(n - 1)] + [[(n - 1) % 2, 4]]
        cases.append({"ops": [["put", b, k] for b, k in alt] + [["flush"]]} if n < 100
                     else {"ops": [["from", alt + [[1, 1]], 0, sum(k for b, k in alt if b) + 1], ["flush"]]})
        for bit in (0, 1):
            for tail in (0, 3):
                cases.append({"ops": [["put", bit, 8 * n + tail], ["flush"]]})
                cases.append({"ops": [["put", 1 - bit, 5], ["put", bit, 8 * n + tail], ["put", 1 - bit, 8], ["flush"]]})
    for n in [(1 << 20) - 1, 1 << 20, (1 << 20) + 1]:
        cases.append({"ops": [["put", 1, 1], ["put", 0, 8 * n], ["put", 1, 1], ["flush"]]})
        cases.append({"ops": [["put", 0, 8 * n], ["flush"]]})
        if T:
            cases.append({"ops": [["put", 0, 3], ["put", 1, 8 * n], ["put", 0, 1], ["put", 1, 2], ["flush"]]})
    ck.conform("long runs and literals", "rle", cases, "RleTrace", events=events)
    # literals of every length around powers of two, followed by nothing, a pair, a run or a literal
    cases = []

    def literal(n, first):
        # pairs of equal bytes: no run, two bytes per run of bits
        out, v = [], first
        for _ in range(n // 2):
            out.append([v, 16])
            v = 1 - v
        return out + ([[v, 8]] if n % 2 else []), (1 - v if n % 2 else v)
    lens = [(1 << k) + d for k in range(5, 13 if not T else 15) for d in range(-5, 5)]
    lens += rng.sample(range((1 << 16) - 5, (1 << 16) + 5), 2 if not T else 10)
    lens += rng.sample(range((1 << 13) - 5, (1 << 13) + 5), 2) + rng.sample(range((1 << 14) - 5, (1 << 14) + 5), 2)
    for n in lens:
        for last in ("run", rng.choice(["end", "pair", "bits"])):
            bits, v = literal(n, rng.randrange(2))
            if last == "run":
                bits += [[v, 8 * rng.choice([3, 4, 9])], [1 - v, 8 * rng.randrange(1, 3)]]
            elif last == "pair":
                bits += [[v, 16], [1 - v, 3]]
            elif last == "bits":
                bits += [[1, 1], [0, 1], [1, 1]]
            ops = [["put", b, k] for b, k in bits]
            if len(bits) > 100 or rng.random() < .5:
                ones = sum(k for b, k in bits if b)
                ops = [["from", bits + [[1, 1]], 0, ones + 1]]
            cases.append({"ops": ops + [["flush"]]})
    ck.conform("literals of lengths around powers of two", "rle", cases, "RleTrace", events=events)


CHECKS = {"C06": c06, "C07": c07}

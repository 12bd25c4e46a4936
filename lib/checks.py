"""The check of each property: which models are checked, which cases are run
on the real code, and which specification judges the events."""
import os
import random

from engine import SPEC
from gen import Gen, word, unword, dword, be, EDGES, LARGE, RUNES
from structs import Structs, STATIC

CHECKS = {}


def prop(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


EDGE_SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257]
LENGTH_EDGES = [0, 1, 12, 13, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257]


def edge_values(g, big=True):
    """values at the boundaries between header forms"""
    out = []
    for n in LENGTH_EDGES:
        for kind in ("list", "sparse", "map", "utf8", "raw", "unk"):
            out.append(g.wide(n, kind))
    for n in (1, 2, 4, 8, 16):
        out.append(g.wide(n, "unk"))
    if big:
        for kind in ("utf8", "raw", "unk"):
            for n in (65535, 65536, g.r.randrange(65537, 90000)):
                out.append(g.wide(n, kind))
    return out


def wide_values(g):
    return [g.wide(n, k) for k in ("list", "sparse", "map") for n in (65535, 65536)]


def edge_longs():
    out = []
    for k in range(64):
        for d in (-1, 0, 1):
            for s in (1, -1):
                n = s * (1 << k) + d
                if -(1 << 63) <= n < 1 << 63:
                    out.append(["long", word(n)])
    return out


def edge_unknowns(lengths=(0, 1, 2)):
    """extensions of every tag"""
    return [["unk", [t] + [(t + 7 * i) % 256 for i in range(n)]] for t in range(256) if t not in (1, 2) for n in lengths]


def edge_exponents():
    """decimals at the edges of their exponents, which nothing but encoding and text may look at"""
    out = []
    for k in (0, 7, 8, 15, 16, 23, 24, 30, 31):
        for d in (-1, 0, 1):
            for s in (1, -1):
                n = s * (1 << k) + d
                if -(1 << 31) <= n < 1 << 31:
                    out.append(["dec", s < 0, [k + 1], list((n % (1 << 32)).to_bytes(4, "big"))])
    return out


NOTES = {}


def note(name, technique, text):
    NOTES[name] = (technique, text)


def desc(g, v):
    """a descriptor of an abstract value the specification wrote"""
    if v[0] == "list":
        return ["list", g.impl(), [desc(g, x) for x in v[1]]]
    if v[0] == "map":
        return ["map", g.impl(), [[k, desc(g, x)] for k, x in v[1]]]
    if v[0] == "sparse":
        return ["sparse", [[k, desc(g, x)] for k, x in v[1]]]
    return v


def universe(run, g):
    rows = run.generate("MC_Codec", "MC_Codec.cfg" if run.quick else "MC_CodecDeep.cfg")
    rows.sort(key=str)
    return rows


TRACE = "TLA+ specification of the wire format model checked with TLC; generated and random values replayed on " \
        "the code, recorded events judged by TLC"

note("C01", TRACE,
     "Every value of a bounded universe, all header boundaries, and seeded random values to depth 5 are built with "
     "both implementations, serialized and deserialized by all entry points, and compared with the specification's "
     "Dec(Enc(v)). Trusted: TLC, the driver's projection of values through public accessors.")


@prop("C01")
def c01(run):
    g = Gen(run.rng)
    vs = [desc(g, x["v"]) for x in universe(run, g)]
    vs += edge_values(g) + [g.value(14, 5) for _ in range(run.scale(6000, 60000))]
    vs += [g.deep(n) for n in (6, 20, 60)] + edge_longs() + wide_values(g) + edge_unknowns((0, 5))
    run.check([{"op": "codec", "v": v} for v in vs], "CodecTrace", "round trips")
    check_huge(run, g, ["trip"])
    return "model_checking"


note("C02", TRACE,
     "The bytes of every entry point and every way of building the same content are compared with the "
     "specification's Enc(v), which model checking shows to be shortest and uniquely decodable on a bounded universe.")


@prop("C02")
def c02(run):
    g = Gen(run.rng)
    vs = [desc(g, x["v"]) for x in universe(run, g)]
    vs += edge_values(g) + [g.value(14, 5) for _ in range(run.scale(3000, 40000))] + edge_longs() + wide_values(g)
    vs += edge_unknowns((1, 3)) + edge_exponents() + [g.deep(n) for n in (6, 20, 50)]
    cases = [{"op": "routes", "v": v} for v in vs]
    cases += [{"op": "calls", "calls": packer_calls(g), "limit": -1} for _ in range(run.scale(1000, 10000))]
    run.check(cases, "CodecTrace", "canonical bytes")
    check_huge(run, g, [])
    return "model_checking"


def packer_calls(g):
    r = g.r
    out = []
    for _ in range(r.randrange(1, 10)):
        k = r.randrange(10)
        out.append([["nil"], ["bool", g.chance(0.5)], g.long(), g.double(),
                    ["str", g.textbytes()], ["bin", g.bytes(r.choice([0, 1, 5, 255, 256]))],
                    ["ext", g.unk(r.choice([1, 2, 3, 4, 5, 8, 16, 17, 255, 256]))[1]],
                    ["list", r.choice([0, 1, 15, 16, 17, 65535, 65536, 1 << 20])],
                    ["map", r.choice([0, 1, 15, 16, 17, 65535, 65536, 1 << 20])],
                    ["raw", g.bytes(r.randrange(0, 6))]][k])
    return out


note("C03", TRACE,
     "Every alternative encoding of the bounded universe and seeded random encodings in all widths, with all kinds of "
     "keys, are decoded by every entry point and compared with the specification's Dec. Text of double keys is checked "
     "by exact rounding, text of container keys only by shape.")


@prop("C03")
def c03(run):
    g = Gen(run.rng)
    ins = [a for x in universe(run, g) for a in x["alts"]]
    if run.quick:
        ins = g.r.sample(ins, min(len(ins), 6000))
    ins += [g.encoding(12, 4) for _ in range(run.scale(6000, 60000))]
    ins += [g.crowded(n) for n in (2, 3, 4, 5, 8, 11, 12, 13, 14, 17, 24, 33, 50, 51, 64, 100) for _ in range(run.scale(20, 120))]
    edges = g.scalars() + g.extensions() + g.blobs(EDGE_SIZES) + g.counted(EDGE_SIZES[:-2])
    ins += edges + g.blobs([65535, 65536]) + g.counted([65535, 65536] if run.quick else [32767, 32768, 65535, 65536, 65537])
    # the same as keys, as entries and as elements
    some = [b for b in edges if len(b) < 40]
    for b in g.r.sample(some, run.scale(900, len(some))):
        ins.append(g.r.choice([[129] + b + [1], [129, 161, 107] + b, [145] + b, [130] + b + [2, 1, 2],
                               [130] + b + [2, 161, 107, 2]]))
    for n in (9, 17, 33, 50):       # nested in each other
        ins += [head * n + g.e_atom() for head in ([129, 161, 97], [129, 5], [129, 161, 98, 145], [222, 0, 1, 217, 1, 97])]
    ins += [[145] * n + g.e_atom() for n in (9, 17, 33, 65, 100, 110)]
    cases = [{"op": "unpack", "in": b} for b in ins]
    cases += [{"op": "tokens", "copy": g.chance(0.5), "in": b} for b in edges]
    for h in (220, 221, 222, 223):
        for n in EDGES:
            if n < 1 << (16 if h in (220, 222) else 32):
                cases.append({"op": "tokens", "copy": False, "in": [h] + be(n, 2 if h in (220, 222) else 4)})
    cases += [{"op": "tokens", "copy": g.chance(0.5), "in": sum((g.encoding(6, 3) for _ in range(g.r.randrange(1, 4))), [])}
              for _ in range(run.scale(1000, 8000))]
    run.check(cases, "CodecTrace", "encodings")
    check_huge(run, g, ["trip"])
    return "model_checking"


note("C04", TRACE,
     "Mutated, truncated, random and hostile inputs (huge counts, deep nesting in values and keys) are decoded under a "
     "memory limit and a watchdog; kind of outcome, decoded content and bytes allocated are judged by the "
     "specification. Memory is bounded per input byte, not exactly.")


@prop("C04")
def c04(run):
    g = Gen(run.rng)
    universe(run, g)
    n = run.scale(4000, 40000)
    cases = [{"op": "unpack", "in": g.mutate(g.encoding(10, 4))} for _ in range(n)]
    cases += [{"op": "unpack", "in": g.junk()} for _ in range(n)]
    cases += [{"op": "unpack", "in": [a] + b} for a in range(256) for b in ([], [0], [255], [1, 2, 3, 4, 5, 6, 7, 8])]
    cases += [{"op": "tokens", "copy": g.chance(0.5), "in": g.mutate(g.encoding(6, 3))} for _ in range(n // 3)]
    g.valid = True
    cases += [{"op": "cuts", "in": g.encoding(10, 4)} for _ in range(run.scale(600, 5000))]
    run.check(cases, "CodecTrace", "hostile input")
    check_huge(run, g, ["cuts"], most=300000)
    run.check(bombs(run), "CodecTrace", "bombs", drive={"limit": 60})
    st = Structs(g)
    g.valid = False
    cases = [st.into(mutate=True) for _ in range(run.scale(1500, 20000))]
    cases += [st.into(mutate=True, bad=True) for _ in range(run.scale(100, 1000))]
    g.valid = True
    cases += [dict(st.into(), op="prefixes") for _ in range(run.scale(300, 3000))]
    cases += struct_bombs()
    run.check(cases, "StructTrace", "hostile input for structs", drive={"limit": 60})
    return "model_checking"


def struct_bombs():
    out = []

    def bomb(name, piece, n, then, expect):
        out.append({"op": "into", "static": name, "types": STATIC[name], "marker": n, "root": 1, "in": piece, "rep": n,
                    "then": then, "expect": expect})
    for p in ([129, 2], [129, 4], [129, 3, 145], [223, 0, 0, 0, 1, 210, 0, 0, 0, 2]):
        for n in (10, 1000, 20000):
            bomb("rec", p, n, [128], "ok")
            bomb("rec", p, n, [], "err")
            bomb("rec", p, n, [129, 5, 192], "err")
        for n in (100000, 3000000):
            bomb("rec", p, n, [], "err")
            bomb("rec", p, n, [128], "any")
    for p in ([129, 2, 129, 1], [129, 2, 129, 3]):
        bomb("mut", p, 5000, [128], "ok")
        bomb("mut", p, 2000000, [], "err")
    for h in ([223], [129, 3, 221], [129, 1, 221], [129, 1, 223], [129, 1, 198], [129, 1, 201], [129, 4, 223], [222]):
        for c in ([255] * 4, [0x7f, 255, 255, 255], [0x80, 0, 0, 0], [0x40, 0, 0, 0], [0, 255, 255, 255]):
            for n in (0, 10, 3000):
                bomb("rec", h + c, 1, [1] * n, "err")
                bomb("rec", h + c, 1, [128] * n, "err")
    return out


def bombs(run):
    """long inputs made of one repeated piece"""
    out = []

    def bomb(piece, n, then, expect):
        out.append({"op": "unpack", "quiet": True, "in": piece, "rep": n, "then": then, "expect": expect})
    for n in (10, 1000, 20000):
        for p, t in (([145], [192]), ([221, 0, 0, 0, 1], [1]), ([129, 161, 97], [192]), ([129, 1], [192]),
                     ([146, 144], [192]), ([130, 1, 2, 3], [4])):
            bomb(p, n, t, "ok")
            bomb(p, n, [], "uneof")
            bomb(p, n, [207, 255, 0, 0, 0, 0, 0, 0, 0], "err")
    for n in (100000, 3000000):
        for p in ([145], [129, 1], [129, 161, 97], [221, 255, 255, 255, 255], [223, 127, 255, 255, 255, 1],
                  [220, 255, 255], [159], [143, 1]):
            bomb(p, n, [], "any")
            bomb(p, n, [192], "any")
    for n in (1, 3, 30, 1000, 100000, 1000000):     # containers as keys
        for p in ([129], [145, 129], [129, 145], [131], [223, 0, 0, 0, 1], [223, 255, 255, 255, 255]):
            bomb(p, n, [], "any")
            bomb(p, n, [192] * 40, "any")
    for h in ([221], [223], [219], [198], [201]):
        for c in ([255] * 4, [0x7f, 255, 255, 255], [0x80, 0, 0, 0], [0x40, 0, 0, 0], [0, 255, 255, 255]):
            for n in (0, 10, 3000):
                bomb([1], n, [], "eof" if n == 0 else "ok")
                out[-1].update({"in": h + c, "rep": 1, "then": [1] * n, "expect": "uneof"})
    return out


note("C05", "TLA+ pushdown model of reading from a splitting, stalling, failing source, model checked with TLC; all "
     "splittings of small inputs and random ones replayed on the code, events judged by TLC",
     "All splittings of small inputs are enumerated; longer streams are random. The judge compares every value, the "
     "end or failure reported and the bytes taken with the specification.")


HUGE = {"utf8": 1, "raw": 1, "unk": 1, "list": 1, "map": 3, "sparse": 2}


def huge(g, what, most=1 << 24, per=5):
    """long values of equal pieces, with places near powers of two and the like to cut or fail at"""
    r = g.r
    out = []
    for kind, unit in HUGE.items():
        text = kind in ("utf8", "raw", "unk")
        ns = [n for n in (65535, 65536, 65537, 99991, 131071, 131072, 131073, 196608, 262144, 1 << 20, (1 << 20) + 1)]
        if kind in ("map", "sparse"):
            ns = [n for n in ns if n < 200000]
        ns = r.sample(ns, min(per, len(ns))) + [r.randrange(65536, 400000)]
        if what == ["trip"]:
            ns += [(1 << 24) - 1, 1 << 24, (1 << 24) + 5] if text else [(1 << 21) + 3] if kind == "list" else []
        for n in ns:
            if n > most:
                continue
            size = n * unit
            at = sorted({0, 1, 5, 6, 7, size // 2, size - 1, size, r.randrange(size)} |
                        {k * 65536 + d for k in (1, 2, 3) for d in (0, 5, 6)})
            if what != ["cuts"]:
                at = r.sample(at, 6)
            x = {"op": "huge", "kind": kind, "n": n, "at": at}
            for w in what:
                x[w] = True
            if "frags" in what:
                x.update({"pieces": r.choice([[4096], [65536], [1 << 30], [1, 1, 1, 1, 1, 65536], [65535], [100000, 7777], [6, 131072]]),
                          "with": g.chance(0.4), "byter": g.chance(0.3), "fault": r.choice(SOURCE_FAULTS)})
            if "faults" in what:
                x["fault"] = r.choice(SINK_FAULTS)
            out.append(x)
    r.shuffle(out)
    return out


def check_huge(run, g, what, most=1 << 24):
    run.check(huge(g, what, most, per=run.scale(3, 11)), "CodecTrace", "long values", drive={"limit": 200})


SOURCE_FAULTS = ["source", "temporary", "deadline", "buffer", "pipe", "noprogress", "full", "again", "interrupt"]
SINK_FAULTS = ["sink", "temporary", "deadline", "shortwrite", "buffer", "pipe", "full", "again", "interrupt", "eof", "uneof"]


def failing(g, x):
    """a failure of any look, after which the source may go on"""
    if x.get("fail"):
        x["fault"] = g.r.choice(SOURCE_FAULTS)
        if g.chance(0.6):
            x["more"] = g.r.choice([[192] * 30, g.bytes(40), [0] * 40, [255] * 30])
    return x


@prop("C05")
def c05(run):
    g = Gen(run.rng)
    cases = []
    rows = run.generate("MC_Reader")
    rows.sort(key=str)
    if run.quick:
        rows = g.r.sample(rows, 9000)
    for x in rows:
        x.update({"op": "frag", "zero": g.chance(0.25), "byter": g.chance(0.2),
                  "via": g.r.choice(["read", "parse", "stream"])})
        failing(g, x)
        cases.append(x)
    for _ in range(run.scale(3000, 40000)):
        b = sum((g.encoding(6, 3) for _ in range(g.r.randrange(1, 5))), [])
        if g.chance(0.4):
            b = b[:g.r.randrange(len(b) + 1)]
        cases.append({"op": "frag", "in": b, "pieces": g.pieces(len(b)), "with": g.chance(0.3),
                      "zero": g.chance(0.2), "fail": g.chance(0.3), "byter": g.chance(0.2),
                      "via": g.r.choice(["read", "parse", "stream"])})
        failing(g, cases[-1])
    # payloads longer than the buffers readers like to use
    for n in (511, 512, 513, 4095, 4096, 4097, 70000):
        for _ in range(run.scale(2, 10)):
            b = g.e_blob("bin", g.bytes(n)) + g.encoding(4, 2)
            cases.append({"op": "frag", "in": b, "pieces": g.pieces(len(b)), "with": g.chance(0.3),
                          "zero": False, "fail": g.chance(0.3), "byter": g.chance(0.2),
                          "via": g.r.choice(["read", "parse", "stream"])})
            failing(g, cases[-1])
    run.check(cases, "CodecTrace", "split input")
    check_huge(run, g, ["frags"])
    return "model_checking"


note("C06", "TLA+ model of a packer with a sticky error and a failing destination, model checked with TLC; every failure "
     "point of generated call sequences and random values replayed on the code, events judged by TLC",
     "Each case fails the destination after every number of bytes, taking part of a write or none. Exhaustive over "
     "call sequences of the model; random beyond.")


@prop("C06")
def c06(run):
    g = Gen(run.rng)
    cases = []
    for x in run.generate("MC_Writer"):
        x["op"] = "calls"
        cases.append(x)
    cases.sort(key=str)
    for x in cases:
        x["fault"] = g.r.choice(SINK_FAULTS)
    vs = [desc(g, x["v"]) for x in universe(run, g)]
    for v in vs if not run.quick else g.r.sample(vs, 1000):
        cases.append({"op": "fault", "vs": [v], "via": g.r.choice(["write", "stream", "packer"]),
                      "fault": g.r.choice(SINK_FAULTS)})
    for _ in range(run.scale(1500, 15000)):
        cases.append({"op": "fault", "vs": [g.value(6, 3) for _ in range(g.r.randrange(1, 4))],
                      "via": g.r.choice(["write", "stream", "packer"]), "fault": g.r.choice(SINK_FAULTS)})
    for _ in range(run.scale(1000, 10000)):
        calls = packer_calls(g)
        cases.append({"op": "calls", "calls": calls, "limit": g.r.choice([0, 1, 2, 3, 5, 10, 30, 100, 300]),
                      "fault": g.r.choice(SINK_FAULTS)})
    run.check(cases, "CodecTrace", "failing destinations")
    check_huge(run, g, ["faults"])
    return "model_checking"


note("C07", "TLA+ model of producer, both pumps, transport and consumer: all interleavings model checked with TLC (safety, "
     "confluence, prompt delivery); scripts of the model replayed on the real pumps step by step, traces judged by TLC",
     "The driver runs the real pumps in a bubble where it can wait until every goroutine is blocked, so each recorded step "
     "is the quiescent state the model predicts. Goroutine schedules within a step are the runtime's.")


@prop("C07")
def c07(run):
    g = Gen(run.rng)
    run.model("MC_Stream", "MC_Stream.cfg" if run.quick else "MC_StreamDeep.cfg")
    rows = run.generate("MC_Stream", "MC_StreamScripts.cfg")
    rows.sort(key=str)
    cases = []

    def sized(n):
        return {1: [["nil"], ["bool", True], ["long", word(5)], ["list", "i", []], ["utf8", []]],
                2: [["utf8", [97]], ["list", "m", [["nil"]]], ["long", word(200)], ["raw", []]],
                3: [["utf8", [97, 98]], ["raw", [7]], ["list", "i", [["null"], ["null"]]], ["unk", [9, 7]],
                    ["long", word(300)], ["map", "i", [[[97], ["null"]]]]]}[n]
    for x in g.r.sample(rows, run.scale(3000, 60000)):
        ends = x.pop("ends")
        x["vs"] = [g.r.choice(sized(b - a)) for a, b in zip([0] + ends, ends)]
        x.update({"op": "stream", "frag": g.r.choice([0, 0, 1, 2]), "with": g.chance(0.3),
                  "fault": g.r.choice(SOURCE_FAULTS)})
        cases.append(x)
    for _ in range(run.scale(2000, 30000)):
        cases.append(script_case(g))
    cases += [long_script(g) for _ in range(run.scale(10, 100))]
    run.check(cases, "CodecTrace", "scripts")
    # the reading side alone, on any bytes
    cases = []
    for _ in range(run.scale(1500, 20000)):
        b = sum((g.encoding(6, 3) for _ in range(g.r.randrange(0, 5))), []) if g.chance(0.99) else \
            sum((g.e_atom() for _ in range(g.many())), [])
        if g.chance(0.4):
            b = b[:g.r.randrange(len(b) + 1)]
        cases.append({"op": "frag", "in": b, "pieces": g.pieces(len(b)), "with": g.chance(0.3),
                      "zero": g.chance(0.2), "fail": g.chance(0.3), "byter": g.chance(0.2), "via": "stream"})
        failing(g, cases[-1])
    for _ in range(run.scale(500, 5000)):
        vs = [g.value(6, 3) for _ in range(g.r.randrange(1, 4))] if g.chance(0.96) else [g.atom() for _ in range(g.many())]
        cases.append({"op": "fault", "vs": vs, "via": "stream",
                      "fault": g.r.choice(SINK_FAULTS)})
    run.check(cases, "CodecTrace", "one side")
    return "model_checking"


def long_script(g):
    """many values, both ends always ready"""
    r = g.r
    n = r.choice([20, 33, 64, 65, 80])
    vs = [g.atom() for _ in range(n)]
    script = [["credit", 10 ** 6], ["release", 10 ** 6]]
    if g.chance(0.5):
        script += [["demand"]] * (n + 1) + [["offer"]] * n + [["close"]]
    else:
        for _ in range(n):
            script += [["offer"], ["demand"]]
        script += [["close"], ["demand"]]
    script += [["end"]]
    return {"op": "stream", "vs": vs, "script": script, "cin": r.choice([0, 3]), "cout": r.choice([0, 3]), "frag": 0,
            "with": g.chance(0.3), "fault": r.choice(SOURCE_FAULTS)}


def script_case(g):
    """a longer script over random values"""
    r = g.r
    n = r.randrange(1, 7)
    vs = [g.value(5, 2) if g.chance(0.8) else ["nil"] for _ in range(n)]
    lone = {"offered": 0, "closing": False, "ended": False, "demanded": 0}
    script = []
    big = g.chance(0.5)
    if big:                     # most of the transport open from the start
        script.append(["credit", 100000])
    if g.chance(0.4):
        script.append(["release", 100000])
    for _ in range(r.randrange(4, 40)):
        k = r.randrange(12)
        if k < 3 and lone["offered"] < n and not lone["closing"]:
            lone["offered"] += 1
            script.append(["offer"])
        elif k < 5:
            script.append(["credit", r.choice([1, 2, 3, 7, 30, 500])])
        elif k < 8:
            script.append(["release", r.choice([1, 1, 2, 3, 7, 30, 500])])
        elif k < 10 and lone["demanded"] <= n:
            lone["demanded"] += 1
            script.append(["demand"])
        elif k == 10 and lone["offered"] == n and not lone["closing"]:
            lone["closing"] = True
            script.append(["close"])
        elif k == 11 and g.chance(0.15) and not lone["ended"]:
            lone["ended"] = True
            script.append([r.choice(["fail", "cut"])])
    if g.chance(0.7) and not lone["ended"]:       # an orderly end
        while lone["offered"] < n and not lone["closing"]:
            lone["offered"] += 1
            script.append(["offer"])
        if not lone["closing"]:
            script.append(["close"])
        script += [["credit", 1000000], ["end"], ["release", 1000000]]
        script += [["demand"]] * (n + 1 - min(n + 1, lone["demanded"]))
    return {"op": "stream", "vs": vs, "script": script, "cin": r.choice([0, 0, 1, 3]), "cout": r.choice([0, 0, 1, 3]),
            "frag": r.choice([0, 0, 1, 2, 5]), "with": g.chance(0.3), "fault": r.choice(SOURCE_FAULTS)}


# -- collections ----------------------------------------------------------
def heap_cfg(kind, discs, steps, copies=False, args=True, fresh=True, sizes="Sizes3", invs="Intact Sorted LentIntact Laws Emit",
             slacks="Slack2"):
    keys = {"list": "ListKeys", "sparse": "SparseKeys", "map": "MapKeys"}[kind]
    b = lambda x: "TRUE" if x else "FALSE"
    return """CONSTANTS
 Kind = "%s"
 Discs <- %s
 Copies = %s
 CopyArgs = %s
 FreshEntries = %s
 Keys <- %s
 Sizes <- %s
 Slacks <- %s
 MaxSteps = %d
SPECIFICATION Spec
INVARIANTS %s
%sCHECK_DEADLOCK FALSE
""" % (kind, discs, b(copies), b(args), b(fresh), keys, sizes, slacks, steps, invs,
       "PROPERTY Immutable\n" if "Intact" in invs else "")


def heap_model(run, kind, discs, quick, thorough, **kw):
    """check the sharing discipline"""
    n = run.scale(quick, thorough)
    run.model("MC_Heap", run.cfg("heap-%s-%s-%d" % (kind, discs, n), heap_cfg(kind, discs, n, **kw)))


def heap_breaks(run, kind, discs, steps, **kw):
    """the model must be able to see the defect"""
    run.breaks("MC_Heap", run.cfg("heapbad-%s-%s" % (kind, discs), heap_cfg(kind, discs, steps, **kw)))


def heap_cases(run, g, kind, discs, steps, limit, fast=True, **kw):
    """histories of the model, as cases for the driver"""
    rows = run.generate("MC_Heap", run.cfg("heapgen-%s-%s-%d" % (kind, discs, steps),
                                           heap_cfg(kind, discs, steps, invs="Emit", **kw)))
    rows.sort(key=str)
    if len(rows) > limit:
        rows = g.r.sample(rows, limit)
    out = []
    for h in rows:
        disc, slack, content = h[0][1:]
        mut = disc != "copy"
        if kind != "list":
            content = [[k, v] for k, v in content]
        how = {"list": "slice", "sparse": g.r.choice(["items", "sorted"]), "map": g.r.choice(["entries", "sorted"])}[kind]
        steps_ = [["new", kind, mut, how, slack, content]] + h[1:]
        out.append(hist(g, kind, steps_, fast))
    return out


def probes(kind, steps):
    """keys to look up: those used and some beside them"""
    if kind == "map":
        ks = {tuple(k) for k in ([], [97], [98], [98, 98], [255])}
        for s in steps:
            if s[0] in ("put", "insert", "update", "insertall", "remove", "deleteall"):
                ks.add(tuple(s[2]))
            if s[0] == "new":
                ks |= {tuple(p[0]) for p in s[5]}
        ks |= {k[:-1] for k in ks if k} | {k + (0,) for k in list(ks)[:4]}
        ks = sorted(ks)
        return [list(k) for k in ks[::len(ks) // 60 + 1]]
    ns = set(range(-2, 7)) | {1 << 62, -(1 << 63)}
    for s in steps:
        if s[0] in ("put", "insert", "update", "insertall", "remove", "deleteall"):
            n = int.from_bytes(bytes(s[2]), "big", signed=True)
            ns |= {n, n + 1}
    return [word(n) for n in sorted(ns)]


def hist(g, kind, steps, fast):
    return {"op": "hist", "steps": steps, "fast": fast, "probes": probes(kind, steps)}


class Histories:
    """random histories"""

    def __init__(self, g, kind, fast=True, branch=True, copies=False, nested=True, old=0.5):
        self.g, self.kind, self.fast, self.branch, self.copies, self.nested, self.old = g, kind, fast, branch, copies, nested, old
        self.n, self.large = 0, 0

    def val(self):
        g, r = self.g, self.g.r
        self.n += 1
        k = r.randrange(12)
        if k == 0:
            return ["nil"]
        if k == 1:
            return ["null"]
        if k == 2 and self.nested:
            return ["list", "i", [["long", word(self.n)], g.atom(), ["null"]][:r.randrange(4)]]
        if k == 3 and self.nested:
            return ["map", "i", [[g.key(), ["long", word(self.n)]] for _ in range(r.randrange(4))]]
        if k == 4:
            return g.atom()
        return ["long", word(1000 + self.n)]

    def key(self):
        g, r = self.g, self.g.r
        if self.kind == "map":
            return list(r.choice(self.pool))
        if self.kind == "list":
            k = r.randrange(10)
            if self.large and k < 8:
                return word(max(-1, r.choice([0, self.large // 2, self.large, r.randrange(self.large)]) + r.randrange(-4, 4)))
            return word(r.randrange(0, 5) if k < 5 else r.randrange(-2, 9) if k < 9 else r.randrange(0, 20))
        return word(r.choice(self.pool))

    def fresh(self, mut):
        g, r = self.g, self.g.r
        self.n += 1
        slack = r.choice([0, 0, 1, 2, 5])
        n = r.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 8, 9, 16, 17]) if not g.chance(0.03) else r.choice([24, 33, 50])
        if self.kind == "list":
            if self.large:
                vs = [["long", word(r.choice([j, r.randrange(9)]))] for j in range(self.large)]
                return ["new", "list", mut, r.choice(["slice"] if mut else ["slice", "decoded"]), slack, vs]
            how = r.choice(["slice", "slice", "empty", "decoded"] if not mut else ["slice", "slice", "empty", "tuple", "single"])
            if how == "single":
                n = 1
            vs = [self.val() for _ in range(0 if how == "empty" else n)]
            return ["new", "list", mut, how, slack, vs]
        if self.large:
            ps = [[self.key(), ["long", word(j)]] for j in range(self.large)]
            if self.kind == "sparse":
                return ["new", "sparse", True, r.choice(["items", "decoded"]), slack, ps]
            return ["new", "map", mut, r.choice(["entries"] if mut else ["entries", "decoded"]), slack, ps]
        ps = [[self.key(), self.val()] for _ in range(n)]
        if self.kind == "sparse":
            how = r.choice(["items", "items", "sorted", "empty", "of", "decoded"])
            if how == "of":
                return ["new", "sparse", True, how, slack, [self.val() for _ in range(n)]]
            if how == "sorted":
                ps.sort(key=lambda p: int.from_bytes(bytes(p[0]), "big", signed=True))
            if how == "decoded" and not ps:
                how = "empty"
            if how == "empty":
                ps = []
            return ["new", "sparse", True, how, slack, ps]
        how = r.choice(["entries", "entries", "sorted", "empty", "gomap"] + ([] if mut else ["decoded"]) +
                       ([] if mut else ["loose"] * (2 if self.copies else 1)))
        if how == "empty":
            ps = []
        if how == "gomap":
            seen = {}
            for k, v in ps:
                seen[tuple(k)] = v
            ps = [[list(k), v] for k, v in seen.items()]
        if how == "sorted":
            ps.sort(key=lambda p: bytes(p[0]))
        return ["new", "map", mut, how, slack, ps]

    def make(self, mut, length, large=0):
        g, r = self.g, self.g.r
        self.large = large
        if self.kind == "map":
            self.pool = r.sample([b"", b"a", b"aa", b"ab", b"b", b"ba", b"c", b"\x00", b"\xff", b"z", b"10", b"9",
                                  "\u00e9".encode(), b"B"], r.choice([2, 3, 5, 8]))
            if g.chance(0.2):   # where orders of bytes, characters and numbers differ
                self.pool = r.sample([b"\x80", "\u00e9".encode(), b"\xc3", "\uffff".encode(), "\U0001f600".encode(), b"\xff",
                                      b"a\x80", b"a", b"A", b"_", b"-1", b"-", b"1", b"01", b"10", b"2", b"a\x00", b"\xed\xa0\x80",
                                      "a\u0301".encode(), "\u00e1".encode(), b" a", b"a "], r.choice([3, 5, 8]))
            if large or g.chance(0.2):      # only their ends tell them apart
                stem = bytes(g.textbytes(r.choice([0, 7, 8, 15, 16, 24, 33, 64, 130]))) if not large or g.chance(0.3) else b""
                self.pool = [stem + k for k in self.pool]
            if large:
                self.pool = [stem + b"%x" % k for k in r.sample(range(9 * large), r.choice([3, large // 3, large, 3 * large]))]
        elif self.kind == "sparse":
            self.pool = r.choice([[0, 1, 2], [-1, 0, 1, 5], [-3, -2, -1], [3, 4, 100, 7], [0, 1, 2, 3, 4, 5, 6, 7],
                                  [-(1 << 62), -300, -1, 0, 250, 65536, 1 << 40, 1 << 61],
                                  [-(1 << 63), 1 - (1 << 63), -1, 0, 3, 1 << 61]])
            if large:
                self.pool = r.sample(range(-large, 2 * large), r.choice([3, large // 3, large, 2 * large]))
        steps, vs = [], []

        def new(m):
            s = self.fresh(m)
            steps.append(s)
            vs.append({"mut": s[2], "live": True, "coll": self.kind, "sub": False, "root": len(vs),
                       "loose": self.kind == "map" and (s[2] or s[3] == "loose")})
        new(mut)
        consumes = lambda v: v["mut"] and not (v["coll"] == "sparse" and not self.fast)
        for _ in range(length):
            live = [i for i, v in enumerate(vs) if v["live"]]
            own = [i for i in live if not vs[i]["sub"]]
            i = r.choice(live) if self.branch and self.g.chance(self.old) else live[-1]
            v = vs[i]
            kind0, self_kind = self.kind, v["coll"]
            k = r.randrange(20)
            f = i + 1
            if self.copies and k < 4 and self_kind == "map":
                m = self.g.chance(0.5)
                steps.append(["copy", f, "grow" if m else "copy", []])
                vs.append({"mut": m, "live": True, "coll": "map", "sub": False, "root": len(vs), "loose": m})
                continue
            if self.copies and k == 10 and self_kind == "map" and v["loose"]:
                steps.append(["poke", f, [], self.val()])
                for j, o in enumerate(vs):
                    if j != i and o["root"] == v["root"]:
                        o["live"] = False
                continue
            if self.copies and k == 4 and len(own) < 3:
                new(self.g.chance(0.5))
                continue
            if k == 5 and self.branch:
                steps.append(["touch", f, [], [j + 1 for j in live]])
                continue
            if k == 6 and not v["mut"] and self.branch and self_kind != "sparse":
                if self.g.chance(0.3):
                    if v["loose"]:
                        continue
                    steps.append(["cell", f, [], self.val()])
                    continue
                steps.append(["sub", f, self.key_of(self_kind), r.choice(["list", "map"])])
                vs.append({"mut": False, "live": True, "coll": steps[-1][3], "sub": True, "root": len(vs),
                           "loose": False})
                continue
            if k == 7 and self_kind == self.kind and (self_kind != "sparse" or self.fast):
                steps.append(["update", f, self.key_of(self_kind), self.val()])
                if self_kind == "sparse":
                    for j, o in enumerate(vs):
                        if j != i:
                            o["live"] = False
                continue
            ops = ["put", "put", "insert", "insert", "remove", "deleteall", "insertall"] + \
                  ([] if self_kind == "map" else ["append", "append"])
            o = r.choice(ops)
            if v["mut"] and self.g.chance(0.12):
                steps.append(["update", f, self.key_of(self_kind), self.val()] if self_kind != "sparse" or self.fast
                             else ["touch", f, [], [f]])
                if steps[-1][0] == "update":
                    if self_kind == "sparse":
                        for j, x in enumerate(vs):
                            if j != i:
                                x["live"] = False
                    continue
                continue
            key = self.key_of(self_kind)
            if self_kind == "list" and o not in ("put", "append") and self.g.chance(0.06):
                key = word(r.choice([1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63), 1 << 31, 1 << 32]))
            if o == "append":
                steps.append(["append", f, [], self.val()])
            elif o in ("put", "insert"):
                steps.append([o, f, key, self.val()])
            elif o == "insertall":
                steps.append([o, f, key, [self.val() for _ in range(r.choice([0, 1, 2, 2, 3, 5, 7, 8, 9, 16, 17]
                                                                                 if self.g.chance(0.2) else [0, 1, 2, 2, 3, 5])
                                                                       if not self.large or self.g.chance(0.5) else g.many())]])
            else:
                steps.append([o, f, key, []])
            if consumes(v):
                v["live"] = False
            vs.append({"mut": v["mut"], "live": True, "coll": self_kind, "sub": v["sub"], "root": v["root"],
                       "loose": v["loose"]})
        return hist(g, self.kind, steps, self.fast)

    def key_of(self, coll):
        if coll == self.kind:
            return self.key()
        if coll == "map":
            return self.g.key()
        return word(self.g.r.randrange(-1, 5))


COLL = "TLA+ models of the abstract operations and of collections as slices of shared arrays, model checked with TLC; " \
       "the model's histories and random longer ones replayed on the code, every accessor recorded and judged by TLC"

note("C08", COLL, "All branching histories of a few operations over small contents are replayed, longer ones are sampled; "
     "after each step every earlier version is observed again. Accessor slices are not overwritten by the driver.")


def colls(run, g, name, plan):
    cases = []
    for kind, mut, fast, branch, copies, n, length in plan:
        for _ in range(n):
            h = Histories(g, kind, fast=fast, branch=branch, copies=copies)
            cases.append(h.make(mut if mut is not None else g.chance(0.5), g.r.choice(length)))
    run.check(cases, "CollTrace", name)


def larges(run, g, kind, mut=None, fast=True, branch=False, copies=False):
    """histories of few operations on large collections"""
    cases = []
    for _ in range(run.scale(60, 600)):
        h = Histories(g, kind, fast=fast, branch=branch, copies=copies, nested=False)
        n = g.r.choice(LARGE + ([] if run.quick else [1000, 1025, 2000]))
        cases.append(h.make(mut if mut is not None else g.chance(0.5), g.r.choice([2, 4, 6]), large=n))
    run.check(cases, "CollTrace", "large collections")


@prop("C08")
def c08(run):
    g = Gen(run.rng)
    cases = []
    for kind in ("list", "map"):
        heap_model(run, kind, "DiscsCopy", 2, 3)
        cases += heap_cases(run, g, kind, "DiscsCopy", 2, run.scale(4000, 10 ** 6))
        if not run.quick:
            cases += heap_cases(run, g, kind, "DiscsCopy", 3, 60000, slacks="Slack0", sizes="Sizes2")
    run.check(cases, "CollTrace", "branching histories of the model")
    n = run.scale(1500, 20000)
    colls(run, g, "random histories", [("list", False, True, True, False, n, [4, 8, 12, 20]),
                                       ("map", False, True, True, False, n, [4, 8, 12, 20])])
    larges(run, g, "list", mut=False, branch=True)
    larges(run, g, "map", mut=False, branch=True)
    return "model_checking"


def linear(run, kind, what):
    g = Gen(run.rng)
    cases = []
    heap_model(run, kind, "DiscsGrow", 3, 4 if kind == "map" else 3)
    if kind != "sparse":
        heap_model(run, kind, "DiscsCopy", 2, 3)
        cases += heap_cases(run, g, kind, "DiscsCopy", 2, run.scale(2500, 10 ** 6))
    cases += heap_cases(run, g, kind, "DiscsGrow", 2, run.scale(2500, 10 ** 6))
    cases += heap_cases(run, g, kind, "DiscsGrow", 3, run.scale(2500, 60000), slacks="Slack0", sizes="Sizes2")
    if kind == "sparse":
        heap_model(run, kind, "DiscsSafe", 2, 3)
        cases += heap_cases(run, g, kind, "DiscsSafe", 2, run.scale(3000, 10 ** 6), fast=False)
    run.check(cases, "CollTrace", "histories of the model")
    n = run.scale(900, 20000)
    if kind == "sparse":
        n = run.scale(500, 15000)
        plan = [(kind, True, True, False, False, n, [2, 6, 15, 30]), (kind, True, False, True, False, n, [4, 10, 20])]
    else:
        plan = [(kind, True, True, False, False, n, [2, 6, 15, 30]), (kind, False, True, False, False, n // 2, [2, 6, 15])]
    colls(run, g, what, plan)
    larges(run, g, kind, mut=True if kind == "sparse" else None)
    return "model_checking"


for _p, _k in (("C09", "list"), ("C10", "map"), ("C11", "sparse")):
    note(_p, COLL, "All short histories over small contents are replayed and compared with the abstract operations after "
         "every step through every accessor; longer ones are sampled. Mutable collections are used linearly, as the "
         "property says.")
    CHECKS[_p] = (lambda k: lambda run: linear(run, k, "random histories"))(_k)

note("C22", COLL, "Copies and originals are used side by side, arguments of bulk insertion lie between guards in an array of "
     "the driver; both are observed after every step.")


@prop("C22")
def c22(run):
    g = Gen(run.rng)
    heap_model(run, "map", "DiscsBoth", 2, 3, copies=True, sizes="Sizes2")
    heap_model(run, "list", "DiscsGrow", 2, 3)
    if not run.quick:
        heap_breaks(run, "map", "DiscsBoth", 3, copies=True, fresh=False, sizes="Sizes2")
        heap_breaks(run, "list", "DiscsGrow", 2, args=False)
    cases = heap_cases(run, g, "map", "DiscsBoth", 2, run.scale(4000, 10 ** 6), copies=True, sizes="Sizes2")
    cases += heap_cases(run, g, "map", "DiscsBoth", 3, run.scale(2500, 50000), copies=True, sizes="Sizes2", slacks="Slack0")
    cases += heap_cases(run, g, "list", "DiscsGrow", 2, run.scale(1500, 10 ** 6))
    run.check(cases, "CollTrace", "histories of the model")
    n = run.scale(1200, 20000)
    colls(run, g, "random histories", [("map", None, True, True, True, n, [4, 8, 12, 20]),
                                       ("list", True, True, False, False, n // 2, [3, 8, 15]),
                                       ("list", False, True, True, False, n // 3, [3, 8]),
                                       ("sparse", True, True, False, False, n // 2, [3, 8, 15])])
    larges(run, g, "map", branch=True, copies=True)
    larges(run, g, "list")
    return "model_checking"


VALUES = "TLA+ specification of equality, JSON, text forms and number arithmetic with exact rationals, laws model checked " \
         "with TLC; its pairs and random cases replayed on the code, recorded events judged by TLC"


def value_pairs(run, g):
    rows = run.generate("MC_Values", "MC_Values.cfg" if run.quick else "MC_ValuesDeep.cfg")
    rows.sort(key=str)
    return [(desc(g, x["a"]), desc(g, x["b"])) for x in rows]


note("C12", VALUES, "All pairs of a bounded universe with cross-type neighbours of every number, and random values with random "
     "variants, are compared in both directions, in every implementation, bare and inside containers, items and entries. "
     "Where rounding to a double decides, only symmetry is required.")


@prop("C12")
def c12(run):
    g = Gen(run.rng)
    pairs = value_pairs(run, g)
    if run.quick:
        pairs = g.r.sample(pairs, min(len(pairs), 7000))
    nums = [(a, g.number_variant(a)) for a in (g.number() for _ in range(run.scale(3000, 40000)))]
    many = []
    for _ in range(run.scale(3500, 40000)):
        a = g.value(8, 3, nil=0.1)
        many.append((a, g.variant(a) if g.chance(0.8) else g.value(4, 2, nil=0.1)))
    texts = []
    for b in [[1], [65], [97, 66], list("\u00e9".encode()), [0xc3], list(b"12"), list(b"true"), g.bytes(8), g.textbytes(9), g.bytes(33)]:
        for c in g.near(b) + [b]:
            texts.append(([g.r.choice(["utf8", "raw"]), b], [g.r.choice(["utf8", "raw"]), c]))
            if c and c[0] not in (1, 2) and b[0] not in (1, 2):
                texts.append((["unk", b], ["unk", c]))
            texts.append((["map", g.impl(), [[b, ["null"]]]], ["map", g.impl(), [[c, ["null"]]]]))
    cases = [{"op": "equal", "a": a, "b": b} for a, b in pairs + nums + many + texts]
    for _ in range(run.scale(300, 3000)):
        a = g.number()
        cases.append({"op": "equal", "a": a, "b": g.number_variant(a),
                      "tol": g.r.choice([dword(x) for x in (0.5, 1e-9, 1e-3, 100.0, 1.0)])})
    for _ in range(run.scale(400, 4000)):
        a = g.large()
        cases.append({"op": "equal", "a": a, "b": g.spot(a)})
    for _ in range(run.scale(150, 1500)):
        a, n, state = g.atom(), g.r.choice([4, 5, 6, 8, 9, 16, 17, 32, 33, 50]), g.r.getrandbits(60)
        pair = []
        for x in (a, g.variant(a)):     # the same containers around both
            pair.append(Gen(random.Random(state)).deep(n, x))
        cases.append({"op": "equal", "a": pair[0], "b": pair[1]})
    run.check(cases, "ValueTrace", "pairs")
    return "model_checking"


note("C13", VALUES, "A recognizer of JSON texts of a value, in TLA+, judges the texts of every entry point for a bounded universe "
     "and random values with every kind of character; doubles are checked by exact rounding.")


@prop("C13")
def c13(run):
    g = Gen(run.rng)
    seen = {}
    for a, _ in value_pairs(run, g):
        seen[str(a)] = a
    vs = list(seen.values()) + [g.value(12, 4, nil=0.1) for _ in range(run.scale(5000, 60000))]
    vs += [["utf8", g.textbytes(g.r.choice([1, 2, 3, 8, 40]))] for _ in range(run.scale(2500, 20000))]
    vs += [["utf8", list(chr(a).encode())] for a in RUNES] + [["map", g.impl(), [[list(chr(a).encode()), ["null"]]]] for a in RUNES]
    vs += [["utf8", list("".join(chr(c) for c in range(a, a + 32) if not 0xd800 <= c < 0xe000).encode())]
           for a in list(range(0, 0x800, 32)) + [g.r.randrange(0x10ffe0) for _ in range(run.scale(60, 600))] + [0x2000, 0x2020, 0xfff0 - 16, 0xffe0, 0xe0000]]
    vs += [["utf8", [a]] for a in range(256)] + [["utf8", [65, a, b, 66]] for a in (0xc3, 0xe2, 0xf0, 0xed, 0xf4, 0xc0)
                                                for b in range(0, 256, 3)]
    vs += [["map", g.impl(), [[[a], ["null"]]]] for a in range(256)]
    vs += [g.double() for _ in range(run.scale(1500, 20000))] + edge_longs()[::4] + [g.deep(n) for n in (10, 30, 60)]
    vs += edge_unknowns((0, 2))[::3] + edge_exponents()
    vs += [g.large() for _ in range(run.scale(150, 1500))] + [["map", g.impl(), [[g.textbytes(g.many()), ["null"]]]] for _ in range(20)]
    run.check([{"op": "json", "v": v} for v in vs], "ValueTrace", "renderings")
    return "model_checking"


note("C14", VALUES, "Every typed lookup at present, missing and out-of-range keys of random collections in every implementation, "
     "with cells whose text parses as numbers, booleans and bytes.")


def lookup_case(g):
    r = g.r
    n = r.choice([0, 1, 2, 3, 5, 8, 12]) if not g.chance(0.01) else g.many()
    cells = []
    for _ in range(n):
        k = r.randrange(7) if n < 20 or g.chance(0.1) else 7
        if k == 0:
            cells.append(["utf8", g.number_text()])
        elif k == 1:
            cells.append(["utf8", g.string_text()])
        elif k == 2:
            cells.append(["utf8", list(r.choice([b"true", b"True", b"TRUE", b"t", b"T", b"1", b"false", b"0", b"f", b"F", b"tRUE",
                                                 b"yes", b"true ", b"null", b"False"]))])
        elif k == 3:
            cells.append(g.value(6, 2, nil=0.15))
        elif k == 4 and g.chance(0.3):
            cells.append(g.large() if g.chance(0.2) else g.wide(r.choice([9, 10, 11, 12, 21, 101]), "list"))
        else:
            cells.append(g.atom(nil=0.15))
    kind = r.randrange(3)
    if kind == 0:
        keys = [word(i) for i in {0, n - 1, n, -1, 1, n + 7, r.randrange(-3, n + 3), 1 << 40, -(1 << 63), (1 << 32)}]
        return {"op": "lookup", "v": ["list", g.impl(), cells], "keys": keys + [word(i) for i in range(n)]}
    if kind == 1:
        idx = [g.index() if g.chance(0.5) else r.randrange(0, n + 2) for _ in range(n)]
        keys = {0, -1, 1, 5, (1 << 32)} | set(idx) | {i + 1 for i in idx[:3]}
        keys = [word(i) for i in keys]
        return {"op": "lookup", "v": ["sparse", [[word(i), c] for i, c in zip(idx, cells)]], "keys": keys}
    names = [g.key() if g.chance(0.6) else list(r.choice([b"a", b"b", b""])) for _ in range(n)]
    keys = names + [[], [97], [98, 0], [255], g.key()] + [k + [0] for k in names[:2]]
    return {"op": "lookup", "v": ["map", g.impl(), [[k, c] for k, c in zip(names, cells)]], "keys": keys}


@prop("C14")
def c14(run):
    g = Gen(run.rng)
    cells = {}
    for a, b in value_pairs(run, g):
        cells[str(a)] = a
    cells = list(cells.values())
    cases = []
    for v in cells:
        cases += [{"op": "lookup", "v": ["list", g.impl(), [v]], "keys": [word(0), word(1)]},
                  {"op": "lookup", "v": ["sparse", [[word(2), v]]], "keys": [word(2), word(0)]},
                  {"op": "lookup", "v": ["map", g.impl(), [[[97], v]]], "keys": [[97], [98]]}]
    cases += [lookup_case(g) for _ in range(run.scale(4500, 60000))]
    run.check(cases, "ValueTrace", "lookups")
    return "model_checking"


note("C17", VALUES, "Text forms of all numbers of a bounded universe and of random ones are parsed back; random and mutated texts "
     "are parsed and judged by exact arithmetic. Not decided: hexadecimal floats, infinities spelled other than Go writes them, "
     "and which of infinity and NaN an overflowing numeral gives.")


@prop("C17")
def c17(run):
    g = Gen(run.rng)
    seen = {}
    for a, _ in value_pairs(run, g):
        if a[0] in ("long", "double", "big", "dec", "raw"):
            seen[str(a)] = a
    vs = list(seen.values()) + edge_longs() + [g.number() for _ in range(run.scale(5000, 60000))]
    vs += [g.double() for _ in range(run.scale(1500, 20000))] + [g.raw() for _ in range(run.scale(800, 5000))]
    vs += [g.large("raw", "big", "dec") for _ in range(run.scale(150, 1500))]
    cases = [{"op": "reparse", "v": v} for v in vs]
    cases += [{"op": "parse", "text": g.number_text()} for _ in range(run.scale(7000, 80000))]
    cases += [{"op": "parse", "text": g.string_text()} for _ in range(run.scale(2500, 20000))]
    run.check(cases, "ValueTrace", "texts")
    return "model_checking"


note("C18", VALUES, "All pairs of numbers of a bounded universe and random pairs at the edges of the types are added, subtracted and "
     "converted; results are compared with exact rational arithmetic. Decimal exponents are bounded, because the decimal library "
     "writes numbers out.")


@prop("C18")
def c18(run):
    g = Gen(run.rng)
    num = ("long", "double", "big", "dec")
    pairs = [(a, b) for a, b in value_pairs(run, g) if a[0] in num and b[0] in num]
    for _ in range(run.scale(6000, 80000)):
        a = g.number()
        k = g.r.randrange(4)
        b = g.number_variant(a) if k == 0 else (["long", word(g.integer())] if k == 1 else g.number())
        pairs.append((a, b) if g.chance(0.5) else (b, a))
    for _ in range(run.scale(150, 2000)):
        a = g.large("big", "dec")
        pairs.append((a, g.r.choice([g.spot(a), g.large("big", "dec"), g.number(), g.number_variant(a)])))
    cases = [{"op": "arith", "a": a, "b": b} for a, b in pairs]
    cases += [{"op": "arith", "a": a, "b": a, "same": True} for a in [a for a, _ in pairs][::7] + [g.number() for _ in range(200)]]
    run.check(cases, "ValueTrace", "sums")
    return "model_checking"


STRUCTS = "TLA+ specification of struct types, their map encoding and its decoding, laws model checked with TLC; its types and " \
          "instances and random ones replayed on the code, recorded events judged by TLC"


def struct_model(run, st, n):
    rows = run.generate("MC_Struct", "MC_Struct.cfg" if run.quick else "MC_StructDeep.cfg")
    rows.sort(key=str)
    if len(rows) > n:
        rows = st.r.sample(rows, n)
    return [{"op": "struct", "types": x["types"], "shared": True, "uses": [{"root": 1, "inst": impls(st.g, x["inst"]), "first": False}]}
            for x in rows]


def impls(g, x):
    """abstract values in an instance as descriptors"""
    if not x or isinstance(x[0], list):
        return [impls(g, y) for y in x]
    if x[0] == "many":
        return ["many", [impls(g, y) for y in x[1]]]
    if x[0] == "one":
        return ["one", impls(g, x[1])]
    if x[0] == "inst":
        return ["inst", impls(g, x[1])]
    if x[0] == "none":
        return x
    return desc(g, x)


note("C15", STRUCTS, "Types are made by reflection, so that every case has types the code has not seen, and from generic families where "
     "they are recursive; several types of a case are used in varying orders, with their fields declared in both orders. "
     "Concrete big number, list and map types as field types are not covered.")


@prop("C15")
def c15(run):
    g = Gen(run.rng)
    st = Structs(g)
    g.valid = True
    cases = struct_model(run, st, run.scale(4000, 60000))
    cases += [st.uses() for _ in range(run.scale(3500, 40000))]
    cases += [st.into() for _ in range(run.scale(2500, 25000))]
    run.check(cases, "StructTrace", "structs")
    return "model_checking"


note("C16", STRUCTS, "Types with every kind of fault, at the root or inside, instances with nil elements, bytes that do not fit, and "
     "instances of other kinds; outcomes are judged by the specification, a panic is a violation.")

ODD = ["nil", "struct", "nilptr", "ptrptr", "nilptrptr", "ptriface", "int", "ptrint", "string", "ptrstring", "bytes", "ptrbytes",
       "ptrvalue", "ptrnilvalue", "slice", "map", "ptrmap", "func", "nilfunc", "chan", "array", "ptrarray", "nilslice", "ptrslice",
       "float", "bool", "nilint", "nilmap", "type", "structs", "ptrnilptr"]


@prop("C16")
def c16(run):
    g = Gen(run.rng)
    st = Structs(g)
    cases = struct_model(run, st, run.scale(2500, 40000))
    cases += [st.uses(bad=True) for _ in range(run.scale(2000, 20000))]
    cases += [st.uses(holes=0.3) for _ in range(run.scale(1500, 15000))]
    cases += [st.into() for _ in range(run.scale(1500, 15000))]
    cases += [st.into(mutate=True) for _ in range(run.scale(2000, 20000))]
    cases += [st.into(bad=True) for _ in range(run.scale(500, 5000))]
    cases += [{"op": "odd", "kind": k} for k in ODD]
    cases += [{"op": "odd", "kind": "value", "v": g.value(5, 2)} for _ in range(run.scale(200, 1000))]
    run.check(cases, "StructTrace", "structs")
    return "model_checking"


SEALS = "TLA+ model of sealing with symbolic keys, nonces and boxes, model checked with TLC; its scripts and random ones run on " \
        "the code, recorded outcomes judged by TLC"

note("C19", SEALS, "Scripts of sealing, changing, recombining and opening with the right and wrong keys; for small values every bit "
     "flip, truncation, extension and key bit is tried. Key bits that Curve25519 ignores and keys that are not of generated "
     "pairs are outside. That seals differ is sampled with up to hundreds of thousands of seals.")


TAILS = [b"\n", b"\r\n", b"\r", b" ", b"\0", b"=", b"==", b"\t", b"\0\0\0\0", b"\xc0", b"\x80\0\0\0"]


def seal_script(g, n):
    r = g.r
    steps, arts = [], []
    for _ in range(n):
        k = r.randrange(10)
        if not arts or k < 2:
            steps.append(["seal", g.large() if g.chance(0.05) else g.value(8, 3, nil=0.1), r.randrange(1, 4), r.randrange(1, 4)])
            arts.append([True, steps[-1][2], steps[-1][3]])
            continue
        x = r.randrange(len(arts))
        a = arts[x]
        if k < 3:
            steps.append(["flip", x + 1, r.choice([0, 23, 24, 39, 40, r.randrange(1000)]), r.randrange(8)])
            arts.append([False] + a[1:])
        elif k < 4:
            c = r.randrange(4)
            if c == 0:
                steps.append(["cut", x + 1, r.choice([1, 2, 16, 1000, r.randrange(1, 60)])])
            elif c == 1:
                steps.append(["grow", x + 1, list(r.choice(TAILS)) if g.chance(0.3) else
                              [r.choice([0, r.randrange(256)]) for _ in range(r.choice([1, 2, 16, 24, 100]))]])
            elif c == 2:
                steps.append(["head", x + 1, r.choice([1, 8, 24])])
            else:
                y = r.randrange(len(arts))
                if not a[0] or not arts[y][0]:
                    continue
                steps.append(["splice", x + 1, y + 1])
                a = arts[y]
            arts.append([False] + a[1:])
        else:
            p, q = (a[1], a[2]) if g.chance(0.6) else (r.randrange(1, 4), r.randrange(1, 4))
            if g.chance(0.3):
                p, q = q, p
            bits = [-1, -1]
            if g.chance(0.2):
                bits[r.randrange(2)] = r.randrange(256)
            steps.append(["open", x + 1, p, q] + bits)
    return {"op": "seal", "steps": steps}


@prop("C19")
def c19(run):
    g = Gen(run.rng)
    rows = run.generate("MC_Seal", "MC_Seal.cfg" if run.quick else "MC_SealDeep.cfg")
    rows.sort(key=str)
    n = run.scale(6000, 60000)
    if len(rows) > n:
        rows = g.r.sample(rows, n)
    cases = []
    for steps in rows:
        vals = {}
        out = []
        for s in steps:
            if s[0] == "seal":
                if s[1] not in vals or g.chance(0.2):
                    vals[s[1]] = g.value(5, 2, nil=0.1)
                s = ["seal", vals[s[1]]] + s[2:]
            elif s[0] == "flip":
                s = s + [0]
            out.append(s)
        cases.append({"op": "seal", "steps": out})
    cases += [seal_script(g, g.r.choice([4, 8, 14])) for _ in range(run.scale(3000, 30000))]
    for i in range(run.scale(60, 600)):
        v = ["null"] if i == 0 else ["nil"] if i == 1 else g.value(3, 2, nil=0.1)
        cases.append({"op": "seal", "steps": [["seal", v, 1, 2], ["all", 1, 1, 2]]})
    cases += [{"op": "seal", "steps": [["many", v, 1, 2, run.scale(15000, 200000)]]}
              for v in (["null"], ["utf8", [65] * 40], ["list", "i", [["bool", True]]])]
    r = g.r
    r.shuffle(cases)
    run.check(cases, "SealTrace", "scripts", drive={"limit": 300})
    events = run.drive([{"op": "seal", "steps": [["fixed", ["bool", True]]] * 3}] * 400, "processes")
    datas = [x[1] for e in events if e["out"] == "ok" for x in e["res"]]
    e = {"op": "distinct", "out": "ok", "datas": datas}
    for i, why in run.judge([e], "SealTrace"):
        run.violation(e, why, [e], 0, None, "SealTrace")
    return "model_checking"


ALIAS = "TLA+ model of the memory that values and buffers lie in, model checked with TLC; its histories and random longer ones run " \
        "on the code, which records every change of a value or buffer; TLC judges the records"

note("C20", ALIAS, "Histories of decoding, reading, serializing and overwriting of up to 30 steps; values and buffers are observed "
     "after every step. Slices that accessors return, and values decoded without copying once their input is overwritten, are "
     "outside.")

SOURCES = ["buffer", "plain", "one", "bufio", "reader", "plainreader", "unpacker"]
PACKS = ["pack", "pack", "binary", "hash", "write", "json"]


class Buffers:
    """histories of buffers and values"""

    def __init__(self, g):
        self.g, self.r, self.last = g, g.r, None

    def sibling(self):
        """like the blob before, but with other bytes"""
        g, r = self.g, self.r
        if not self.last or g.chance(0.35):
            kind, n = r.choice(["bin", "str", "ext", "ext"]), r.choice([1, 2, 4, 5, 6, 7, 8, 9, 16, 20, 31, 40, 300])
            head = g.e_blob(kind, [65] * n)[:-n] if kind != "ext" else \
                r.choice([h + [r.choice([3, 7, 128, 255])] for h in g.forms("ext", n)])
            self.last = (head, [r.randrange(32, 127) for _ in range(n)])
        else:
            head, b = self.last
            b = list(b)
            for i in r.choice([range(len(b)), [-1], [0], [r.randrange(len(b))]]):
                b[i] = r.randrange(32, 127)
            self.last = (head, b)
        return self.last[0] + self.last[1]

    def content(self):
        g, k = self.g, self.g.r.randrange(10)
        if k > 7:
            return self.sibling()
        if k == 0:
            return g.e_blob("bin", g.bytes(self.r.choice([0, 1, 5, 16, 40, 300])))
        if k == 1:
            return g.e_ext()
        if k == 2:
            return g.e_blob("str", g.textbytes())
        if k == 3:
            return g.e_atom()
        return g.encoding(8, 3)

    def struct(self, depth=2):
        g, r = self.g, self.g.r
        items = []
        nn = lambda: g.r.choice([g.value(5, 2), g.raw(), g.unk(), g.utf8(), g.big()])
        if g.chance(0.6):
            v = nn()
            if v[0] not in ("null", "nil"):
                items.append([word(1), v])
        if g.chance(0.6):
            items.append([word(2), r.choice([g.raw(), g.utf8()])])
        if g.chance(0.5):
            items.append([word(3), ["list", "i", [nn() for _ in range(r.randrange(3))]]])
        if g.chance(0.4):
            items.append([word(4), ["map", "i", [[g.key(), nn()] for _ in range(r.randrange(3))]]])
        for _ in range(r.randrange(4)):
            v = nn()
            if v[0] not in ("null", "nil"):
                items.append([word(5), v])
        if depth and g.chance(0.4):
            items.append([word(6), self.struct(depth - 1)])
        if g.chance(0.4):
            items.append([word(7), g.number()])
        for _ in range(r.choice([0, 0, 1, 2])):
            items.append([word(8), r.choice([g.raw(), g.utf8()])])
        if not items:
            items.append([word(2), g.raw()])
        return ["sparse", items]

    def tight(self):
        """is there nothing behind the buffer?"""
        return [1] if self.g.chance(0.3) else []

    def case(self, steps):
        return {"op": "alias", "steps": steps, "every": self.g.chance(0.7)}

    def of_model(self, hist):
        """a history of the model: a buffer that is read from holds any valid encoding"""
        r, steps = self.r, []
        srcs = {}
        for s in hist:
            if s[0] == "fill":
                steps.append(["fill", self.content()] + self.tight())
            elif s[0] == "unpack":
                if self.g.chance(0.15):
                    steps.append(["raw", s[1], s[2]])
                else:
                    steps.append(["unpack", s[1], s[2], r.choice(["unpack", "parse"])])
            elif s[0] == "read":
                steps.append(["source", s[1], r.choice(SOURCES)])
                srcs[s[1]] = len(srcs) + 1
                steps.append(["next", sum(1 for x in steps if x[0] == "source")])
            elif s[0] == "pack":
                steps.append(["pack", s[1], r.choice(PACKS[:-1])])
            else:
                steps.append(["scribble", s[1], r.choice([0, 255, 192, 1, r.randrange(256)])])
        return self.case(steps)

    def long(self, n, kind):
        """decoding and packing a long payload"""
        g, r = self.g, self.r
        if kind == "ext":
            enc = [201] + be(n, 4) + [r.randrange(3, 128)] + g.bytes(n)
        else:
            enc = g.e_blob(kind, g.bytes(n) if kind == "bin" else [r.randrange(32, 127) for _ in range(n)])
        steps = [["fill", enc] + self.tight(), ["unpack", 1, True, r.choice(["unpack", "parse"])]]
        k = r.randrange(3)
        if k == 0:
            steps += [["source", 1, r.choice(SOURCES)], ["next", 1]]
        elif k == 1 and kind == "bin":
            steps += [["raw", 1, True]]
        else:
            steps += [["pack", 1, r.choice(PACKS[:-1])]]
        return {"op": "alias", "steps": steps + [["scribble", 1, r.choice([0, 255])]], "every": False}

    def family(self):
        """many alike, decoded one after the other"""
        r, n = self.r, self.r.choice([3, 5, 8])
        if self.g.chance(0.5):
            steps = [["fill", sum((self.sibling() for _ in range(n)), [])], ["source", 1, r.choice(SOURCES)]] + [["next", 1]] * n
        else:
            steps = []
            for i in range(n):
                steps += [["fill", self.sibling()], ["unpack", i + 1, True, r.choice(["unpack", "parse"])]]
        return {"op": "alias", "steps": steps, "every": True}

    def twins(self, enc, how):
        """one value rendered again and again, what was rendered overwritten in between"""
        steps = [["fill", enc], ["unpack", 1, True, "unpack"], ["unpack", 1, True, "parse"]]
        for n, v in enumerate((1, 2, 1)):
            steps += [["pack", v, how]]
            if n:
                steps += [["scribble", n + 1, self.r.choice([0, 255, 48])]]
        return {"op": "alias", "steps": steps, "every": True}

    def random(self, n):
        g, r = self.g, self.r
        steps, bufs, vals, srcs = [], [], [], []
        # bufs: "enc", "struct", "dead" or the number of values; vals: [dependent buffers, struct?]; srcs: values left
        while len(steps) < n:
            k = r.randrange(20)
            live = [i for i, v in enumerate(vals) if v[0] is not None]
            plain = [i for i in live if not vals[i][1]]
            encs = [i for i, b in enumerate(bufs) if b == "enc"]
            if k < 3 or not bufs:
                c = r.randrange(6)
                if c == 0:
                    steps.append(["fillv", self.struct()])
                    bufs.append("struct")
                elif c == 1:
                    m = r.choice([2, 3, 5])
                    steps.append(["fill", sum((self.content() for _ in range(m)), [])] + self.tight())
                    bufs.append(m)
                else:
                    steps.append(["fill", self.content()] + self.tight())
                    bufs.append("enc")
            elif k < 7:
                i = r.randrange(len(bufs))
                b = bufs[i]
                if b == "dead":
                    continue
                copy = g.chance(0.6)
                dep = set() if copy else {i}
                if b == "struct" and g.chance(0.8):
                    steps.append(["into", i + 1, copy])
                    vals.append([dep, True])
                elif g.chance(0.15):
                    steps.append(["raw", i + 1, copy])
                    vals.append([dep, False])
                elif isinstance(b, int) or g.chance(0.4):
                    steps.append(["source", i + 1, r.choice(SOURCES)])
                    srcs.append(b if isinstance(b, int) else 1)
                else:
                    steps.append(["unpack", i + 1, copy, r.choice(["unpack", "parse"])])
                    vals.append([dep, False])
            elif k < 11:
                left = [i for i, n_ in enumerate(srcs) if n_ > 0]
                if left:
                    i = r.choice(left)
                    srcs[i] -= 1
                    steps.append(["next", i + 1])
                    vals.append([set(), False])
            elif k < 14 and live:
                if g.chance(0.2):
                    steps.append(["packs", [r.choice(live) + 1 for _ in range(r.choice([1, 2, 3]))]])
                    bufs.append("out")
                else:
                    i = r.choice(live)
                    how = "pack" if vals[i][1] else r.choice(PACKS)
                    steps.append(["pack", i + 1, how])
                    bufs.append("json" if how == "json" else "enc")
            elif k < 15 and plain:
                xs = [r.choice(plain) for _ in range(r.choice([1, 2, 3]))]
                steps.append(["list", [x + 1 for x in xs]])
                vals.append([set().union(*[vals[x][0] for x in xs]), False])
            elif k < 17 and plain:
                steps.append(["touch", r.choice(plain) + 1, r.choice(plain) + 1])
            elif k < 20:
                i = r.randrange(len(bufs))
                steps.append(["scribble", i + 1, r.choice([0, 255, 192, 1, r.randrange(256)])])
                bufs[i] = "dead"
                for v in vals:
                    if v[0] is not None and i in v[0]:
                        v[0] = None
            if "json" in bufs:
                bufs = ["dead" if b in ("json", "out") else b for b in bufs]
            bufs = ["dead" if b == "out" else b for b in bufs]
        return self.case(steps)


@prop("C20")
def c20(run):
    g = Gen(run.rng)
    g.valid = True
    b = Buffers(g)
    rows = run.generate("MC_Alias", "MC_Alias.cfg" if run.quick else "MC_AliasDeep.cfg")
    rows.sort(key=str)
    n = run.scale(5000, 60000)
    if len(rows) > n:
        rows = g.r.sample(rows, n)
    cases = [b.of_model(x) for x in rows]
    cases += [b.random(g.r.choice([8, 15, 30])) for _ in range(run.scale(3500, 50000))]
    cases += [b.long(n, k) for n in (255, 256, 600, 1000, 4095, 4096, 4097, 16385, 32769) for k in ("bin", "str", "ext")]
    cases += [b.long(n, k) for n in (65536, 65537 + g.r.randrange(9000)) for k in ("bin", "str", "ext")]
    cases += [b.family() for _ in range(run.scale(300, 3000))]
    for enc in [g.e_atom() for _ in range(run.scale(60, 600))] + [g.encoding(6, 2) for _ in range(run.scale(40, 400))] + \
            [[192], [194], [195], [0], [127], [128], [144], [160], [196, 0], [255], [203, 127, 248] + [0] * 6, [203] + [255] * 8,
             [203, 127, 240] + [0] * 6, [203, 255, 240] + [0] * 6, [203, 128] + [0] * 7, [203] + [0] * 8, [161, 97], [196, 1, 0],
             [212, 3, 5], [212, 9, 0]]:
        cases += [b.twins(enc, how) for how in PACKS[1:]]
    run.check(cases, "AliasTrace", "histories")
    if not run.quick:
        base = open(os.path.join(SPEC, "MC_Alias.cfg")).read()
        for flag in ("CopyDecode", "CopyScratch", "FreshOut", "NoPool"):
            run.breaks("MC_Alias", run.cfg("alias-" + flag, base.replace(flag + " = TRUE", flag + " = FALSE")))
    return "model_checking"


CONC = "TLA+ model of threads that use shared versions and the schema cache, model checked with TLC for races and results; its " \
       "programs and random ones run with the race detector, results judged by TLC"

note("C21", CONC, "All pairs of small programs of the model and random programs of up to eight threads on values and types not used "
     "before. Schedules are those the Go scheduler gives; the race detector finds unsynchronized accesses in any of them.")

READS = ["see", "get", "equal", "json", "pack", "hash", "decode", "views", "number"]
DERIVES = ["append", "put", "insert", "insertall", "remove", "deleteall", "copy", "own"]


class Threads:
    """programs of threads on shared immutable values and types"""

    def __init__(self, g):
        self.g, self.r, self.st = g, g.r, Structs(g)

    def frozen(self, v):
        """v with immutable collections only"""
        if v[0] == "list":
            return ["list", "i", [self.frozen(x) for x in v[2]]]
        if v[0] == "map":
            return ["map", "i", [[k, self.frozen(x)] for k, x in v[2]]]
        if v[0] == "sparse":
            return ["map", "i", [[list(str(unword(k)).encode()), self.frozen(x)] for k, x in v[1]]]
        return v

    def coll(self, kind=None):
        g, r = self.g, self.r
        kind = kind or r.choice(["list", "map"])
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        val = lambda: self.frozen(g.value(4, 2, nil=0.05))
        if kind == "list":
            return ["list", "i", [val() for _ in range(n)]]
        return ["map", "i", [[self.key(), val()] for _ in range(n)]]

    def key(self):
        return self.g.key() if self.g.chance(0.2) else [self.r.choice([97, 98, 99])]

    def shared(self):
        """what is shared, and the kind of each"""
        g, r = self.g, self.r
        out, kinds = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(6)
            if k < 3:
                d = self.coll()
                out.append(["val", d, r.choice([0, 1, 3, 8])])
                kinds.append(d[0])
            elif k == 3:
                d = self.frozen(g.value(8, 3))
                out.append(["decoded", d])
                kinds.append(d[0])
            elif k == 4:
                d = self.frozen(g.atom())
                out.append(["val", d, 0])
                kinds.append(d[0])
            else:
                d = g.number()
                out.append(["val", d, 0])
                kinds.append("number")
        for _ in range(r.choice([0, 1, 2])):
            i = r.randrange(len(out))
            if kinds[i] in ("list", "map"):
                out.append(["from"] + self.derive(r.choice(DERIVES[:-2]), i, kinds[i]))
                kinds.append(kinds[i])
        return out, kinds

    def derive(self, op, i, kind):
        g, r = self.g, self.r
        key = self.key() if kind == "map" else word(r.choice([0, 0, 1, 2, 3, 4, -1]))
        vals = [self.frozen(g.value(2, 1)) for _ in range(r.choice([0, 1, 2, 3]) if op == "insertall" else 1)]
        return [op, i, key, vals]

    def op(self, kinds, on=None, what=None):
        r = self.r
        i = r.randrange(len(kinds) + 2) if on is None else on
        kind = kinds[i] if i < len(kinds) else r.choice(["list", "map"])
        what = what or (r.choice(READS) if self.g.chance(0.6) or kind not in ("list", "map") else r.choice(DERIVES))
        if what in DERIVES and what != "own":
            return self.derive(what, i, kind)
        if what == "get":
            return ["get", i, self.key() if kind == "map" else word(r.choice([0, 1, 2, 5, -1]))]
        if what in ("equal", "number"):
            return [what, i, r.randrange(len(kinds) + 2)]
        return [what, i]

    def structs(self, ts, c):
        """instances and encodings for a case with types"""
        r = self.r
        order = [r.randrange(1, len(ts) + 1) for _ in range(r.choice([1, 2, 3]))]
        insts = [[k, self.st.inst(ts, k, r.choice([1, 2]), 0.0, 0.7)] for k in order]
        if len(str(insts)) > 8000:
            insts = [[k, self.st.inst(ts, k, 1, 0.0, 0.4)] for k in order]
        c["insts"] = insts
        c["ins"] = []
        for k in order:
            b = self.st.enc(ts, k, 2)
            while len(b) > 800:
                b = self.st.enc(ts, k, 1)
            c["ins"].append({"root": k, "in": b})
        return len(order)

    def struct_op(self, n):
        r = self.r
        return ["@pack", r.randrange(n), r.randrange(2)] if self.g.chance(0.5) else ["@unpack", r.randrange(n), r.randrange(4)]

    def of_model(self, progs, i):
        g, r = self.g, self.r
        kind = r.choice(["list", "map"])
        d = self.coll(kind)
        shared = [["val", d, r.choice([1, 3, 8])], ["from"] + self.derive(r.choice(["append", "put", "insert"]), 0, kind)]
        c = {"op": "conc", "objs": shared, "rounds": 3}
        kinds = [kind, kind]
        flat = [o for p in progs for o in p]
        if any(o[0] == "schema" for o in flat):
            c.update({"static": "mut", "marker": 4 * i, "types": STATIC["mut"]})
            c["insts"] = [[k, self.st.inst(STATIC["mut"], k, 2, 0.0, 0.7)] for k in (1, 2)]
            c["ins"] = [{"root": k, "in": self.st.enc(STATIC["mut"], k, 1)} for k in (1, 2)]
        out = []
        for p in progs:
            prog = []
            for o in p:
                if o[0] == "schema":
                    prog.append([r.choice(["@pack", "@unpack"]), o[1] - 1, r.randrange(2)])
                elif o[0] == "read":
                    prog.append(self.op(kinds, o[1] - 1, r.choice(["see", "get", "equal", "views", "decode"])))
                elif o[0] == "show":
                    prog.append(self.op(kinds, o[1] - 1, r.choice(["json", "pack", "hash"])))
                else:
                    prog.append(self.op(kinds, o[1] - 1, r.choice(DERIVES)))
            out.append(prog)
        c["threads"] = out
        return c

    def random(self, i):
        g, r = self.g, self.r
        c = {"op": "conc", "rounds": r.choice([1, 2, 3])}
        c["objs"], kinds = self.shared()
        n = 0
        if g.chance(0.5):
            ts, more = self.st.any_types(g.chance(0.1))
            c.update(more)
            if "marker" in c:
                c["marker"] = 4 * i
            n = self.structs(ts, c)
        threads = r.choice([2, 2, 3, 4, 8])
        length = r.choice([1, 2, 4, 8])
        same = g.chance(0.3)      # all do the same
        progs = [[self.struct_op(n) if n and g.chance(0.5) else self.op(kinds) for _ in range(length)] for _ in range(threads)]
        c["threads"] = [progs[0]] * threads if same else progs
        return c


@prop("C21")
def c21(run):
    g = Gen(run.rng)
    g.valid = True
    t = Threads(g)
    rows = run.generate("MC_Conc", "MC_Conc.cfg")
    three = run.generate("MC_Conc", "MC_ConcThree.cfg")
    for x in (rows, three):
        x.sort(key=str)
    n = run.scale(900, 6000)
    rows = g.r.sample(rows, min(n, len(rows))) + three
    if not run.quick:
        run.model("MC_Conc", "MC_ConcDeep.cfg", timeout=2400, heap="8g")
        base = open(os.path.join(SPEC, "MC_Conc.cfg")).read()
        for flag in ("Grow", "Lazy", "Early"):
            run.breaks("MC_Conc", run.cfg("conc-" + flag, base.replace(flag + " = FALSE", flag + " = TRUE")))
    cases = [t.of_model(x, i) for i, x in enumerate(rows)]
    cases += [t.random(i) for i in range(run.scale(1800, 25000))]
    g.r.shuffle(cases)
    run.check(cases, "ConcTrace", "programs", drive={"race": True, "limit": 60})
    return "model_checking"


note("C23", "TLA+ specification of what values say about themselves; values of a model checked universe and random ones built, "
     "decoded and asked on the code, recorded answers judged by TLC",
     "Kind, types, interfaces, class, payload and text of every value and its elements, built by constructors and by operations, "
     "copied and decoded. Values of other implementations of the interfaces are outside.")


@prop("C23")
def c23(run):
    g = Gen(run.rng)
    vs = [desc(g, x["v"]) for x in universe(run, g)]
    vs += edge_values(g, False) + edge_longs() + edge_unknowns() + edge_exponents()
    vs += [g.value(12, 4) for _ in range(run.scale(3000, 40000))]
    vs += [g.number() for _ in range(run.scale(1500, 20000))]
    vs += [g.large() for _ in range(run.scale(150, 1500))]
    cases = [{"op": "tell", "v": v} for v in vs]
    for _ in range(run.scale(20, 200)):
        texts = [list(b) for b in (b"null", b"true", b"", b"nil", b"Null", b"null ", b"TRUE", b"T", b"1", b"yes", b"base64,", b"base64,AA")]
        texts += [g.string_text() for _ in range(20)]
        cases.append({"op": "names", "texts": texts})
    run.check(cases, "FaceTrace", "faces")
    return "model_checking"


note("C24", "TLA+ specification of tokens: a packer as a machine from calls to bytes, model checked with TLC; its behaviours and "
     "random ones replayed on the code, recorded events judged by TLC",
     "Values drive a packer of the driver; values are parsed out of an unpacker of the driver, each of whose reads fails once; "
     "every header code is given to every function of the parser. Headers shorter than their code asks for are outside, as are "
     "parsers other than the library's.")

CODE_SIZES = [0, 0, 0, 0, 1, 2, 4, 1, 2, 4, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, 2, 3, 5, 9, 17, 1, 2, 4, 2, 4, 2, 4]


@prop("C24")
def c24(run):
    g = Gen(run.rng)
    r = g.r
    rows = run.generate("MC_Tokens", "MC_Tokens.cfg" if run.quick else "MC_TokensDeep.cfg")
    rows.sort(key=str)
    cases = [{"op": "echo", "calls": x["calls"]} for x in r.sample(rows, min(len(rows), run.scale(1500, 40000)))]
    for _ in range(run.scale(1200, 10000)):
        cases.append({"op": "echo", "calls": [c for c in packer_calls(g) if c[0] != "raw"]})
    cases += [{"op": "echo", "calls": [v]} for v in edge_longs()]
    cases += [{"op": "echo", "calls": [["ext", v[1]]]} for v in edge_unknowns((0, 1))]
    for n in EDGE_SIZES:
        b = g.bytes(n)
        cases.append({"op": "echo", "calls": [["str", b], ["bin", b], ["ext", [r.randrange(256)] + b], ["list", n], ["map", n]]})
    for n in EDGES:
        if n < 1 << 31:
            cases.append({"op": "echo", "calls": [["list", n], ["map", n]]})
    vs = [desc(g, x["v"]) for x in universe(run, g)]
    vs = r.sample(vs, min(len(vs), run.scale(1500, 10000)))
    vs += edge_values(g) + edge_exponents() + edge_unknowns((0, 1)) + [g.value(14, 5) for _ in range(run.scale(2000, 30000))]
    cases += [{"op": "pack", "v": v} for v in vs]
    ins = g.scalars() + g.extensions() + g.blobs(EDGE_SIZES) + g.counted(EDGE_SIZES[:-2])
    ins += [sum((g.encoding(6, 3) for _ in range(r.randrange(1, 4))), []) for _ in range(run.scale(2000, 20000))]
    ins += [g.mutate(g.encoding(8, 3)) for _ in range(run.scale(500, 5000))]
    cases += [{"op": "parse from", "in": b} for b in ins]
    for c in range(256):
        n = CODE_SIZES[c - 0xc0] if 0xc0 <= c < 0xe0 else 0
        tails = [[0] * n, [255] * n, [127] + [255] * (n - 1), [128] + [0] * (n - 1)] if n else [[]]
        tails += [g.bytes(n) for _ in range(run.scale(2, 20) if n else 0)]
        for t in tails:
            cases.append({"op": "misread", "head": [c] + t, "good": [r.randrange(128)]})
    run.check(cases, "TokenTrace", "tokens")
    st = Structs(g)
    cases = [dict(st.into(), op="parse struct") for _ in range(run.scale(600, 6000))]
    cases += [dict(st.into(mutate=True), op="parse struct") for _ in range(run.scale(400, 4000))]
    run.check(cases, "StructTrace", "structs out of unpackers")
    return "model_checking"

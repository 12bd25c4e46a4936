"""Random struct types, instances and encodings of them."""
import struct

from gen import word, be

NOTAG = [-1]
VALS = ["value", "value", "value", "number", "number", "string", "bool", "list", "map", "ext",
        "cbool", "clong", "cdbl", "cstr", "craw", "cunk", "cnull"]
NO_NIL = ("cbool", "clong", "cdbl", "cstr", "cnull")
OTHERS = ["int", "int64", "string", "bool", "bytes", "struct", "array", "map", "mapint", "func", "chan", "ptrint", "ptrptr",
          "ptrvalue", "ptrslice", "slices", "any", "error", "stringer", "collection", "float", "array0", "structs"]


def text(s):
    return list(s.encode())


def field(tag, elem, many=False, rep=""):
    return {"tag": text(tag), "rep": text(rep), "many": many, "elem": elem}


def v(name):
    return ["v", name]


def n(k):
    return ["n", k]


STATIC = {
    "rec": [[field("1", v("value")), field("2", n(1)), field("3", n(1), True), field("4", n(1), True, "true")]],
    "mut": [[field("1", v("value")), field("2", n(2))],
            [field("2", v("value"), True), field("1", n(1)), field("3", n(1), True, "true")]],
    "chain": [[field("1", n(2))],
              [field("7", n(3)), field("-7", n(1)), field("8", n(2))],
              [field("300", n(1), True), field("2", v("number"), True, "1"), field("1", v("bool")), field("0", n(2)),
               field("5", v("ext"))]],
    "bad": [[field("1", v("value")), field("2", n(1))],
            [field("1", n(1)), field("2", n(2)), field("3", ["x", "int"])]],
    "loop": [[field("1", v("value")), field("2", n(2))],
             [field("1", n(1)), field("1", v("value"))]],
    "hide": [[field("1", v("value")), field("2", ["x", "unexported"])],
             [field("1", v("value")), field("2", n(1), True)]],
    "embed": [[field("2", n(2)), field("1", v("value")), field("3", n(2))],
              [field("1", v("value"))]],
    "tuck": [[field("1", v("value"))],
             [field("1", ["x", "unexported"]), field("2", v("value"))],
             [field("2", v("value")), field("1", ["x", "unexported"])],
             [field("1", ["x", "embedded"]), field("2", v("value"))],
             [field("1", v("value")), field("2", ["x", "unexported"])],
             [field("5", n(7)), field("6", n(1))],
             [field("4", n(2), True)]],
    "twin": [[field("1", v("value")), field("2", v("value"), True, "true")],
             [field("1", v("value"), True), field("4", v("value")), field("2", n(2))],
             [field("1", n(4)), field("7", v("value")), field("2", v("value"), True)],
             [field("1", v("value"))]],
}


class Structs:
    def __init__(self, g):
        self.g, self.r = g, g.r

    # -- types ------------------------------------------------------------
    def tag(self):
        r = self.r
        k = r.randrange(8)
        if k < 4:
            return r.randrange(0, 12)
        if k == 4:
            return -r.randrange(1, 40)
        if k == 5:
            return r.choice([31, 32, 127, 128, 129, 200, 255, 256, 65535, 65536, 1 << 31, 1 << 32, -128, -129, -32768, -32769])
        if k == 6:
            return r.choice([(1 << 63) - 1, -(1 << 63), (1 << 53) + 1, -(1 << 31) - 1])
        return r.randrange(0, 1000)

    def tag_text(self, t):
        r = self.r
        k = r.randrange(12)
        s = str(t)
        if k == 0 and t >= 0:
            return "+" + s
        if k == 1:
            return ("-" if t < 0 else "") + "0" * r.randrange(1, 4) + s.lstrip("-")
        return s

    def types(self, bad=False, wide=0.04):
        """acyclic types; the first is not always the root of all"""
        r, g = self.r, self.g
        count = r.choice([1, 1, 2, 2, 3, 4])
        ts = []
        for k in range(1, count + 1):
            nf = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
            if g.chance(wide):
                nf = r.choice([15, 16, 17, 18])
            wide_leaf = k == count and g.chance(0.01)
            if wide_leaf:
                nf = min(150, g.many())
            tags, fs = set(), []
            for _ in range(nf):
                t = self.tag()
                if t in tags:
                    continue
                tags.add(t)
                if k < count and g.chance(0.45):
                    e = n(r.randrange(k + 1, count + 1))
                else:
                    e = v(r.choice(VALS))
                many = g.chance(0.1 if wide_leaf else 0.45)
                rep = r.choice(["true", "true", "1", "t", "T", "True"]) if many and g.chance(0.5) else ""
                if not rep and g.chance(0.06):
                    rep = r.choice(["false", "0", "yes", "x", "True"])
                fs.append(field(self.tag_text(t), e, many, rep))
            if g.chance(0.5):
                fs.sort(key=lambda f: int(bytes(f["tag"])))
            ts.append(fs)
        if bad:
            fs = r.choice(ts)
            k = r.randrange(5)
            if k == 0 or not fs:
                fs.insert(r.randrange(len(fs) + 1), field("77", ["x", r.choice(OTHERS)], g.chance(0.3),
                                                           r.choice(["", "true"])))
            elif k == 1:
                r.choice(fs)["tag"] = NOTAG
            elif k == 2:
                r.choice(fs)["tag"] = text(r.choice(["", "x", "1.5", "0x1", " 1", "1 ", "--1", "+", "-", "1_0",
                                                     "9223372036854775808", "-9223372036854775809", "1e3", "\u0661", "10x"]))
            else:
                f = r.choice(fs)
                t = int(bytes(f["tag"]))
                twin = dict(f) if g.chance(0.5) else field("1", v(r.choice(VALS)), g.chance(0.3))
                twin["tag"] = text(r.choice([str(t), ("+%d" % t if t >= 0 else str(t)), ("-0%d" % -t if t < 0 else "00%d" % t)]))
                fs.insert(r.randrange(len(fs) + 1), twin)
        return ts

    # -- instances --------------------------------------------------------
    def val(self, name, budget=4):
        g, r = self.g, self.r
        if name == "value":
            return g.value(budget, 2) if g.chance(0.5) else g.atom()
        if name in ("bool", "cbool"):
            return ["bool", g.chance(0.5)]
        if name == "number":
            return g.number()
        if name == "clong":
            return g.long()
        if name == "cdbl":
            return g.double()
        if name == "string":
            return g.utf8() if g.chance(0.5) else g.raw()
        if name == "cstr":
            return g.utf8()
        if name == "craw":
            return g.raw()
        if name == "cnull":
            return ["null"]
        if name in ("ext", "cunk"):
            return g.unk(r.choice([1, 2, 3, 4, 8, 16, 17]))
        want = "map" if name == "map" else "list"
        for _ in range(40):
            x = g.value(budget, 2)
            if x[0] == want or (want == "list" and x[0] == "sparse"):
                return x
        return [want, "i", []]

    def inst(self, ts, k, depth=4, holes=0.0, some=0.75):
        """an instance; holes is the chance of a nil element"""
        g, r = self.g, self.r
        out = []
        for f in ts[k - 1]:
            kind, arg = f["elem"]
            m = 1

            def one():
                if kind == "n":
                    return ["inst", self.inst(ts, arg, depth - 1 if m < 10 else 0, holes, some)]
                if kind == "x":
                    return ["null"]
                return self.val(arg)
            must = kind == "v" and arg in NO_NIL
            if kind == "n" and depth <= 0:
                out.append(["none"])
            elif f["many"]:
                if not g.chance(some):
                    out.append(["none"])
                    continue
                m = r.choice([0, 1, 1, 2, 3]) if kind == "n" else r.choice([0, 1, 2, 2, 3, 5])
                if g.chance(0.04):
                    m = r.choice([7, 8, 9, 15, 16, 17, 24, 33]) if kind == "n" or depth < 4 or g.chance(0.8) else g.many()
                out.append(["many", [["none"] if not must and kind != "x" and arg not in ("cunk", "craw") and g.chance(holes)
                                     else one() for _ in range(m)]])
            else:
                out.append(["one", one()] if must or g.chance(some) else ["none"])
        return out

    # -- encodings, in any order and width --------------------------------
    def enc_val(self, name):
        g, r = self.g, self.r
        if g.chance(0.02) and not g.valid:
            return g.encoding(4, 2)
        if name == "value":
            return g.encoding(4, 2)
        if name in ("bool", "cbool"):
            return [r.choice([194, 195])]
        if name == "number":
            return g.e_int() if g.chance(0.5) else g.e_float()
        if name == "clong":
            return g.e_int()
        if name == "cdbl":
            return g.e_float()
        if name == "cnull":
            return [192]
        if name == "cstr" or (name == "string" and g.chance(0.5)):
            return g.e_blob("str", g.textbytes())
        if name in ("craw", "string"):
            return g.e_blob("bin", g.bytes(r.choice([0, 1, 5, 20])))
        if name in ("ext", "cunk"):
            td = g.unk(r.choice([1, 2, 4, 8, 16, 3, 17]))[1]
            k = len(td) - 1
            forms = [[199, k], [200] + be(k, 2), [201] + be(k, 4)]
            if k in (1, 2, 4, 8, 16):
                forms.append([211 + {1: 1, 2: 2, 4: 3, 8: 4, 16: 5}[k]])
            return r.choice(forms) + td
        m = r.choice([0, 1, 2, 3])
        if name == "map":
            out = g.e_map_head(m)
            for _ in range(m):
                out = out + g.e_key("str", 0) + g.e_atom()
            return out
        out = g.e_list_head(m)
        if m and g.chance(0.3):
            out = g.e_map_head(m)
            for _ in range(m):
                out = out + g.e_key("int", 0) + g.e_atom()
            return out
        for _ in range(m):
            out = out + g.e_atom()
        return out

    def enc_int(self, t):
        r = self.r
        forms = []
        if 0 <= t < 128:
            forms.append([t])
        if -32 <= t < 0:
            forms.append([256 + t])
        for k, (u, s) in {1: (204, 208), 2: (205, 209), 4: (206, 210), 8: (207, 211)}.items():
            if 0 <= t < 1 << (8 * k):
                forms.append([u] + be(t, k))
            if -(1 << (8 * k - 1)) <= t < 1 << (8 * k - 1):
                forms.append([s] + be(t, k))
        return r.choice(forms)

    def near_key(self, t):
        """something else than the integer t that could be taken for it"""
        g, r = self.g, self.r
        k = r.randrange(8)
        s = str(t).encode()
        if k == 0:
            return [203] + list(struct.pack(">d", t + r.choice([0.5, 0.25, -0.5, 0.001, 0.999])))
        if k == 1:
            return [202] + list(struct.pack(">f", t + r.choice([0.5, 0.25, 0.75])))
        if k == 2:
            return [203] + list(struct.pack(">d", float(t))) if g.chance(0.5) else [202] + list(struct.pack(">f", float(t)))
        if k == 3:
            return g.e_blob(r.choice(["str", "bin"]), list(s))
        if k == 4:      # a big number with the same low bits
            n = (t + r.choice([0, 1 << 64, 1 << 128])) if t >= 0 else (1 << 64) + t
            b = n.to_bytes((n.bit_length() + 7) // 8 or 1, "big")
            return [199, len(b), 1] + list(b)
        if k == 5:
            return [192] if t == 0 else [195] if t == 1 else [194]
        if k == 6:
            return [212, 3, t % 256]
        return self.enc_int(-t if t and -(1 << 63) < t else t + 1)

    def misfit(self):
        """something in place of what a field has"""
        g, r = self.g, self.r
        return r.choice([[192], [194], [0], [144], [128], [145, 192], [129, 0, 192], [160], [196, 0], [212, 3, 7], [202, 0, 0, 0, 0],
                         [145, 144], [145, 128], [220, 0, 0], [222, 0, 0], [221, 0, 0, 0, 0], [223, 0, 0, 0, 0], [146, 192, 192],
                         [129, 161, 97, 192], [161, 97], g.encoding(2, 1)])

    def enc(self, ts, k, depth=4):
        g, r = self.g, self.r
        entries = []
        for f in ts[k - 1]:
            kind, arg = f["elem"]
            if g.chance(0.2) or (kind == "n" and depth <= 0):
                continue
            one = lambda: self.enc(ts, arg, depth - 1) if kind == "n" else self.enc_val(arg)
            try:
                t = int(bytes(f["tag"]))
            except ValueError:
                t = 1
            if not g.valid and g.chance(0.04):
                entries.append((t, self.misfit()))
            elif f["many"]:
                m = r.choice([0, 1, 2, 3])
                if g.chance(0.04):
                    m = r.choice([7, 8, 9, 15, 16, 17, 24, 33])
                    depth = 0 if kind == "n" else depth
                if bytes(f["rep"]) in (b"true", b"1", b"t", b"T", b"True", b"TRUE"):
                    entries += [(t, one()) for _ in range(m)]
                else:
                    b = g.e_list_head(m)
                    for _ in range(m):
                        b = b + one()
                    entries.append((t, b))
            else:
                entries.append((t, one()))
            if not g.valid and g.chance(0.02):
                entries.append((t + r.choice([1, -1, 1 << 32, 1 << 8]), one()))
        r.shuffle(entries)
        out = g.e_map_head(len(entries))
        for t, b in entries:
            t = max(-(1 << 63), min((1 << 63) - 1, t))
            key = self.enc_int(t)
            if not g.valid and g.chance(0.015):
                key = g.e_key("any", 1)
            elif not g.valid and g.chance(0.03):
                key = self.near_key(t)
            out = out + key + b
        return out

    def any_types(self, bad=False):
        """types for a case, and what the case says about them"""
        r, g = self.r, self.g
        if g.chance(0.3):
            name = r.choice([k for k in STATIC if bad == (k in ("bad", "loop", "hide", "tuck"))])
            return STATIC[name], {"static": name, "marker": r.randrange(1000), "types": STATIC[name]}
        ts = self.types(bad)
        c = {"types": ts}
        if g.chance(0.15):
            c["shared"] = True
        return ts, c

    def uses(self, bad=False, holes=0.0):
        g, r = self.g, self.r
        ts, c = self.any_types(bad)
        order = [r.randrange(1, len(ts) + 1) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if g.chance(0.3):
            order = list(range(1, len(ts) + 1))
            if g.chance(0.5):
                order.reverse()
        c["op"] = "struct"
        c["uses"] = [{"root": k, "inst": self.inst(ts, k, r.choice([1, 2, 3, 4]), holes, r.choice([0.5, 0.8, 1.0])),
                      "first": g.chance(0.3)} for k in order]
        while len(str(c["uses"])) > 12000:          # recursive types grow
            c["uses"] = [{"root": k, "inst": self.inst(ts, k, 1, holes, 0.5), "first": False} for k in order]
        return c

    def into(self, mutate=False, bad=False):
        g, r = self.g, self.r
        ts, c = self.any_types(bad)
        k = r.randrange(1, len(ts) + 1)
        b = self.enc(ts, k, r.choice([1, 2, 3]))
        while len(b) > 1500:
            b = self.enc(ts, k, 1)
        if mutate:
            b = g.mutate(b) if g.chance(0.8) else g.encoding(6, 3)
        c.update({"op": "into", "root": k, "in": b})
        return c

"""Random cases: values, encodings, byte strings, fragment plans.

Nothing here knows what is right: the cases are inputs, and the
specification judges what the code makes of them."""
import base64
import math
import struct
from fractions import Fraction

LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 30, 31, 32, 33, 40]
EDGES = [0, 1, 2, 15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769,
         65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32,
         (1 << 32) + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 63) - 1]
DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 0.1, 1 / 3, 3.25, 100.0, 1e15, 1e16, 1e21, 1e22, 1e-7, 123456.789,
           2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 5e-324, 2.2250738585072014e-308,
           1.7976931348623157e308, float("inf"), float("-inf"), 4.9e-320, 1e300, -1e-300, 0.3, 2.5, 1e23]
WORDS = [b"", b"a", b"b", b"ab", b"abc", b"key", b"name", b"z", b"A", b"0", b"1", b"-1", b"10", b"2", b"01",
         b"true", b"null", b"NaN", b"1.5", b"[", b"[1]", b"{}", b"base64,AQI=", "\u00e9".encode(), "\u65e5".encode(),
         b"\x80", b"\xc3", "\uffff".encode(), b"\xed\xa0\x80", b"_", b"-",
         b"\x00", b"\x7f", b"\xff\xfe", b"a\x00", b"\xf0\x9f\x98\x80"]


def word(n):
    return list(struct.pack(">Q", n & ((1 << 64) - 1)))


def dword(x):
    return list(struct.pack(">d", x))


def unword(w):
    return struct.unpack(">q", bytes(w))[0]


def rational(v):
    """the number a descriptor stands for, None if it is not finite"""
    if v[0] == "long":
        return Fraction(unword(v[1]))
    if v[0] == "double":
        x = struct.unpack(">d", bytes(v[1]))[0]
        return Fraction(x) if math.isfinite(x) else None
    m = int.from_bytes(bytes(v[2]), "big") * (-1 if v[1] else 1)
    if v[0] == "big":
        return Fraction(m)
    return m * Fraction(10) ** int.from_bytes(bytes(v[3]), "big", signed=True)


def decimal_of(x, more=0):
    """a decimal with this value, if there is a small one"""
    e = 0
    while x.denominator != 1:
        x, e = x * 10, e - 1
        if e < -60:
            return None
    n = x.numerator
    if more == 0:
        while n and n % 10 == 0 and e < 400:
            n, e = n // 10, e + 1
    n, e = n * 10 ** more, e - more
    if abs(n) >= 1 << 320:
        return None
    return ["dec", n < 0, list(abs(n).to_bytes((abs(n).bit_length() + 7) // 8, "big")), be(e, 4)]


def be(n, k):
    return list((n & ((1 << (8 * k)) - 1)).to_bytes(k, "big"))


# characters that some encoder or other treats specially
RUNES = [0x1f, 0x20, 0x22, 0x26, 0x27, 0x2f, 0x3c, 0x3e, 0x5c, 0x60, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0xff, 0x100,
         0x300, 0x301, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600,
         0x1ffff, 0x10fffd, 0x10ffff, 0x2028, 0x2029, 0x200b, 0x200d, 0x202e, 0x61c, 0x8, 0xc, 0xb, 0xd, 0x1b]


LARGE = [40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 511, 512, 513, 600]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.valid = False      # only encodings that must be accepted

    def chance(self, p):
        return self.r.random() < p

    def bytes(self, n):
        return [self.r.randrange(256) for _ in range(n)]

    # -- numbers ----------------------------------------------------------
    def integer(self):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            n = r.choice(EDGES)
        elif k == 1:
            n = r.getrandbits(r.randrange(1, 64))
        elif k == 2:
            n = r.randrange(0, 300)
        else:
            n = max(0, min((1 << 63) - 1, r.choice(EDGES) + r.randrange(-3, 4)))
        if self.chance(0.45):
            n = -n - (1 if self.chance(0.5) else 0)
        return n

    def small(self):
        return self.r.randrange(-40, 200)

    def long(self):
        return ["long", word(self.integer())]

    def double_word(self, nan=True):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            w = dword(r.choice(DOUBLES))
        elif k == 1:
            w = dword(r.randrange(-10 ** 6, 10 ** 6) / 2 ** r.randrange(0, 12))
        elif k == 2:
            w = word(r.getrandbits(64))
        elif k == 3:
            w = dword(float(self.integer()))
        else:
            w = dword(r.choice(DOUBLES) * r.random())
        if not nan and w[0] & 127 == 127 and w[1] >= 0xf0 and (w[1] & 15 or any(w[2:])):
            return dword(2.5)
        return w

    def double(self, nan=True):
        if nan and self.chance(0.04):
            return ["double", self.r.choice([word(0x7ff8000000000001), word(0x7ff8000000000000),
                                             word(0xfff8000000000000), word(0x7ff0000000000001)])]
        return ["double", self.double_word(nan)]

    def mag(self):
        r = self.r
        k = r.choice([0, 1, 1, 2, 3, 6, 7, 8, 8, 9, 13, 14, 15, 16, 30, r.randrange(0, 40)])
        b = self.bytes(k)
        if self.chance(0.2) and b:
            b = [r.choice([1, 127, 128, 255])] + [r.choice([0, 255])] * (k - 1)
        i = 0
        while i < len(b) and b[i] == 0:
            i += 1
        return b[i:]

    def big(self):
        m = self.mag()
        return ["big", bool(m) and self.chance(0.5), m]

    def exp(self):
        r = self.r
        e = r.choice([0, 0, 1, -1, 2, -2, 5, -5, 9, 10, 15, 16, -16, 17, -17, 255, 256, -256, -100, 1000, -1000,
                      r.randrange(-400, 400)])
        return be(e, 4)

    def dec(self):
        m = self.mag()
        return ["dec", bool(m) and self.chance(0.5), m, self.exp()]

    def number(self, nan=True):
        return self.r.choice([self.long, self.long, lambda: self.double(nan), self.big, self.dec])()

    # -- strings ----------------------------------------------------------
    def textbytes(self, n=None):
        r = self.r
        if n is None and self.chance(0.35):
            return list(r.choice(WORDS))
        n = r.choice(LENS) if n is None else n
        k = r.randrange(3)
        if k == 0:
            return [r.randrange(32, 127) for _ in range(n)]
        if k == 1:
            return self.bytes(n)
        out = b""
        while len(out) < n:
            c = r.choice([65, 97, 34, 92, 10, 9, 0, 31, 127, 0xe9, 0x2028, 0x20ac, 0x1f600])
            out += chr(r.choice(RUNES) if self.chance(0.4) else c).encode()
        return list(out)

    def crowded(self, n):
        """a map of n entries with few keys, in no order"""
        r = self.r
        mode = r.choice(["int", "str", "mix", "both", "late", "late", "stem", "stem", "close"])
        if mode in ("stem", "close"):   # keys that differ little
            stem, base = self.textbytes(r.choice([1, 2, 4, 7, 8, 9, 15, 16, 24, 40])), self.integer()
            out = self.e_map_head(n)
            wide = r.choice([2, 3, n, 4 * n])
            cut = self.chance(0.25)
            for i in range(n):
                k = r.randrange(wide)
                if mode == "stem":
                    tail = [97 + k % 26] if k % 2 else list(str(k).encode())
                    key = self.e_blob(r.choice(["str", "str", "bin"]), stem[:r.choice([len(stem)] * 5 + [r.randrange(len(stem) + 1)]) if cut else None] +
                                      tail + ([r.randrange(256)] if self.chance(0.1) else []))
                else:
                    key = [211] + be(min(max(base + r.choice([k, k, -k, k << 8, k << 24]), -(1 << 63)), (1 << 63) - 1), 8)
                out = out + key + [205] + be(i, 2)
            return out
        if mode == "late":      # integers only, but for some late in the map
            late = r.randrange(n) if self.chance(0.7) else n - 1
            out = self.e_map_head(n)
            for i in range(n):
                text = i == late or (i > late and self.chance(0.3))
                out = out + (self.e_key("str", 0) if text else self.e_key("int", 0)) + [205] + be(i, 2)
            return out
        if mode == "both":      # the same text, as integer and as string
            pool = [[5], [161, 53], [161, 97], [9], [161, 57]]
        else:
            pool = [self.e_key(r.choice(["int", "str"]) if mode == "mix" else mode, 0) for _ in range(r.choice([1, 2, 3, 5]))]
        out = self.e_map_head(n)
        for i in range(n):
            out = out + r.choice(pool) + [205] + be(i, 2)
        return out

    def utf8(self, n=None):
        return ["utf8", self.textbytes(n)]

    def raw(self, n=None):
        return ["raw", self.bytes(self.r.choice(LENS) if n is None else n)]

    def unk(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20]) if n is None else n
        tag = r.choice([0, 3, 4, 42, 127, 128, 254, 255, r.randrange(3, 256)])
        return ["unk", [tag] + self.bytes(n)]

    def atom(self, nil=0.0, nan=True):
        r = self.r
        if self.chance(nil):
            return ["nil"]
        return r.choice([lambda: ["null"], lambda: ["bool", self.chance(0.5)], self.long, self.long,
                         lambda: self.double(nan), self.big, self.dec, self.utf8, self.utf8, self.raw,
                         self.unk])()

    # -- containers -------------------------------------------------------
    def impl(self):
        return self.r.choice("im")

    def index(self):
        r = self.r
        k = r.randrange(6)
        if k < 3:
            return r.randrange(-3, 12)
        if k == 3:
            return r.randrange(-200, 300)
        if k == 4:
            return r.choice([127, 128, 255, 256, 65535, 65536, -1, -32, -33, -128, -129, 1 << 31, -(1 << 31), 1 << 40])
        return r.choice([(1 << 62), -(1 << 62), -(1 << 63), (1 << 63) - 2])

    def key(self):
        return list(self.r.choice(WORDS)) if self.chance(0.7) else self.textbytes()

    def size(self, budget):
        r = self.r
        return min(budget, r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 12, 13, 14, 15, 16, 17, 25]))

    def value(self, budget=12, depth=4, nil=0.05, nan=True):
        """descriptor of a value with about budget elements"""
        r = self.r
        if depth == 0 or budget <= 0 or self.chance(0.35):
            return self.atom(nan=nan)
        n = self.size(budget)
        each = lambda: (self.atom(nil, nan) if self.chance(0.6) else
                        self.value((budget - n) // max(1, min(n, 3)), depth - 1, nil, nan))
        k = r.randrange(3)
        if k == 0:
            return ["list", self.impl(), [each() for _ in range(n)]]
        if k == 1:
            idx = [self.index() for _ in range(n)]
            if n > 2 and self.chance(0.3):
                idx = [r.choice(idx[:2]) for _ in range(n)]
            if self.chance(0.3):
                idx.sort()
            return ["sparse", [[word(i), each()] for i in idx]]
        keys = [self.key() for _ in range(n)]
        if n > 2 and self.chance(0.3):
            keys = [r.choice(keys[:3]) for _ in range(n)]
        if n > 1 and self.chance(0.1):      # only their ends tell them apart
            stem = self.textbytes(r.choice([7, 8, 16, 33, 64, 130]))
            keys = [stem + k for k in keys]
        return ["map", self.impl(), [[k, each()] for k in keys]]

    def wide(self, n, kind=None):
        """a container or string of exactly n elements or bytes"""
        r = self.r
        kind = kind or r.choice(["list", "sparse", "map", "utf8", "raw", "unk"])
        if kind == "utf8":
            return ["utf8", [r.choice([97, 98, 0xc3]) for _ in range(n)]]
        if kind == "raw":
            return ["raw", [r.randrange(256) if n < 300 else 7 for _ in range(n)]]
        if kind == "unk":
            return ["unk", [r.choice([0, 3, 200])] + [5] * n]
        one = lambda: r.choice([["null"], ["bool", True], ["long", word(r.randrange(100))]])
        if kind == "list":
            return ["list", self.impl(), [one() for _ in range(n)]]
        if kind == "sparse":
            idx = [r.randrange(-n, 2 * n + 1) for _ in range(n)]
            if n > 600:         # sorting many takes the specification long
                idx.sort()
            return ["sparse", [[word(i), one()] for i in idx]]
        keys = [b"%x" % r.randrange(2 * n + 1) for _ in range(n)]
        if n > 600:
            keys.sort()
        return ["map", self.impl(), [[list(k), one()] for k in keys]]

    def many(self):
        """how many there are of what is usually few"""
        return self.r.choice(LARGE) if self.chance(0.5) else self.r.randrange(18, 130)

    def large(self, *kinds):
        """a value with many elements or bytes"""
        r = self.r
        kind = r.choice(kinds or ["list", "sparse", "map", "utf8", "raw", "unk", "big", "dec"])
        n = self.many()
        if kind in ("big", "dec"):
            m = [r.choice([1, 127, 128, 255])] + [r.choice([0, 255, r.randrange(256)]) for _ in range(min(n, 150) - 1)]
            return [kind, self.chance(0.5), m] + ([self.exp()] if kind == "dec" else [])
        if kind in ("utf8", "raw", "unk"):
            n = n * r.choice([1, 1, 4])
            b = self.bytes(n) if kind != "utf8" or self.chance(0.3) else [r.randrange(32, 127) for _ in range(n)]
            return [kind, ([r.choice([0, 3, 200])] if kind == "unk" else []) + b]
        v = self.wide(n, kind)
        for _ in range(3):
            i = r.randrange(n)
            v[-1][i] = self.atom() if kind == "list" else [v[-1][i][0], self.atom()]
        return v

    def spot(self, v):
        """v, or with one change somewhere"""
        r = self.r
        if v[0] in ("long", "double", "bool", "null"):
            return self.variant(v)
        s = list(v[-1] if v[0] != "dec" and v[0] != "big" else v[2])
        least = 1 if v[0] in ("unk", "big", "dec") else 0
        i = max(least, r.choice([0, len(s) // 2, len(s) - 1, r.randrange(len(s)), r.randrange(len(s))]))
        k = r.randrange(4)
        if i >= len(s) or k == 0:
            pass
        elif k == 1:
            if v[0] in ("utf8", "raw", "unk", "big", "dec"):
                s[i] ^= r.choice([1, 32, 128])
            else:
                s[i] = self.variant(s[i]) if v[0] == "list" else [s[i][0], self.variant(s[i][1])]
        elif k == 2 and v[0] not in ("sparse", "map"):
            del s[i]
        elif v[0] == "map":
            s[i] = [s[i][0][:-1] + [r.randrange(256)], s[i][1]]
        elif v[0] == "sparse":
            s[i] = [word(unword(s[i][0]) + 1), s[i][1]]
        else:
            s[i] = s[i - 1]
        if v[0] in ("list", "map"):
            return [v[0], self.impl(), s]
        if v[0] in ("utf8", "raw"):
            return [r.choice(["utf8", "raw"]), s]
        return [v[0], s] if v[0] in ("sparse", "unk") else v[:2] + [s] + v[3:]

    def deep(self, n, v=None):
        """n containers nested in each other"""
        v = v or self.atom()
        for _ in range(n):
            k = self.r.randrange(3)
            if k == 0:
                v = ["list", self.impl(), [v] if self.chance(0.7) else [["null"], v]]
            elif k == 1:
                v = ["sparse", [[word(self.index()), v]]]
            else:
                v = ["map", self.impl(), [[self.key(), v]]]
        return v

    # -- pairs to compare --------------------------------------------------
    def number_variant(self, v):
        """the same number in another type, or one close to it"""
        r = self.r
        x = rational(v)
        if x is None:
            return r.choice([v, self.double(), ["double", dword(float("inf"))]])
        k = r.randrange(6)
        if k == 0:
            x = x + r.choice([1, -1, Fraction(1, 10), Fraction(1, 10 ** 5), Fraction(1, 2 * 10 ** 5), Fraction(2, 10 ** 5),
                              Fraction(-1, 10 ** 6), Fraction(1, 10 ** 4), 256, 1 << 32, 1 << 64])
        elif k == 1:
            x = -x
        out = []
        if x.denominator == 1:
            n = x.numerator
            if -(1 << 63) <= n < 1 << 63:
                out.append(["long", word(n)])
            if abs(n) < 1 << 400:
                out.append(["big", n < 0, list(abs(n).to_bytes((abs(n).bit_length() + 7) // 8, "big"))])
        d = decimal_of(x, r.choice([0, 0, 1, 3]))
        if d:
            out.append(d)
        try:
            out.append(["double", dword(float(x))])
        except OverflowError:
            pass
        return r.choice(out) if out else v

    def near(self, b):
        """byte strings that are easily taken for this one"""
        t = bytes(b)
        out = [t + x for x in (b"\0", b" ", b"\n", b"=", b"a", b"\xff")] + [x + t for x in (b"\0", b" ", b"+", b"0", b"\xff")]
        out += [t[:-1], t[1:], t.upper(), t.lower(), t.swapcase(), t[::-1], t + t, t[:len(t) // 2],
                t.decode("utf8", "replace").encode(), t.decode("latin1").encode(), base64.b64encode(t),
                b"base64," + base64.b64encode(t).rstrip(b"="), b"".join(bytes([x & 127]) for x in t)]
        if t:
            i = self.r.randrange(len(t))
            out += [t[:i] + bytes([t[i] ^ x]) + t[i + 1:] for x in (1, 32, 128)] + [t[:i] + b"\0" + t[i:], t[:i] + t[i + 1:]]
            out += [t[:-1] + bytes([t[-1] ^ 1]), bytes([t[0] ^ 1]) + t[1:], t[:-1] + bytes([t[-1] ^ 128]),
                    t[:-1] + bytes([t[-1] ^ 32])]
        return [list(x) for x in sorted(set(out))]

    def variant(self, v):
        """a value that is equal, or differs in one thing"""
        r = self.r
        if v[0] in ("null", "nil"):
            return r.choice([["null"], ["nil"], ["null"], ["list", "i", []], ["utf8", []], ["long", word(0)], ["bool", False]])
        if v[0] in ("long", "double", "big", "dec"):
            return self.number_variant(v)
        if v[0] in ("utf8", "raw"):
            b = v[1]
            if self.chance(0.6):
                b = self.mutate(b) if self.chance(0.4) else r.choice(self.near(b))
            return [r.choice(["utf8", "raw"]), b]
        if v[0] == "unk":
            b = v[1][:1] + self.mutate(v[1][1:]) if self.chance(0.5) else r.choice([v[1]] + [x for x in self.near(v[1]) if x and x[0] not in (1, 2)])
            return [r.choice(["unk", "unk", "raw"]), b]
        if v[0] == "bool":
            return ["bool", self.chance(0.5)]
        s = list(v[-1])
        k = r.randrange(9)
        at = r.randrange(len(s)) if s else 0
        pair = v[0] != "list"
        if k <= 3 and s:            # something inside
            s[at] = [s[at][0], self.variant(s[at][1])] if pair else self.variant(s[at])
        elif k == 4 and s:
            del s[at]
        elif k == 5 and s:
            s.insert(r.randrange(len(s) + 1), s[at])
        elif k == 6 and pair and s:
            s[at] = [r.choice([self.key()] + self.near(s[at][0])) if v[0] == "map" else word(self.index()), s[at][1]]
        elif k == 7 and len(s) > 1:
            r.shuffle(s)
        if v[0] == "list":
            if self.chance(0.25) and len(s) <= 40:       # as a sparse list
                items = [[word(i), x] for i, x in enumerate(s)]
                if self.chance(0.5):
                    items = [p for p in items if p[1][0] not in ("null", "nil")]
                return ["sparse", items]
            return ["list", self.impl(), s]
        if v[0] == "sparse":
            if self.chance(0.25) and all(unword(i) < 60 for i, _ in s):
                d = dict((unword(i), x) for i, x in reversed(s))
                return ["list", self.impl(), [d.get(i, ["nil"]) for i in range(max(d, default=-1) + 1)]]
            return ["sparse", s]
        return ["map", self.impl(), s]

    # -- texts -------------------------------------------------------------
    def number_text(self):
        r = self.r
        digits = lambda n: "".join(r.choice("0123456789") for _ in range(n))
        hexes = lambda n: "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
        k = r.randrange(10)
        sign = r.choice(["", "", "-", "+"])
        zeros = "0" * r.choice([1, 2, 3, 4, 8, 17]) if self.chance(0.2) else ""
        if k == 0:
            t = sign + zeros + str(abs(self.integer()) + r.choice([0, 0, 1, 2]))
        elif k == 1:
            t = sign + zeros + digits(self.many() if self.chance(0.05) else r.choice([1, 2, 5, 18, 19, 20, 25]))
        elif k == 2:
            t = sign + zeros + digits(r.choice([0, 1, 3, 17])) + "." + digits(r.choice([0, 1, 5, 20]))
        elif k == 3:
            t = sign + digits(r.choice([1, 2, 17])) + r.choice(["", ".", "." + digits(3)]) + r.choice("eE") + \
                r.choice(["", "-", "+"]) + digits(r.choice([0, 1, 2, 3]))
        elif k == 4:
            n = self.many() if self.chance(0.05) else r.choice([0, 1, 2, 3, 8, 15, 16, 17, 40])
            t = r.choice(["", "-", "+"]) + r.choice(["0x", "0X"]) + zeros + hexes(n)
        elif k == 5:
            e = r.choice(["", "0", "1", "2", "a", "10", "ff", "7fff", "80000000", "7fffffff", "100000000", "00000001", "0g",
                          hexes(r.choice([1, 2, 3]))])
            if self.chance(0.2):
                e = "0" * r.choice([1, 2, 5, 6, 7, 8, 9, 15, 16, 20]) + e
            t = r.choice(["", "-"]) + "0x" + zeros + hexes(r.choice([0, 1, 2, 7, 20])) + "x" + r.choice(["", "", "-"]) + e
        elif k == 6:
            t = r.choice(["", "null", "nan", "NaN", "NAN", "Inf", "+Inf", "-Inf", "inf", "infinity", "-Infinity", "true", "false",
                          "0", "-0", "+0", "-", "+", ".", "e", "0x", "-0x", "1e", "--1", "1-", "0b1", "0o7", "1_000", "0_1",
                          " 1", "1 ", "1\n", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                          "-9223372036854775809", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "4.9e-324",
                          "1e-400", "2.4703282292062327e-324", "2.4703282292062328e-324", "0.1", "9007199254740993",
                          "9007199254740993.0", "18446744073709551615", "nul", "nulls", "0xg", "0x1g", "1x2", "x", "0xx", "0xx1",
                          "\u0661", "1\u00a0", "True", "TRUE", "t", "F", "1.0", "yes"])
        elif k == 7:
            t = str(r.choice(DOUBLES) * r.random())
        elif k == 8:
            return self.mutate(self.number_text())
        else:
            return self.textbytes()
        return list(t.encode())

    def string_text(self):
        r = self.r
        if self.chance(0.2):
            return self.textbytes()
        b = base64.b64encode(bytes(self.bytes(r.choice(LENS)))).decode()
        k = r.randrange(5)
        if k <= 1:
            b = b.rstrip("=")
        elif k == 2:
            b = "".join(r.choice("ABCDwxyz0189+/=-_ ") for _ in range(r.randrange(0, 12)))
        elif k == 3:
            b = b.rstrip("=")
            return list(b"base64,") + self.mutate(list(b.encode()))
        p = r.choice(["base64,", "base64,", "base64,", "base64", "Base64,", "base64,,", "", " base64,"])
        return list((p + b).encode())

    # -- encodings, in any width ------------------------------------------
    def head(self, forms, n):
        """a header for n, forms = [(limit, prefix function)]"""
        ok = [f for lim, f in forms if n < lim]
        return (ok[0] if self.chance(0.5) else self.r.choice(ok))(n)

    def e_int(self):
        r, n = self.r, self.integer() if self.chance(0.6) else self.small()
        forms = []
        if 0 <= n < 128:
            forms.append([n])
        if -32 <= n < 0:
            forms.append([256 + n])
        for k, (u, s) in {1: (204, 208), 2: (205, 209), 4: (206, 210), 8: (207, 211)}.items():
            if 0 <= n < 1 << (8 * k):
                forms.append([u] + be(n, k))
            if -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
                forms.append([s] + be(n, k))
        if not self.valid and self.chance(0.03):
            return [207] + be((1 << 63) | r.getrandbits(63), 8)
        return r.choice(forms)

    def e_float(self, nan=True):
        if self.chance(0.5):
            return [203] + self.double(nan)[1]
        r = self.r
        x = r.choice([0.0, -0.0, 1.0, -2.5, 0.1, 1e30, 3.4e38, 1e-45, float("inf"), r.random() * 100,
                      float(r.randrange(-1000, 1000))])
        b = list(struct.pack(">f", x))
        if nan and self.chance(0.08):
            b = r.choice([[0x7f, 0xc0, 0, 0], [0xff, 0x80, 0, 1], [0x7f, 0x80, 0, 1]])
        return [202] + b

    def e_blob(self, kind, data):
        n = len(data)
        if kind == "str":
            h = self.head([(32, lambda n: [160 + n]), (256, lambda n: [217, n]), (65536, lambda n: [218] + be(n, 2)),
                           (1 << 32, lambda n: [219] + be(n, 4))], n)
        else:
            h = self.head([(256, lambda n: [196, n]), (65536, lambda n: [197] + be(n, 2)),
                           (1 << 32, lambda n: [198] + be(n, 4))], n)
        return h + data

    def e_ext(self):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            td = [1] + [r.choice([2, 3])] + (self.mag() or [1])
        elif k == 1:
            td = [2] + self.exp() + [r.choice([2, 3])] + (self.mag() or [1])
        elif k == 2 and not self.valid and self.chance(0.3):
            td = [r.choice([1, 2])] + self.bytes(r.randrange(0, 18))
        else:
            td = self.unk()[1]
        n = len(td) - 1
        forms = []
        if n in (1, 2, 4, 8, 16):
            forms = [[211 + {1: 1, 2: 2, 4: 3, 8: 4, 16: 5}[n]]] * 3
        if n < 256:
            forms.append([199, n])
        forms += [[200] + be(n, 2), [201] + be(n, 4)]
        return r.choice(forms) + td

    def e_atom(self, nan=True):
        r = self.r
        return r.choice([lambda: [192], lambda: [r.choice([194, 195])], self.e_int, self.e_int,
                         lambda: self.e_float(nan), lambda: self.e_blob("str", self.textbytes()),
                         lambda: self.e_blob("bin", self.bytes(r.choice(LENS))), self.e_ext])()

    def e_key(self, mode, depth):
        r = self.r
        if mode == "int":
            n = r.choice([0, 1, 2, 3, 5, 7, 100, 127, 128, 255, 256, 65536, -1, -2, -33, -200, 1 << 40])
            return self.e_int() if self.chance(0.4) else ([n] if 0 <= n < 128 else [211] + be(n, 8))
        if mode == "str":
            return self.e_blob("str", self.key())
        k = r.randrange(8)
        if k == 0 and depth > 0:
            return self.encoding(2, depth - 1)
        if k == 1:
            return self.e_blob("bin", self.key())
        if k == 2:
            # mostly doubles with a short exact text
            return [203] + dword(r.choice([1.5, 0.5, -0.25, 2.0, 100.0, -0.0, 0.1, 1e20, float("inf"), 3.75]))
        if k == 3:
            return r.choice([[192], [194], [195]])
        if k == 4:
            return self.e_ext()
        if k == 5:
            return self.e_int()
        return self.e_blob("str", self.key())

    def e_list_head(self, n):
        return self.head([(16, lambda n: [144 + n]), (65536, lambda n: [220] + be(n, 2)),
                          (1 << 32, lambda n: [221] + be(n, 4))], n)

    def e_map_head(self, n):
        return self.head([(16, lambda n: [128 + n]), (65536, lambda n: [222] + be(n, 2)),
                          (1 << 32, lambda n: [223] + be(n, 4))], n)

    def encoding(self, budget=10, depth=4, nan=True):
        """any valid encoding"""
        if depth == 0 or budget <= 0 or self.chance(0.3):
            return self.e_atom(nan)
        n = self.size(budget)
        each = lambda: (self.e_atom(nan) if self.chance(0.6) else
                        self.encoding((budget - n) // max(1, min(n, 3)), depth - 1, nan))
        if self.chance(0.4):
            out = self.e_list_head(n)
            for _ in range(n):
                out = out + each()
            return out
        out = self.e_map_head(n)
        mode = self.r.choice(["int", "int", "str", "str", "any", "any", "mix"])
        pool = [self.e_key("str" if mode == "mix" else mode, depth - 1) for _ in range(n)]
        if mode == "mix":
            pool = [self.e_key(self.r.choice(["int", "str"]), 0) for _ in range(n)]
        if n > 2 and self.chance(0.3):
            pool = [self.r.choice(pool[:3]) for _ in range(n)]
        for k in pool:
            out = out + k + each()
        return out

    # -- encodings at the edges, all of them -------------------------------
    def forms(self, kind, n):
        """every header that can announce n"""
        table = {"str": [(32, lambda: [160 + n]), (256, lambda: [217, n]), (65536, lambda: [218] + be(n, 2)),
                         (1 << 32, lambda: [219] + be(n, 4))],
                 "bin": [(256, lambda: [196, n]), (65536, lambda: [197] + be(n, 2)), (1 << 32, lambda: [198] + be(n, 4))],
                 "ext": [(256, lambda: [199, n]), (65536, lambda: [200] + be(n, 2)), (1 << 32, lambda: [201] + be(n, 4))],
                 "list": [(16, lambda: [144 + n]), (65536, lambda: [220] + be(n, 2)), (1 << 32, lambda: [221] + be(n, 4))],
                 "map": [(16, lambda: [128 + n]), (65536, lambda: [222] + be(n, 2)), (1 << 32, lambda: [223] + be(n, 4))]}
        out = [f() for lim, f in table[kind] if n < lim]
        if kind == "ext" and n in (1, 2, 4, 8, 16):
            out.append([{1: 212, 2: 213, 4: 214, 8: 215, 16: 216}[n]])
        return out

    def scalars(self):
        """numbers of every width at every edge"""
        out = []
        for h, k in ((204, 1), (205, 2), (206, 4), (207, 8), (208, 1), (209, 2), (210, 4), (211, 8)):
            for rest in (0, 255):
                for at in range(k):
                    for x in (0, 1, 127, 128, 254, 255):
                        b = [rest] * k
                        b[at] = x
                        out.append([h] + b)
            out += [[h] + self.bytes(k) for _ in range(6)]
        for e in range(256):
            for m in (0, 1, 0x400000, 0x7fffff, self.r.getrandbits(23)):
                for sign in (0, 1):
                    out.append([202] + be(sign << 31 | e << 23 | m, 4))
        for e in [0, 1, 2, 1023, 1024, 2045, 2046, 2047] + [self.r.randrange(2048) for _ in range(20)]:
            for m in (0, 1, 1 << 51, (1 << 52) - 1, self.r.getrandbits(52)):
                for sign in (0, 1):
                    out.append([203] + be(sign << 63 | e << 52 | m, 8))
        out += [[a] for a in range(256) if a < 128 or a >= 224]
        for k in range(23):         # subnormal singles with one bit
            out.append([202] + be(1 << k, 4))
        return out

    def extensions(self):
        """every tag, with data that could be taken for something else"""
        out = []
        for t in range(256):
            for d in ([2, 5], [3, 1, 0], [0, 0, 0, 1, 2, 9], [0] * 8, self.bytes(16), [], [7]):
                if t in (1, 2) and (d == [] or d == [7] or len(d) in (8, 16) or (t == 2 and len(d) < 6)):
                    continue
                if t == 1 and d[0] == 0:
                    continue
                out.append(self.r.choice(self.forms("ext", len(d))) + [t] + d)
        return out

    def blobs(self, ns):
        """every header with strings and extensions of these lengths"""
        out = []
        for n in ns:
            for kind in ("str", "bin", "ext"):
                for h in self.forms(kind, n):
                    out.append(h + ([self.r.choice([0, 3, 130, 255])] if kind == "ext" else []) + [65] * (n - 1) + [66] * min(n, 1))
        return out

    def counted(self, ns):
        """every header with containers of these sizes, lists, sparse lists and maps"""
        out = []
        for n in ns:
            for h in self.forms("list", n):
                out.append(h + [self.r.randrange(128) for _ in range(n)])
            for h in self.forms("map", n):
                out.append(h + [x for i in range(n) for x in ([205] + be(i, 2) if i < 65536 else [206] + be(i, 4)) + [i & 127]])
                k = 1 if n < 200 else 2 if n < 40000 else 3     # keys in order
                out.append(h + [x for i in range(n) for x in [160 + k] + be(i + 32, k) + [i & 127]])
        return out

    def mutate(self, b):
        """some small change of a byte string"""
        r = self.r
        b = list(b)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(6)
            if not b or k == 0:
                b.insert(r.randrange(len(b) + 1), r.randrange(256))
            elif k == 1:
                b[r.randrange(len(b))] = r.randrange(256)
            elif k == 2:
                del b[r.randrange(len(b))]
            elif k == 3:
                b = b[:r.randrange(len(b) + 1)]
            elif k == 4:
                b[r.randrange(len(b))] = r.choice([0, 1, 2, 127, 128, 144, 160, 192, 193, 196, 198, 199, 201, 202, 203,
                                                   207, 211, 212, 216, 217, 219, 220, 221, 222, 223, 224, 255])
            else:
                i = r.randrange(len(b))
                b[i] ^= 1 << r.randrange(8)
        return b

    def junk(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40])
        k = r.randrange(3)
        if k == 0:
            return self.bytes(n)
        head = r.choice([128, 129, 143, 144, 145, 159, 160, 191, 193, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205,
                         206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223])
        if k == 1:
            return [head] + self.bytes(n)
        # a header that claims a lot
        return [head] + r.choice([[255] * 4, [0x7f, 255, 255, 255], [0x80, 0, 0, 0], [0, 0x10, 0, 0], [255, 255],
                                  [0, 200], [200]]) + self.bytes(n)

    def pieces(self, n):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return [1]
        if k == 1:
            return [r.randrange(1, 6)]
        if k == 2:
            return [max(1, n)]
        if k == 3:
            return [r.randrange(1, max(2, n)), 1]
        return [r.randrange(1, 12) for _ in range(r.randrange(1, 30))]

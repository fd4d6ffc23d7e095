"""Seeded generators of skeletons, motions, files, layouts and defects."""
import math
import struct

CH = [b"Xposition", b"Yposition", b"Zposition", b"Xrotation", b"Yrotation", b"Zrotation"]

PLAIN = [b"Hips", b"Spine", b"Head", b"LeftArm", b"RightArm", b"Knee", b"a", b"b", b"x1", b"End", b"Site",
         b"JOINT", b"ROOT", b"OFFSET", b"CHANNELS", b"MOTION", b"Xposition", b"HIERARCHY", b"1", b"0.5", b"nan",
         b"Frames", b"Frame"]


# bytes that something might take for the end, or the start, of a name
ENDS = b":{}.#-_0\"\\'/%\x00\x7f\xff"


def edges(upto):
    """Names of every length, with an odd byte at one of the ends."""
    for n in range(1, upto + 1):
        for c in ENDS:
            body = bytes(b"abcdefghij"[i % 10] for i in range(n - 1))
            if n > 1 or c != ENDS[0]:
                yield body + bytes([c])
            if n > 1 and c != ENDS[0]:
                yield bytes([c]) + body


def alike(rng, base):
    """A name which is base, or nearly."""
    k, i = rng.randrange(7), rng.choice([0, len(base) - 1, rng.randrange(len(base))])
    if k < 2:
        return base[:i] + bytes([rng.choice(b"abXY01_")]) + base[i + 1:]
    if k == 2:
        return base[:-1]
    if k == 3:
        return base + bytes([rng.choice(b"abXY01_:")])
    if k == 4:
        return base.swapcase()
    if k == 5:
        return base[1:] + base[:1]
    return base


def name(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice(PLAIN)
    if k < 0.5:
        return rng.choice(PLAIN) + str(rng.randrange(100)).encode()
    if k < 0.6:  # colons inside and at the end, never at the start
        return b":".join(rng.choice([b"ns", b"mixamorig", b"Hips", b"", b"a"]) for _ in range(rng.randint(2, 4))).lstrip(b":") or b"n:"
    if k < 0.7:  # braces, punctuation
        return rng.choice([b"{", b"}", b"{}", b"a{", b"}b", b"#1", b"%", b"%41", b"a%b", b"\"q\"", b"\\n", b"'", b"//", b"a.b-c_d", b"<>", b"$", b"*", b"(x)", b"-1"])
    if k < 0.8:  # length boundaries: inline storage is 24 bytes
        b = bytes(rng.choice(b"abcXYZ019_") for _ in range(rng.choice([1, 7, 8, 15, 16, 22, 23, 24, 25, 26, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300])))
        if rng.random() < 0.4:  # with an odd byte at either end
            b = (b + bytes([rng.choice(ENDS)]))[1:] if rng.random() < 0.6 else bytes([rng.choice(ENDS[1:])]) + b[1:]
        return b
    if k < 0.9:
        return rng.choice(["Hüfte", "右腕", "é", "ß1", "🙂", "Кость", "a\u0301"]).encode()
    while True:
        b = bytes(rng.choice([0, 1, 7, 8, 27, 127, 128, 133, 160, 194, 200, 226, 255, 65, 122, 34, 92]) for _ in range(rng.randint(1, 30)))
        from oracle import EXOTIC
        # not white space anywhere, also not at the end of the name as UTF-8
        if not EXOTIC.search(b):
            return b


def spellings(rng, n):
    """Numbers spelt with about n characters, most of them zeros that do not or do matter.  None lies exactly between two
    single-precision numbers: both are nearest to it then, and the parser takes now the one, now the other."""
    d = rng.choice([b"1", b"7", b"25", b"123", b"16777218"])
    z = b"0" * n
    return [rng.choice([b"", b"-", b"+"]) + x for x in
            (d + b"." + z + b"e3", z + d + b".5e-2", d + z + b"e-%d" % n, b"0." + z + d + b"e%d" % n, d + b"." + z + d, z + d,
             b"." + z + d + b"E+%d" % (n + 2), d + b"e" + b"0" * (n % 60) + b"5", d + b"." + b"3" * n + b"e-4")]


def number(rng, finite=True):
    """A token for a single-precision number."""
    k = rng.random()
    if k < 0.2:
        s = str(rng.randint(-400, 400))
    elif k < 0.5:
        s = "%.*f" % (rng.randint(0, 9), rng.uniform(-400, 400))
    elif k < 0.6:
        s = repr(rng.uniform(-1, 1))
    elif k < 0.7:
        # a random bit pattern, written with enough digits
        while True:
            f = struct.unpack("<f", struct.pack("<I", rng.getrandbits(32)))[0]
            if math.isfinite(f):
                break
        s = "%.*e" % (rng.randint(5, 12), f)
    elif k < 0.8:
        s = rng.choice(["0", "-0", "0.0", "-0.0", "1", "-1", "+1", "+0.5", "1.", ".5", "-.5", "1e0", "1E2", "1e+3",
                        "2.5e-3", "-1e-3", "0e5", "00012", "000.5", "0.000001", "100000000", "123456789",
                        "16777217", "16777216", "33554433", "8388609.5", "0.1", "0.3", "1e-7", "3e-5"])
    elif k < 0.87:
        s = rng.choice(["1e-45", "1.4e-45", "-1e-45", "7e-46", "1.17549435e-38", "1.1754942e-38", "3.4028234e38",
                        "3.4028235e38", "-3.4028235e38", "1e38", "-1e-38", "5.877472e-39", "340282346638528859811704183484516925440",
                        "1.40129846432481707e-45", "2e-45", "9.99999e37"])
    elif k < 0.94:
        # next to the middle between two neighbouring single-precision numbers
        b = rng.getrandbits(31) % 0x7F000000
        f = struct.unpack("<f", struct.pack("<I", b))[0]
        g = struct.unpack("<f", struct.pack("<I", b + 1))[0]
        m = (f + g) / 2
        s = "%.*e" % (rng.randint(6, 17), m)
        if rng.random() < 0.5:
            s = "-" + s
    else:
        s = "%d.%s" % (rng.randint(0, 999), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 25))))
    from oracle import f32_bits, finite as fin
    if finite and not fin(f32_bits(s.encode())):
        return b"1.5"
    return s.encode()


def simple_number(rng):
    return ("%.*f" % (rng.randint(0, 4), rng.uniform(-200, 200))).encode()


def long_time(rng):
    """A frame time in many characters: with zeros in front, many digits, an exponent that makes up for them."""
    n = rng.randint(0, 700000 * 10**9)
    k = rng.choice([0, 1, 5, 12, 20, 30])
    digits = str(n) + "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 0, 3, 9]))) * (rng.random() < 0.5)
    e = len(digits) - len(str(n)) + 9
    way = rng.randrange(4)
    if way == 0:
        s = "0." + "0" * k + digits + "e%d" % (len(digits) + k - e)
    elif way == 1:
        s = digits + "0" * k + "e-%d" % (k + e)
    elif way == 2:
        s = "0" * k + digits[:-1] + "." + digits[-1] + "E-%d" % (e - 1)
    else:
        s = "0" * k + "%d.%09d" % divmod(n, 10**9) + "0" * rng.choice([0, 7, 30])
    return s.encode()


def poor_number(rng):
    """A number of which there are few, so that equal ones meet."""
    return rng.choice([b"0", b"0", b"0", b"1", b"1", b"-0", b"0.5", b"-1"])


def frame_time(rng):
    if rng.random() < 0.12:
        return long_time(rng)
    return rng.choice([b"0", b"0.0", b"0.033333333333", b"0.0333333", b"0.04", b"0.01", b"1", b"1.5", b"0.008333",
                       b"1e-9", b"0.000000001", b"0.5e-9", b"0.0000000005", b"0.0000000015", b"1e-10", b"0.9999999999",
                       b"0.999999999", b"0.9999999995", b"59.999999999", b"604799.999999999", b"604799.5", b"86400.000000001",
                       b"1e3", b"1E-3", b"+0.5", b"-0", b"-0.0", b".5", b"5.", b"123456789", b"1e9", b"18446744073709549568", b"4294967296",
                       b"4294967295.5", b"0.016666666", b"0.0166667", b"0.0166666666666667",
                       ("%.*f" % (rng.randint(1, 12), rng.uniform(0, 2))).encode(),
                       ("%.*f" % (rng.randint(1, 12), rng.uniform(0, 2))).encode(),
                       ("%.9f" % rng.uniform(0, 700000)).encode(),
                       ("%d" % rng.randint(0, 700000)).encode()])


class Joint:
    __slots__ = ("name", "off", "ch", "site", "kids")

    def __init__(self, name, off, ch, site, kids=None):
        self.name, self.off, self.ch, self.site, self.kids = name, off, ch, site, kids or []

    def count(self):
        return sum(1 for _ in self.walk())

    def walk(self):
        st = [self]
        while st:
            j = st.pop()
            yield j
            st.extend(reversed(j.kids))

    def channels(self):
        return sum(len(j.ch) for j in self.walk())


def shape(rng, n, how):
    """Parents of n joints in depth-first order."""
    par, path = [-1], [0]
    for i in range(1, n):
        if how == "chain":
            p = i - 1
        elif how == "star":
            p = 0
        elif how == "comb":  # a spine with a tooth at every vertebra
            p = i - 1 if i % 2 else max(0, i - 2)
        elif how == "deepstar":  # chain then leaves closing upwards
            p = i - 1 if i < n // 2 else path[max(0, len(path) - 2)]
        elif how == "bushy":
            p = rng.choice(path[-3:])
        else:
            p = rng.choice(path)
        while path[-1] != p:
            path.pop()
        path.append(i)
        par.append(p)
    return par


def channels(rng, style):
    if style == "none":
        return []
    if style == "one":
        return [rng.choice(CH)]
    if style == "three":
        return rng.sample(CH, 3)
    if style == "six":
        return rng.sample(CH, 6)
    if style == "many":
        return [rng.choice(CH) for _ in range(rng.choice([rng.randint(7, 15), rng.randint(7, 15), rng.randint(16, 40)]))]
    return [rng.choice(CH) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9]))]


def skeleton(rng, maxj=12, names=name, num=number, chstyle=None, how=None, n=None, sites=None):
    if rng.random() < 0.15:
        num = poor_number
    if rng.random() < 0.1:
        names = lambda g: g.choice([b"a", b"a", b"b"])
    elif names is name and rng.random() < 0.12:
        base = bytes(rng.choice(b"abcXYZ019_") for _ in range(rng.choice([2, 3, 8, 9, 16, 17, 23, 24, 25, 32, 33, 40, 64, 65, 128, 129, 200])))
        names = lambda g: alike(g, base)
    n = n or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, rng.randint(1, maxj), rng.randint(1, maxj)])
    how = how or rng.choice(["chain", "star", "comb", "deepstar", "bushy", "random", "random", "random"])
    par = shape(rng, n, how)
    style = chstyle or rng.choice(["mixed", "mixed", "mixed", "three", "one", "none", "six", "many"])
    sites = sites or rng.choice(["leaves", "leaves", "some", "none", "all"])
    dup = names(rng) if rng.random() < 0.3 else None
    js = []
    haskid = set(par)
    for i in range(n):
        st = style
        if style == "three" and i == 0:
            st = "six"
        leaf = i not in haskid
        site = None
        if sites == "all" or (sites == "leaves" and leaf) or (sites == "some" and rng.random() < (0.6 if leaf else 0.3)):
            site = [num(rng) for _ in range(3)]
        nm = dup if dup and rng.random() < 0.4 else names(rng)
        js.append(Joint(nm, [num(rng) for _ in range(3)], channels(rng, st), site))
    for i in range(1, n):
        js[par[i]].kids.append(js[i])
    return js[0]


KEYWORDS = [b"HIERARCHY", b"ROOT", b"JOINT", b"End", b"{", b"}", b"OFFSET", b"CHANNELS"]
PUNCT = b"#;,.!=-_*/\\\"'()[]<>|&%$@~^`+?0\x00\x7f\xff\xc2"


def near_keyword(rng):
    """A word that resembles a keyword of the hierarchy but is none."""
    while True:
        k = rng.choice(KEYWORDS)
        p = bytes([rng.choice(PUNCT)])
        w = rng.choice([k + p, k + p + b"1", p + k, k + p + k, k[:-1], k + k, k.lower(), k.upper(), k + b"S", k.title(),
                        k[:1], k[1:], k + rng.choice(KEYWORDS), k[:2] + p + k[2:], k.swapcase(), b"\xef\xbb\xbf" + k])
        if w and w not in KEYWORDS:
            return w


def hierarchy(root, rng=None, lax=0.0):
    """Statements (token lists) of the hierarchy.  With lax > 0, some statements are left out, doubled or
    announce another number of channels, in ways a loader has to accept."""
    out = [[b"HIERARCHY"]]

    def r():
        return rng is not None and rng.random() < lax

    stack = [("open", root, True)]
    while stack:
        what, j, top = stack.pop()
        if what == "close":
            out.append([b"}"])
            continue
        out.append([b"ROOT" if top else b"JOINT", j.name])
        out.append([b"{"])
        own = []
        if not r():
            own.append([b"OFFSET"] + list(j.off))
        if r():
            own.append([b"OFFSET", b"7", b"8", b"9"])
            own.append([b"OFFSET"] + list(j.off))
        cnt = str(len(j.ch)).encode()
        if r():
            cnt = rng.choice([b"0", b"1", b"3", b"6", b"99", b"+2", b"18446744073709551615", b"4294967296"])
        if j.ch or not r():
            own.append([b"CHANNELS", cnt] + list(j.ch))
        if r():
            rng.shuffle(own)
            own = own
        out.extend(own)
        if r():
            out.append(rng.choice([[b"COMMENT", b"x"], [b"#"], [b"offset", b"1"], [b"Channels"], [b"//", b"{"], [b"end"], [b"hello", b"}", b"{"],
                                   [near_keyword(rng), b"4", b"5", b"6"], [near_keyword(rng)], [near_keyword(rng), b"Site"], [near_keyword(rng), b"1", b"Xposition"]]))
        if j.site is not None:
            out.append([b"End", b"Site"] + ([b"tail"] if r() else []))
            out.append([b"{"])
            out.append([b"OFFSET"] + list(j.site) + ([b"junk"] if r() else []))
            out.append([b"}"])
        stack.append(("close", j, False))
        for k in reversed(j.kids):
            stack.append(("open", k, False))
    return out


def wander(rng):
    """A hierarchy as strange as the loader lets it be, and the number of its channels.  Now and then it is
    stranger than that."""
    out = [b"HIERARCHY\n", b"ROOT r\n{\n"]
    stack, total, size = [dict(site=False, own=True, listed=False)], 0, rng.randint(1, 30)
    odd = 0.02 if rng.random() < 0.3 else 0
    while stack:
        top = stack[-1]
        size -= 1
        c = rng.choice("}}}}}}}jse") if size < 0 else rng.choice("oocjjsxe}}")
        any_ = rng.random() < odd
        if c == "}":
            out.append(rng.choice([b"}\n", b"}\n", b"} JOINT\n"]))
            stack.pop()
        elif c == "o" and (top["site"] or top["own"] or any_):
            out.append(rng.choice([b"OFFSET 1 2 3\n", b"OFFSET 4 5 6 7 x\n", b"OFFSET:0:0:-0\n"]))
        elif c == "c" and (top["own"] and not top["listed"] or any_):
            k = rng.choice([0, 0, 1, 2, 3, 7])
            said = k if rng.random() < 0.7 else rng.choice([0, 1, 6, 18446744073709551615])
            out.append(b"CHANNELS %d %s\n" % (said, b" ".join(rng.choice(CH) for _ in range(k))))
            top["listed"] = True
            total += k
        elif c == "j" and (not top["site"] or any_):
            top["own"] = False
            out.append(b"JOINT %s\n%s{\n" % (rng.choice([b"a", b"b", b"r", b"End", b"OFFSET", b"{", b"\xff", b"JOINT"]), rng.choice([b"", b"", b"\n", b"CHANNEL\n"])))
            stack.append(dict(site=False, own=True, listed=False))
        elif c == "s" and (top["own"] or any_):
            top["own"] = False
            out.append(rng.choice([b"End Site\n{\n", b"End Site {\n{\n", b"End:Site\n\n{ }\n"]))
            stack.append(dict(site=True, own=False, listed=True))
        elif c == "x" or c == "e":
            out.append(rng.choice([b"\n", b"comment\n", b"offset 1 2 3\n", b"joint z\n", b"MOTION\n", b"Frames: 2\n", near_keyword(rng) + b" 1 2 3\n", near_keyword(rng) + b"\n"]))
    return b"".join(out), total


def strange(rng):
    """A file likely to be accepted although it is not what anyone would write."""
    body, ch = wander(rng)
    f = rng.choice([0, 1, 2, 3])
    v = max(0, ch * f + (rng.choice([1, -1, ch]) if rng.random() < 0.1 else 0))
    odd = rng.random() < 0.15
    rows = b"".join((rng.choice([b"1", b"-2.5", b"nan", b"inf", b"1e30", b"-0"]) if odd else b"%d" % i) + rng.choice([b" ", b" ", b"\n"]) for i in range(v))
    return body + b"MOTION\nFrames: %d\nFrame Time: %s\n" % (f, rng.choice([b"0.1", b"1", b"1e5", b"0.0000000001", b"5e8"])) + rows + b"\n"


def motion(root, rng, nf, ft=None, num=number, rows="frame", n=None, count=None):
    n = root.channels() if n is None else n
    if rng.random() < 0.15:
        num = poor_number
    vals = [num(rng) for _ in range(n * nf)]
    out = [[b"MOTION"], [b"Frames:", str(nf if count is None else count).encode()],
           [b"Frame", b"Time:", ft if ft is not None else frame_time(rng)]]
    out += split_rows(vals, n, rng, rows)
    return out


def split_rows(vals, n, rng, rows):
    if not vals:
        return []
    if n and rng.random() < 0.1:
        # frames like the ones before them
        for i in range(n, len(vals) - n + 1, n):
            if rng.random() < 0.5:
                vals[i:i + n] = vals[i - n:i]
    if rows == "frame" and n:
        return [vals[i:i + n] for i in range(0, len(vals), n)]
    if rows == "each":
        return [[v] for v in vals]
    if rows == "one":
        return [vals]
    out = []
    i = 0
    while i < len(vals):
        k = rng.choice([1, 2, 3, n or 1, (n or 1) + 1, rng.randint(1, 2 * (n or 1) + 1)])
        out.append(vals[i:i + k])
        i += k
    return out


class Layout:
    """How statements are written as bytes."""

    def __init__(self, rng=None, plain=True):
        self.rng, self.plain = rng, plain
        if not plain:
            self.eol = rng.choice([b"\n", b"\n", b"\r\n", "mixed"])
            self.final = rng.random() < 0.6
            self.blank = rng.choice([0, 0, 0.05, 0.3])
            self.tabs = rng.random() < 0.7
            self.pad = rng.choice([0, 0.1, 0.6])
            # a long stretch of blank lines somewhere
            self.gap = rng.choice([60, 101, 129, 150, 257, 300, 1025]) if rng.random() < 0.06 else 0

    def ws(self, lo):
        rng = self.rng
        if not self.tabs:
            return b" " * rng.choice([lo, lo, lo, lo + 1, lo + 3])
        return b"".join(rng.choice([b" ", b"\t", b"\t", b"  "]) for _ in range(rng.choice([lo, lo, lo + 1, lo + 2])))

    def render(self, stmts, header_lines=False):
        if self.plain:
            return b"".join(b" ".join(st) + b"\n" for st in stmts)
        rng = self.rng
        out = []
        gap = -1
        if self.gap and stmts:
            special = [i for i, st in enumerate(stmts) if st and st[0] in (b"MOTION", b"Frames:", b"Frame", b"HIERARCHY", b"{", b"OFFSET")]
            gap = rng.choice(special + [rng.randrange(len(stmts))])
        for i, st in enumerate(stmts):
            if i == gap:
                out += [rng.choice([b"", b"", b" "])] * self.gap
            while rng.random() < self.blank:
                out.append(rng.choice([b"", b" ", b"\t", b"  \t "]))
            line = b""
            if rng.random() < 0.5:
                line += self.ws(0)
            for j, tok in enumerate(st):
                if j:
                    line += self.ws(1) if rng.random() < 0.5 + self.pad else b" "
                line += tok
            if rng.random() < self.pad:
                line += self.ws(1)
            out.append(line)
        while rng.random() < self.blank:
            out.append(b"")
        data = b""
        parts = []
        for i, line in enumerate(out):
            e = rng.choice([b"\n", b"\r\n"]) if self.eol == "mixed" else self.eol
            if i == len(out) - 1 and not self.final:
                e = b""
            parts.append(line + e)
        return data.join(parts)


BADNUM = [b"x", b"--1", b"1.2.3", b"1,5", b"e5", b".", b"+", b"-", b"1e", b"1e+", b"0x10", b"1_000", b"1f", b"{", b"Xposition",
          b"1-2", b"12a", b"\xff", b"1\x00", b"\xc3\xa9", b"1d3", b"#", b"1/2", b"one", b"1e5.5", b"5%", b"(1)"]
BADCOUNT = [b"x", b"-1", b"1.5", b"1e2", b"18446744073709551616", b"2x", b"3,", b"0x3", b"three", b"-", b"+", b"-0x", b"\xff", b"99999999999999999999999", b"1.0"]
BADTIME = [b"x", b"-1", b"-0.04", b"--1", b"1e400", b"18446744073709551616", b"1e30", b"0.04s", b"1,5", b"-1e-300", b"\xfe", b".", b"1e"]
BADCH = [b"Xrot", b"xposition", b"XPosition", b"Wposition", b"Xpositionn", b"Xpositio", b"6", b"XrotationX", b"rotation", b"\xffposition", b"X", b"Zrotatio\xc3", b"Xscale", b"zrotation", b"Xposition,"]
STRAY = [[b"HIERARCHY"], [b"ROOT", b"r2"], [b"ROOT"], [b"JOINT", b"j"], [b"JOINT"], [b"{"], [b"}"], [b"End", b"Site"], [b"End"], [b"End", b"site"],
         [b"OFFSET", b"1", b"2", b"3"], [b"OFFSET"], [b"CHANNELS", b"1", b"Xposition"], [b"CHANNELS", b"0"], [b"CHANNELS"],
         [b"MOTION"], [b"Frames:", b"1"], [b"Frame", b"Time:", b"0.1"], [b"comment"], [b"1", b"2"], [b"motion"], [b"MOTION", b"x"], [b"Frames:"], [b"x"]]


def spoil(rng, st, j):
    kw = st[0]
    if kw == b"OFFSET":
        st[j] = rng.choice(BADNUM)
    elif kw == b"CHANNELS":
        st[j] = rng.choice(BADCOUNT if j == 1 else BADCH)
    elif kw == b"Frames:":
        st[j] = rng.choice(BADCOUNT)
    elif kw == b"Frame":
        st[j] = rng.choice(BADTIME) if j == 2 else rng.choice([b"Time", b"time:", b"Tim:", b"Time::", b"Rate:"])
    elif kw in (b"ROOT", b"JOINT", b"End"):
        st[j] = rng.choice([b"", b"site", b"SITE", b"Site2", b":x", b":"])
        if not st[j]:
            del st[j]
    else:
        st[j] = rng.choice(BADNUM)


def defect(stmts, rng):
    """One change to a list of statements (which need not make it malformed)."""
    s = [list(x) for x in stmts]
    if not s:
        return s
    k = rng.randrange(14)
    i = rng.randrange(len(s))
    # the motion header and the hierarchy's keyword lines are as likely as everything else together
    if rng.random() < 0.3:
        special = [x for x in range(len(s)) if s[x] and s[x][0] in (b"MOTION", b"Frames:", b"Frame", b"HIERARCHY", b"ROOT")]
        if special:
            i = rng.choice(special)
    st = s[i]
    if k == 0:
        del s[i]
    elif k == 1:
        s.insert(i, list(st))
    elif k == 2 and i + 1 < len(s):
        s[i], s[i + 1] = s[i + 1], s[i]
    elif k == 3:
        s.insert(i, list(rng.choice(STRAY)) if rng.random() < 0.6 else [near_keyword(rng)] + list(rng.choice(STRAY + [[]])))
    elif k == 4:
        s = s[:i]
    elif k in (5, 6) and len(st) > 1:
        # one word of a statement, or several
        for j in sorted(rng.sample(range(1, len(st)), min(len(st) - 1, rng.choice([1, 1, 1, 2, 3]))), reverse=True):
            spoil(rng, st, j)
    elif k == 7 and len(st) > 1:
        del st[rng.randrange(1, len(st)):]
        if len(st) > 1 and rng.random() < 0.4:
            spoil(rng, st, rng.randrange(1, len(st)))
    elif k == 8 and st:
        st[0] = rng.choice([st[0].lower(), st[0].upper(), st[0][:-1], st[0] + b"S", st[0] + b":", b"x" + st[0], b":" + st[0], st[0][1:]])
        if not st[0]:
            del s[i]
    elif k == 9:
        st.append(rng.choice([b"extra", b"{", b"}", b"1", b"Xposition", b"x"]))
    elif k == 10 and len(st) > 2:
        a, b = rng.sample(range(1, len(st)), 2)
        st[a], st[b] = st[b], st[a]
    elif k == 11:
        # a value in the motion part
        rows = [x for x in range(len(s)) if s[x] and s[x][0][:1] in b"+-.0123456789"]
        if rows:
            r = s[rng.choice(rows)]
            r[rng.randrange(len(r))] = rng.choice(BADNUM)
        else:
            s.append([rng.choice(BADNUM)])
    elif k == 12:
        # one value too many or too few
        rows = [x for x in range(len(s)) if s[x] and s[x][0][:1] in b"+-.0123456789"]
        if rows and rng.random() < 0.5:
            r = rng.choice(rows)
            s[r].pop()
            if not s[r]:
                del s[r]
        else:
            s.append([b"1"] * rng.choice([1, 1, 2, 7]))
    elif k == 13:
        j = rng.randrange(len(s))
        s[i], s[j] = s[j], s[i]
    return [x for x in s if x]


def neighbours(text, put):
    """Every text one edit away: a byte removed, doubled, in the other case, exchanged with the next one, replaced by or
    preceded by a byte of put."""
    out = {}
    for i in range(len(text) + 1):
        a, c, z = text[:i], text[i:i + 1], text[i + 1:]
        more = [a + bytes([p]) + c + z for p in put]
        if c:
            more += [a + z, a + c + c + z, a + c.swapcase() + z, a + z[:1] + c + z[1:]] + [a + bytes([p]) + z for p in put]
        for t in more:
            out[t] = None
    out.pop(text, None)
    return list(out)


WORDS = KEYWORDS + CH + [b"Site", b"End Site", b"MOTION", b"Frames:", b"Frames: 3", b"Frame", b"Frame Time:", b"Frame Time: 2", b"x", b"1", b"-0.5", b"1e39",
                         b"OFFSET 7 8 9", b"OFFSET x", b"CHANNELS 1 Zrotation", b"CHANNELS", b"JOINT j", b"ROOT r", b"{}", b"# x", b":", b": :"]


def line_neighbours(text, words):
    """Every text one line away: a line removed, repeated elsewhere, exchanged with another, joined with the next one, or
    with a word of words behind it or before it."""
    ls = text.split(b"\n")[:-1]
    out = {}
    for i, l in enumerate(ls):
        a, z = ls[:i], ls[i + 1:]
        out[b"\n".join(a + z) + b"\n"] = None
        out[b"\n".join(a + [l + b" " + b"".join(z[:1])] + z[1:]) + b"\n"] = None
        for j in range(len(ls) + 1):
            out[b"\n".join(ls[:j] + [l] + ls[j:]) + b"\n"] = None
        for j in range(i + 1, len(ls)):
            x = list(ls)
            x[i], x[j] = x[j], x[i]
            out[b"\n".join(x) + b"\n"] = None
        for w in words:
            for m in (l + b" " + w, w + b" " + l, l + b"\n" + w):
                out[b"\n".join(a + [m] + z) + b"\n"] = None
    out.pop(text, None)
    return list(out)


def mutate_bytes(data, rng):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        if not b:
            break
        k = rng.randrange(7)
        i = rng.randrange(len(b))
        if k == 0:
            b[i] = rng.randrange(256)
        elif k == 1:
            del b[i]
        elif k == 2:
            b.insert(i, rng.choice(b" \t\r\n:{}0-.eE\x00\xff\xc2\xa0"))
        elif k == 3:
            j = min(len(b), i + rng.randint(1, 20))
            del b[i:j]
        elif k == 4:
            j = min(len(b), i + rng.randint(1, 30))
            b[i:i] = b[i:j]
        elif k == 5:
            del b[i:]
        else:
            b[i:i] = rng.choice([b"\n}\n", b"\n{\n", b"JOINT", b"End Site", b"\nEnd Site\n{\nOFFSET 1 2 3\n}\n", b"OFFSET", b"CHANNELS 3",
                                 b"MOTION", b"\nMOTION\n", b"Frames: ", b"Frame Time:", b"HIERARCHY\n", b"ROOT r\n", b"\n\n", b"\r", b"1e39", b"nan", b"inf", b"99999999999", b":", b"\nJOINT q\n{\n}\n"])
    return bytes(b)


def chunks(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return [1]
    if k == 1:
        return [rng.randint(1, 7)]
    if k == 2:
        return [rng.randint(1, 40) for _ in range(6)]
    if k == 3:
        return [max(1, n - 1), 1]
    return [rng.choice([1, 2, 3, 16, 64, 512, 4096]) for _ in range(4)]

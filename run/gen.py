"""Generators: seeded scripts of calls for every property. Expected outcomes are none of their business."""
import hashlib, hmac, itertools, json, os, random, re, struct, zlib, unicodedata
from lib import ROOT, Script

H = 0x80000000
BTC, ETH, ADA = "80000000", "8000003c", "80000717"
NETS = [BTC, ETH, ADA]
P44, P49, P84 = "8000002c", "80000031", "80000054"
LANGS = ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"]
SIZES = [12, 16, 20, 24, 28, 32]
SIZES_BITS = [8 * n for n in SIZES]
DICT = {l: [bytes.fromhex(w).decode() for w in json.load(open(os.path.join(ROOT, "spec/wordlists", l + ".json")))] for l in LANGS}

COMMON = ["TLC and the Java overrides of spec/Prim.tla (hashes, curve arithmetic, AEAD, JSON) are right; PrimTest.tla checks them against published vectors",
          "the Rust driver in harness/ records arguments and outcomes faithfully"]
ASSUMPTIONS = {}
PROFILES = {"C20": ["debug", "release"], "C17": ["debug"], }


def u(n):
    return "%08x" % (n & 0xFFFFFFFF)


def tx(s):
    return s.encode("utf-8").hex()


def phrase(lang, ent):
    bits = "".join(f"{b:08b}" for b in ent) + "".join(f"{b:08b}" for b in hashlib.sha256(ent).digest())
    n = len(ent) * 8 // 32 * 3
    return " ".join(DICT[lang][int(bits[11 * i: 11 * i + 11], 2)] for i in range(n))


def accepted(lang, words):
    """is the last word's checksum the right one"""
    bits = "".join(f"{WHERE[lang][w]:011b}" for w in words)
    n = len(bits) * 32 // 33
    return "".join(f"{b:08b}" for b in hashlib.sha256(int(bits[:n], 2).to_bytes(n // 8, "big")).digest()).startswith(bits[n:])


WHERE = {l: {w: i for i, w in enumerate(DICT[l])} for l in LANGS}
SHARED = [(a, b, sorted(set(DICT[a]) & set(DICT[b]))) for i, a in enumerate(LANGS) for b in LANGS[i + 1:] if len(set(DICT[a]) & set(DICT[b])) >= 8]


def shared_phrases(g, n):
    """phrases of n words that two languages have: of the first only, of the second only, of both; [(language, other, phrase, of the other too)]"""
    out = []
    for a, b, ws in SHARED:
        want = {(True, False), (False, True), (True, True)}
        for _ in range(4000):
            if not want:
                break
            w = [g.pick(ws) for _ in range(n)]
            v = (accepted(a, w), accepted(b, w))
            if v in want:
                want.discard(v)
                out += [(l, o, " ".join(w), v[0] and v[1]) for l, o, x in ((a, b, v[0]), (b, a, v[1])) if x]
    return out


class G:
    def __init__(self, prop, seed, thorough):
        self.r = random.Random(f"{prop}/{seed}/{thorough}")
        self.t = thorough
        self.n = 0

    def b(self, n):
        return self.r.randbytes(n).hex()

    def pick(self, xs):
        return self.r.choice(list(xs))

    def new(self, p="x"):
        self.n += 1
        return f"{p}{self.n}"

    def size(self, quick, thorough):
        return thorough if self.t else quick

    # -- material
    def seed(self):
        k = self.r.random()
        if k < 0.1:
            return self.pick(["00", "ff", "01", "80"]) * 64
        return self.b(64)

    def pw(self):
        return self.pick(PWS) if self.r.random() < 0.6 else tx("".join(self.pick("abcXYZ019 !é\u00df語\U0001F511") for _ in range(self.r.randrange(0, 40))))

    def two_pws(self):
        a = self.pw()
        while True:
            b = self.pw() if self.r.random() < 0.4 else self.pick(near_pws(a))
            if b.rstrip("0") != a.rstrip("0"):
                return a, b

    def lang(self):
        return self.pick(LANGS)

    def ent(self, n=None):
        n = n or self.pick(SIZES)
        k = self.r.random()
        if k < 0.15:
            return bytes([self.pick([0, 255, 128, 127, 1])]) * n
        return self.r.randbytes(n)

    def msg(self):
        k = self.r.random()
        if k < 0.6:
            n = self.pick([0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 200, 271, 272, 273, 408])
        else:
            n = self.r.randrange(0, 600)
        return self.b(n)

    def idx(self):
        return self.pick([0, 1, 2, 9, 10, 19, 20, 99, 100, 127, 128, 255, 256, 257, 1000, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFE, 0x7FFFFFFF,
                          self.r.randrange(0, 50), self.r.randrange(0, H), self.r.randrange(0, 70000)])

    def path(self, net, purpose=None):
        p = purpose or (self.pick([P44, P49, P84, P44, u(self.r.getrandbits(32)), "00000000"]) if net == BTC else P44)
        return [p, net, u(H + self.idx()), u(self.r.randrange(2)), u(self.idx())]


PWS = ["", "61", "6162", "6261", "00", "6100", "610061", "20", tx("пароль"), tx("e\u0301"), tx("\u00e9"), tx("correct horse battery staple"),
       "61" * 127, "61" * 128, "61" * 129, "61" * 130, "7a" * 256, tx("ß" * 64), tx("ß" * 65), "61" * 1000, tx("\U0001F511" * 5), "7f", "0a", "41", tx("Stra\u00dfe"), tx("\u200babc\u200d"), tx("Caf\u00e9 \u212b \ufb01"), tx("\u0130I\u0131i")]


def near_pws(p):
    """passwords somebody might take for p"""
    t = bytes.fromhex(p).decode()
    c = {t + x for x in " \n\r\t\0a1\u200b\u200d\ufeff\u0301\u00a0\U0001F511"} | {x + t for x in " \nA\ufeff\u200e\0"}
    c |= {t.upper(), t.lower(), t.swapcase(), t.casefold(), t.title(), t.strip(), t[:-1], t[1:], t + t, t[::-1], t.replace(" ", ""), t.replace("\0", "")}
    c |= {unicodedata.normalize(f, t) for f in ("NFC", "NFD", "NFKC", "NFKD")}
    c |= {t.encode("ascii", "replace").decode(), t.encode("ascii", "ignore").decode(), t.encode("latin-1", "replace").decode("latin-1")}
    c |= {"".join("\ufffd" if ord(x) > 0xffff else x for x in t), t.replace("\U0001F511", "\U0001F512"), t.replace("语", "語"), "".join(x for x in t if x.isalnum())}
    for n in (8, 16, 20, 32, 63, 64, 72, 127, 128, 129, 255, 256):
        if len(t) > n:
            c |= {t[:n], t[:n] + "#" * (len(t) - n)}
    return [tx(x) for x in sorted(c) if x.rstrip("\0") != t.rstrip("\0")]


# what one writer's text becomes at another's: line ends, blanks, punctuation, widths, ligatures, accents, scripts that look alike, escapes, ...
RESPELT = [("\r\n", "\n"), ("\r\n", "\r"), ("\n", "\r\n"), ("\n", "\\n"), ("\n", " "), ("\t", " "), ("\t", "    "), ("\u00a0", " "), ("\u3000", " "), ("\u2003", " "), ("\u202f", "\u00a0"), ("  ", " "), (" ", "_"), (" ", "+"), (" ", "%20"),
           ("\u2019", "'"), ("\u2018", "'"), ("'", "\u2019"), ("\u201c", '"'), ('"', "\u201d"), ("\u00ab", '"'), ("\u2013", "-"), ("\u2014", "--"), ("\u2212", "-"), ("\u2010", "-"), ("-", "\u2011"), ("\u2026", "..."), ("\u00d7", "x"), ("\u2044", "/"), ("\\", "/"),
           ("\\\\", "\\"), ("&", "&amp;"), ("<", "&lt;"), ("%41", "A"), ("\\u0041", "A"), ("$$", "$"), ("`", "'"), ("\u00b4", "'"),
           ("\uff21", "A"), ("\uff11", "1"), ("\uff0d", "-"), ("\ufb01", "fi"), ("\u0132", "IJ"), ("\u00e6", "ae"), ("\u0153", "oe"), ("\u00df", "ss"), ("\u1e9e", "\u00df"), ("\u1e9e", "SS"), ("\u0130", "i"), ("\u0130", "I"), ("\u0131", "i"), ("\u017f", "s"), ("\u212a", "K"), ("\u212b", "\u00c5"), ("\u2126", "\u03a9"), ("\u00b5", "\u03bc"),
           ("\u00e9", "e"), ("\u00e9", "\u00c9"), ("\u00e9", "e\u0301"), ("e\u0301", "e"), ("\u00e9", "\u00c3\u00a9"), ("\u00fc", "ue"), ("\u00f8", "o"), ("\u0111", "d"), ("\u00e7", "c"), ("\u0451", "\u0435"), ("\u0439", "\u0438"), ("\u0439", "\u0438\u0306"),
           ("\u0430", "a"), ("\u043e", "o"), ("\u0440", "p"), ("\u0441", "c"), ("\u03bf", "o"), ("\u0391", "A"), ("\u0421", "\u0441"), ("\u03a3", "\u03c2"), ("\u03c3", "\u03c2"), ("0", "O"), ("1", "l"), ("I", "l"), ("z", "y"), ("q", "a"),
           ("\u0663", "3"), ("\u06f3", "\u0663"), ("\u00b2", "2"), ("\u00bd", "1/2"), ("\u2460", "1"), ("\u2163", "IV"), ("\u2116", "No"), ("\u20ac", "EUR"), ("\u00a3", "\u20a4"),
           ("\u304b", "\u30ab"), ("\uff76", "\u30ab"), ("\u304c", "\u304b"), ("\u304c", "\u304b\u3099"), ("\ud55c", "\u1112\u1161\u11ab"), ("\u6f22", "\u6c49"), ("\u4e00", "\u30fc"), ("\u5203", "\u5203\U000e0100"),
           ("\u200b", ""), ("\u200c", ""), ("\u200d", ""), ("\u00ad", ""), ("\ufeff", ""), ("\ufe0f", ""), ("\u200e", ""), ("\u2060", ""), ("\u0640", ""), ("\u064e", ""), ("\u05b7", ""), ("\U0001f3fd", ""), ("\U0001f511", "?"), ("\U0001f511", "\ufffd"), ("\U0001f511", "\ufffd\ufffd"), ("\U0001f600", ":-D"),
           ("\x7f", ""), ("\x08", ""), ("\x1b", ""), ("\x1a", ""), ("\0", ""), ("\0", " "), ("\x0b", ""), ("\x0c", "\n"), ("\x85", "\n"), ("\u2028", "\n"), ("\ufffd", "?"), ("\ue000", ""), ("\U0010ffff", "")]


def respelt(g):
    """[(password, what it might be taken for)]: a few passwords that hold all of RESPELT"""
    out, left = [], list(RESPELT)
    g.r.shuffle(left)
    while left:
        now, left = left[:12], left[12:]
        w = "".join(a + g.pick("bdfghjkm") for a, _ in now)
        out.append((w, sorted({w.replace(a, b) for a, b in now} | {w.replace(a, b, 1) for a, b in now} - {w})))
    return out


def split(name, ops, n, **kw):
    """stateless calls, spread over n scripts"""
    return [Script(f"{name}-{i}", ops[i::n], **kw) for i in range(n) if ops[i::n]]


ALL = {"op": "mgr.new", "id": "m", "how": "all"}
PATH0 = {BTC: [P44, BTC, u(H), u(0), u(0)], ETH: [P44, ETH, u(H), u(0), u(0)], ADA: [P44, ADA, u(H), u(0), u(0)]}


def keychain(seed, kc="k", mgr=True, how=None):
    d = "d-" + kc
    return ([how or ALL] if mgr else []) + [
        {"op": "mgr.seed", "id": "m", "seed": seed, "pw": "70", "out": d},
        {"op": "mgr.open", "id": "m", "in": d, "pw": "70", "kc": kc}]


# ---------------------------------------------------------------------------------------- C01
def c01(t, s):
    g = G("C01", s, t)
    out = []
    sizes = [0, 1, 2, 15, 16, 17, 31, 32, 33, 59, 60, 61, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4095, 4096]
    ops = []
    for n in sizes + [65537, 131072] if not t else sizes * 2 + [65535, 65536, 65537, 131072, 200000, 1 << 20]:
        a, w = g.two_pws()
        x = g.new()
        ops.append({"op": "seal", "pw": a, "pt": g.b(n), "custom": g.r.random() < 0.5, "start": g.r.randrange(256), "as": x})
        ops.append({"op": "open", "pw": a, "b": {"ref": x}})
        ops.append({"op": "open", "pw": w, "b": {"ref": x}})
        if n > 1000:
            ops.append({"op": "open", "pw": a, "b": {"ref": x, "flip": 480 + g.r.randrange(8 * n)}})
    # payloads that end, begin or look like something
    for n in [1, 7, 16, 40, 64, 80, 150, 300] if not t else [1, 2, 7, 15, 16, 17, 31, 40, 64, 65, 80, 128, 150, 300, 1100, 5000]:
        for pt in ["00" * n, "ff" * n, g.b(n) + "00", g.b(n) + "00" * 9, "00" * 3 + g.b(n), g.b(n) + "0d0a", g.b(n) + "20", g.b(n) + "80" + "00" * 7,
                   g.b(n) + "04" * 4, "efbbbf" + g.b(n), g.b(n // 2) * 2, "7b" + g.b(n) + "7d"]:
            if not t and g.r.random() < 0.6:
                continue
            x, a = g.new(), g.pw()
            ops += [{"op": "seal", "pw": a, "pt": pt, "custom": g.r.random() < 0.3, "start": g.r.randrange(256), "as": x},
                    {"op": "open", "pw": a, "b": {"ref": x}}]
    for pw in PWS:
        x = g.new()
        ops.append({"op": "seal", "pw": pw, "pt": g.b(5), "custom": False, "start": 0, "as": x})
        ops.append({"op": "open", "pw": pw, "b": {"ref": x}})
        ops.append({"op": "open", "pw": pw + "00", "b": {"ref": x}})
        near = near_pws(pw)
        for q in near if t else g.r.sample(near, 6):
            ops.append({"op": "open", "pw": q, "b": {"ref": x}})
    for w, others in respelt(g):
        x = g.new()
        ops.append({"op": "seal", "pw": tx(w), "pt": g.b(g.r.randrange(40)), "custom": False, "start": 0, "as": x})
        ops += [{"op": "open", "pw": tx(q), "b": {"ref": x}} for q in [w] + others]
    # passwords that are parts of the data itself
    for st in [0x20, 0x30, 0x41, 0x5e] if not t else range(0x60):
        x, parts = g.new(), [tx("".join(map(chr, range(st + i, st + i + n)))) for i, n in ((0, 32), (32, 12), (0, 12), (12, 32), (0, 44), (0, 16), (1, 31)) if st + i + n <= 128]
        for pw in ["", parts[0]] + parts[1:2]:
            ops.append({"op": "seal", "pw": pw, "pt": pw, "custom": True, "start": st, "as": x})
            ops += [{"op": "open", "pw": q, "b": {"ref": x}} for q in ["", pw] + parts]
    # groups of calls on one sealing stay together
    out += grouped("seal", ops, 3 if not t else 7)
    for k, n in enumerate([0, 1, 37] if not t else [0, 1, 16, 37, 200]):
        pw = g.pw()
        ops = [{"op": "seal", "pw": pw, "pt": g.b(n), "custom": False, "start": 0, "as": "x"}]
        tot = 60 + n
        if t and n <= 37:
            flips = list(range(8 * tot))
        else:
            flips = [8 * i + g.r.randrange(8) for i in range(tot)]
        ops += [{"op": "open", "pw": pw, "b": {"ref": "x", "flip": f}} for f in flips]
        for c in sorted(set(range(0, min(tot, 70), 1 if t else 5)) | {1, tot, n, n + 1, 16}):
            ops.append({"op": "open", "pw": pw, "b": {"ref": "x", "cut": c}})
            ops.append({"op": "open", "pw": pw, "b": {"ref": "x", "cutl": c}})
        for a in ["00", "ff", "00" * 16, g.b(60), "0a", "0d0a", "20", "efbbbf", "fffe", "feff", "1a", "04"] if k == 2 or t else ["00", "ff", "00" * 16, g.b(60)]:
            ops.append({"op": "open", "pw": pw, "b": {"ref": "x", "app": a}})
            ops.append({"op": "open", "pw": pw, "b": {"ref": "x", "pre": a}})
        # parts of it replaced by what is often left there
        for at, m in [(0, 32), (32, 12), (44, 16), (60, n), (0, 60), (0, 44), (44, 16 + n)]:
            for v in ["00", "ff", "20", "30"] if k == 2 or t else ["00"]:
                ops.append({"op": "open", "pw": pw, "b": {"ref": "x", "put": [at, v * m]}})
        ops.append({"op": "open", "pw": pw, "b": {"ref": "x", "app": "00", "cutl": 1}})
        for i, ch in enumerate(chunks(ops[1:], 90)):
            out.append(Script(f"tamper-{k}-{i}", [ops[0]] + ch))
    ops = [{"op": "open", "pw": g.pw(), "b": b"\x00".hex() * n} for n in list(range(0, 64, 1 if t else 3)) + [59, 60, 61]]
    # what other schemes write
    for f in fixtures("foreign"):
        ops.append({"op": "open", "pw": f["pw"], "b": f["b"]})
    # two sealings mixed: parts of one under the other
    ops += [{"op": "seal", "pw": "61", "pt": "00" * 20, "custom": False, "start": 0, "as": "y"},
            {"op": "seal", "pw": "61", "pt": "00" * 20, "custom": False, "start": 0, "as": "z"}]
    out += split("short", ops, 2)
    # through the manager
    ops = [ALL]
    for j in range(g.size(2, 6)):
        a, w = g.two_pws()
        ops += [{"op": "mgr.seed", "id": "m", "seed": g.seed(), "pw": a, "out": "d", "as": "d"},
                {"op": "mgr.open", "id": "m", "in": "d", "pw": a, "kc": "k"},
                {"op": "mgr.open", "id": "m", "in": "d", "pw": w, "kc": "k2"},
                {"op": "mgr.keys", "id": "m", "in": "d", "pw": w},
                {"op": "mgr.retr", "id": "m", "in": "d", "pw": w},
                {"op": "mgr.chpw", "id": "m", "in": "d", "pw": w, "npw": a, "out": "e"},
                {"op": "mgr.add", "id": "m", "in": "d", "pw": w, "net": BTC, "out": "e"}]
        for tr in [{"flip": g.r.randrange(480)}, {"flip": 480 + g.r.randrange(900)}, {"cut": 1}, {"app": "00"}, {"len": 59}, {"len": 60}, {"len": 0}, {"len": 1}]:
            ops += [dict({"op": "put", "out": "e"}, b=dict({"ref": "d"}, **tr))]
            for o in ["open", "keys", "retr", "chpw", "add"]:
                e = {"op": "mgr." + o, "id": "m", "in": "e", "pw": a}
                e.update({"open": {"kc": "k3"}, "chpw": {"npw": w, "out": "f"}, "add": {"net": BTC, "out": "f"}}.get(o, {}))
                ops.append(e)
    for f in g.r.sample(fixtures("foreign"), g.size(20, 60)):
        ops += [{"op": "put", "out": "e", "b": f["b"]}, {"op": "mgr.open", "id": "m", "in": "e", "pw": f["pw"], "kc": g.new("k")}]
    out.append(Script("manager", ops))
    return out


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def grouped(name, ops, n, key="as", **kw):
    """scripts that keep a call and the ones that refer to it together"""
    groups, cur = [], []
    for o in ops:
        if key in o and cur:
            groups.append(cur)
            cur = []
        cur.append(o)
    groups.append(cur)
    return [Script(f"{name}-{i}", sum(groups[i::n], []), **kw) for i in range(n) if groups[i::n]]


# ---------------------------------------------------------------------------------------- C02
MIXES = [[BTC], [ETH], [ADA], [BTC, ETH], [BTC, ADA], [ETH, ADA], [BTC, ETH, ADA]]


def c02(t, s):
    g = G("C02", s, t)
    ops = [ALL, {"op": "mgr.new", "id": "a", "how": "nets", "nets": [ADA]},
           {"op": "mgr.new", "id": "b", "how": "nets", "nets": [BTC, ADA]},
           {"op": "mgr.new", "id": "w", "how": "facts", "f": [{"net": "0000abcd", "min": 256, "max": 257, "kind": "echo"}]},
           # what no built-in network asks for: 24 and 28 bytes
           {"op": "mgr.new", "id": "x", "how": "facts", "f": [{"net": "0000abcd", "min": 192, "max": 224, "kind": "echo"}]},
           {"op": "mgr.new", "id": "y", "how": "facts", "f": [{"net": "0000abcd", "min": 224, "max": 256, "kind": "echo"}]},
           {"op": "mgr.new", "id": "v", "how": "facts", "f": [{"net": "0000abcd", "min": 160, "max": 512, "kind": "echo"}, {"net": ADA, "min": 96, "max": 256, "kind": "std"}]}]
    seed = g.b(64)
    ops.append({"op": "mgr.seed", "id": "b", "seed": seed, "pw": "61", "out": "d0"})
    for i in range(g.size(70, 300)):
        k = i % 6
        if k == 0:
            ops.append({"op": "mgr.seed", "id": "m", "seed": seed, "pw": "61", "out": "d"})
        elif k == 1:
            ops.append({"op": "mgr.chpw", "id": "m", "in": "d0", "pw": "61", "npw": "61", "out": "e"})
        elif k == 2:
            ops.append({"op": "mgr.add", "id": "m", "in": "d0", "pw": "61", "net": ETH, "out": "e"})
        elif k == 3:
            ops.append({"op": "mgr.mnem", "id": "m", "t": tx(phrase("English", bytes(16))), "lang": "English", "pw": "61", "out": "e"})
        else:
            ops.append({"op": "seal", "pw": "61", "pt": "", "custom": False, "start": 0})
        if i % 10 == 5:
            ops.append(dict(ALL, id=f"m{i}"))
            ops.append({"op": "mgr.gen", "id": f"m{i}", "lang": "English"})
    gens = []
    for i in range(g.size(60, 400)):
        gens.append({"op": "mgr.gen", "id": g.pick("mabwvxy"), "lang": LANGS[i % 8]})
    # the system may give anything: bytes alike, zero, all ones, at either end
    for h in ["00", "ff", "0000", "ffff", "5a5a", "000000", "ffffff", "0a", "20", "80", "7f"]:
        for k in range(g.size(2, 6)):
            f = {"feed": h if k != 1 else "", "feedt": h if k else ""}
            gens.append(dict(f, op="mgr.gen", id="mabwxy"[(len(gens) + k) % 6], lang=g.lang()))
            gens.append(dict(f, op="mgr.seed", id="m", seed=seed, pw="61", out="d"))
            if k == 0:
                gens.append(dict(f, op="seal", pw="61", pt="", custom=False, start=0))
                gens.append(dict(f, op="mgr.chpw", id="m", **{"in": "d0"}, pw="61", npw="61", out="e"))
    par = {"op": "par", "threads": [[{"op": "mgr.gen", "id": "m", "lang": "English"}] * 4 +
                                   [{"op": "mgr.seed", "id": "m", "seed": seed, "pw": "61", "out": f"p{i}"}] * 3 for i in range(4)]}
    # data of any size
    ops.append({"op": "mgr.new", "id": "z", "how": "facts", "f": [{"net": u(0x100 + i), "min": 128, "max": 256, "kind": "echo"} for i in range(60)]})
    for i in range(g.size(3, 12)):
        gens += [{"op": "mgr.seed", "id": "z", "seed": seed, "pw": "61", "out": "dz"}, {"op": "mgr.chpw", "id": "z", "in": "dz", "pw": "61", "npw": "61", "out": "e"},
                 {"op": "mgr.add", "id": "m", "in": "dz", "pw": "61", "net": ETH, "out": "e"}]
    for n in [100, 1000, 2047, 2048, 2049, 4096, 5000, 20000]:
        gens += [{"op": "seal", "pw": "61", "pt": "00" * n, "custom": False, "start": 0}] * 2
    ops += gens + [par]
    # one process, one manager, the same arguments, thousands of calls
    n = g.size(8, 40)
    ops += [{"op": "many", "id": "m", "what": "gen", "lang": g.lang(), "n": 64 * n, "threads": 1},
            {"op": "many", "id": "w", "what": "gen", "lang": g.lang(), "n": 128 * n, "threads": 8},
            {"op": "many", "id": "m", "what": "seed", "seed": seed, "pw": "61", "n": 48 * n, "threads": 8}]
    out = [Script("history", ops, timeout=300, repeat=2)]
    # the bytes given by a source of our own
    ops = []
    for i in range(g.size(30, 256)):
        st = g.r.randrange(256)
        ops.append({"op": "seal", "pw": g.pw(), "pt": g.b(g.r.randrange(40) if i % 5 else g.pick([300, 1024, 2049, 4097, 9000])), "custom": True, "start": st})
    for n in [9, 12, 15, 18, 21, 24]:
        for _ in range(g.size(4, 20)):
            ops.append({"op": "ent.gen", "n": n, "fill": g.ent(n // 3 * 4).hex()})
    out += split("given", ops, 3)
    return out


# ---------------------------------------------------------------------------------------- C04
def walk_mgrs(g):
    """managers over the standard networks"""
    ops, ids = [], []
    for i, m in enumerate(MIXES):
        m = m[:]
        g.r.shuffle(m)
        ops.append({"op": "mgr.new", "id": f"n{i}", "how": "nets", "nets": m})
        ids.append((f"n{i}", m))
    ops.append(dict(ALL))
    ids.append(("m", NETS))
    # and over ones that ask for longer phrases
    for i in g.r.sample(list(LONGER), 2):
        m = g.r.sample(NETS, g.r.randrange(1, 4))
        ops.append({"op": "mgr.new", "id": i, "how": "facts", "f": [{"net": n, "min": LONGER[i] * 8, "max": 256, "kind": "std"} for n in m]})
        ids.append((i, m))
    return ops, ids


LONGER = {"l20": 20, "l24": 24, "l28": 28, "l32": 32}


def esize(m, nets):
    """bytes of entropy in the phrases a manager takes"""
    return LONGER.get(m, 12 if nets == [ADA] else 16)


def look(g, d, pw, ids, n=1, ks=None):
    """open with some manager and use what is there"""
    ops = []
    for (i, nets) in (g.r.sample(ids, n) if n < len(ids) else ids):
        k = g.new("k")
        ops.append({"op": "mgr.open", "id": i, "in": d, "pw": pw, "kc": k})
        if ks is not None:
            ks.append((k, nets))
    return ops


def use(g, k, net, deep=False):
    p = g.path(net)
    ops = [{"op": "kc.pub", "kc": k, "net": net, "p": p}]
    if deep:
        x, m = g.new("s"), g.msg()
        ops += [{"op": "kc.sign", "kc": k, "net": net, "p": p, "m": m, "as": x},
                {"op": "kc.verify", "kc": k, "net": net, "p": p, "m": m, "s": {"ref": x}}]
    return ops


def c04(t, s):
    g = G("C04", s, t)
    out = []
    for j in range(g.size(7, 28)):
        ops, ids = walk_mgrs(g)
        seed, lang = g.seed(), LANGS[(j + s) % 8]
        for step in range(g.size(7, 14)):
            m, nets = g.pick(ids)
            pw = g.pw()
            k = g.r.random()
            if k < 0.2:
                n = g.pick([0, 1, 16, 32, 63, 65, 66, 128, 1000])
                ops.append({"op": "mgr.seed", "id": m, "seed": g.b(n), "pw": pw, "out": "bad"})
                continue
            if k < 0.6:
                sd = seed if g.r.random() < 0.6 else g.seed()
                ops.append({"op": "mgr.seed", "id": m, "seed": sd, "pw": pw, "out": "d"})
            else:
                n = esize(m, nets)
                l = lang if g.r.random() < 0.6 else g.lang()
                ph = tx(phrase(l, g.ent(n)))
                o = {"op": "mgr.mnem", "id": m, "t": ph, "lang": l, "pw": pw, "out": "d"}
                if l == "English" and g.r.random() < 0.5:
                    o["nolang"] = True
                ops.append(o)
                # the seed of that phrase gives the same keys
                if g.r.random() < 0.3:
                    sd = hashlib.pbkdf2_hmac("sha512", bytes.fromhex(ph), b"mnemonic", 2048, 64).hex()
                    ops.append({"op": "mgr.seed", "id": m, "seed": sd, "pw": pw, "out": "e"})
                    ops.append({"op": "mgr.keys", "id": "m", "in": "e", "pw": pw})
            ops.append({"op": "mgr.keys", "id": "m", "in": "d", "pw": pw})
            ops.append({"op": "mgr.retr", "id": "m", "in": "d", "pw": pw})
            kc = g.new("k")
            ops.append({"op": "mgr.open", "id": m, "in": "d", "pw": pw, "kc": kc})
            ops.append({"op": "kc.nets", "kc": kc})
            for n in NETS:
                ops.append({"op": "kc.has", "kc": kc, "net": n})
            if g.r.random() < 0.5:
                ops += use(g, kc, g.pick(nets))
            if g.r.random() < 0.3:
                other = g.pick(ids)[0]
                ops.append({"op": "mgr.add", "id": other, "in": "d", "pw": pw, "net": g.pick(NETS), "out": "f"})
        out.append(Script(f"create-{j}", ops))
    # every language, named and (English) not, first in one kind of document and then in the other
    ops, ids = walk_mgrs(g)
    for l in LANGS + ["English", "English"]:
        for fresh in (False, True):
            m, nets = g.pick([x for x in ids if esize(*x) > 12]) if not fresh else ("n2", [ADA])
            ph, d, pw = tx(phrase(l, g.ent(esize(m, nets)))), g.new("d"), g.pick(["", "61", tx("é")])
            o = {"op": "mgr.mnem", "id": m, "t": ph, "lang": l, "pw": pw, "out": d}
            if l == "English" and len([1 for x in ops if x.get("lang") == l]) >= 2:
                o["nolang"] = True
            ops.append(o)
            ops.append({"op": "mgr.retr", "id": m, "in": d, "pw": pw})
            if g.r.random() < 0.4:
                ops.append({"op": "mgr.chpw", "id": m, "in": d, "pw": pw, "npw": pw, "out": d + "c"})
                ops.append({"op": "mgr.retr", "id": m, "in": d + "c", "pw": pw})
            if g.r.random() < 0.3:
                ops.append({"op": "mgr.add", "id": "m", "in": d, "pw": pw, "net": g.pick(NETS), "out": d + "a", "maybe": True})
                ops.append({"op": "mgr.retr", "id": m, "in": d + "a", "pw": pw})
    ops.append({"op": "mgr.new", "id": "ll", "how": "facts", "f": [{"net": n, "min": 256, "max": 256, "kind": "std"} for n in g.r.sample(NETS, 1)]})
    for l in g.r.sample(LANGS, 8):
        ops.append({"op": "mgr.mnem", "id": "ll", "t": tx(phrase(l, g.ent(32))), "lang": l, "pw": "61", "out": "x"})
        ops.append({"op": "mgr.retr", "id": "m", "in": "x", "pw": "61"})
    out.append(Script("languages", ops))
    # seeds and entropies with nothing random about them
    ops, ids = walk_mgrs(g)
    plain = ["00" * 64, "ff" * 64, "20" * 64, "41" * 64, "00" * 32 + "ff" * 32, "00" * 63 + "01", "80" + "00" * 63, "7f" * 64, bytes(range(64)).hex()]
    for sd in plain:
        m, nets = g.pick(ids)
        d = g.new("d")
        ops.append({"op": "mgr.seed", "id": m, "seed": sd, "pw": g.pick(["", "61"]), "out": d})
        ops.append({"op": "mgr.keys", "id": "m", "in": d, "pw": ops[-1]["pw"]})
    for e in ([bytes([b]) * 16 for b in (0, 255, 127, 128)] if not t else [bytes([b]) * 16 for b in range(256)]):
        m, nets = g.pick([x for x in ids if esize(*x) == 16])
        l, d, pw = g.lang(), g.new("d"), g.pw()
        ops.append({"op": "mgr.mnem", "id": m, "t": tx(phrase(l, e)), "lang": l, "pw": pw, "out": d})
        ops.append({"op": "mgr.keys", "id": "m", "in": d, "pw": pw})
        ops.append({"op": "mgr.retr", "id": "m", "in": d, "pw": pw})
    out.append(Script("plain", ops))
    # phrases whose words are of two languages: the one named counts
    ops, ids = walk_mgrs(g)
    for l, o, ph, _ in shared_phrases(g, 12) + (shared_phrases(g, 24) if t else []):
        m, nets = g.pick([x for x in ids if esize(*x) * 3 // 4 == len(ph.split(" "))] or [("n2", [ADA])])
        d, w, pw = g.new("d"), g.new("w"), g.pw()
        ops.append({"op": "mgr.mnem", "id": m, "t": tx(ph), "lang": l, "pw": pw, "out": d})
        ops.append({"op": "mgr.mnem", "id": m, "t": tx(ph), "lang": o, "pw": pw, "out": w, "maybe": True})
        for x in (d, w):
            ops.append({"op": "mgr.retr", "id": "m", "in": x, "pw": pw})
            ops.append({"op": "mgr.add", "id": "m", "in": x, "pw": pw, "net": g.pick(NETS), "out": x + "a", "maybe": True})
            ops.append({"op": "mgr.retr", "id": "m", "in": x + "a", "pw": pw})
            ops.append({"op": "mgr.keys", "id": "m", "in": x + "a", "pw": pw})
    out.append(Script("shared", ops))
    # what is stored is what comes back, however it is written
    ops = [dict(ALL), {"op": "mgr.new", "id": "a", "how": "nets", "nets": [ADA]}]
    for f in fixtures("docs"):
        if f["kind"] in ("odd", "unread", "half", "both", "mnem", "seed", "keys"):
            d = g.new("d")
            ops += [{"op": "put", "out": d, "b": f["b"]}, {"op": "mgr.retr", "id": g.pick("ma"), "in": d, "pw": f["pw"]}]
    out.append(Script("written", ops))
    # phrases that are not accepted create nothing
    ops = [dict(ALL), {"op": "mgr.new", "id": "a", "how": "nets", "nets": [ADA]}]
    for i in range(g.size(24, 100)):
        l = g.lang()
        w = phrase(l, g.ent(g.pick([12, 16, 16, 20, 32]))).split(" ")
        f = g.r.randrange(5)
        if f == 0:
            w[g.r.randrange(len(w))] = g.pick(["zzz", "", DICT["Korean" if l != "Korean" else "French"][7]])
        elif f == 1:
            w.pop()
        elif f == 2:
            w.append(w[0])
        ops.append({"op": "mgr.mnem", "id": g.pick("ma"), "t": tx(" ".join(w)), "lang": l, "pw": "61", "out": "z"})
    out.append(Script("phrases", ops))
    return out


# ---------------------------------------------------------------------------------------- C05 - C07
def stored(g, ids, out, pw, custom=None):
    """one way to have keychain data"""
    m, nets = g.pick(ids)
    if g.r.random() < 0.5:
        return [{"op": "mgr.seed", "id": m, "seed": g.seed(), "pw": pw, "out": out}]
    l = g.lang()
    return [{"op": "mgr.mnem", "id": m, "t": tx(phrase(l, g.ent(esize(m, nets)))), "lang": l, "pw": pw, "out": out}]


FX = {}


def of_each(g, fxs, n):
    """so many, of every class of them some"""
    by = {}
    for f in fxs:
        by.setdefault(f.get("kind"), []).append(f)
    for v in by.values():
        g.r.shuffle(v)
    out = []
    while by and len(out) < n:
        for k in list(by):
            out.append(by[k].pop())
            if not by[k]:
                del by[k]
    return out[:n]


def fixtures(kind):
    """data sealed by the specification (spec/Fixtures.tla); filled in by models.run"""
    return FX[kind]


def every(ops_of, items, n, name, pre):
    return [Script(f"{name}-{i}", pre + sum((ops_of(x) for x in items[i::n]), [])) for i in range(n) if items[i::n]]


def c05(t, s):
    g = G("C05", s, t)
    out = []
    for j in range(g.size(6, 24)):
        ops, ids = walk_mgrs(g)
        ops.append({"op": "mgr.new", "id": "q", "how": "facts", "f": [{"net": "0000beef", "min": 128, "max": 256, "kind": "echo"}, {"net": ETH, "min": 128, "max": 256, "kind": "std"}]})
        ids.append(("q", [ETH]))
        a, b = g.two_pws()
        ops += stored(g, ids, "d", a)
        cur, pws = "d", a
        for step in range(g.size(4, 8)):
            m = g.pick(ids)[0]
            np = g.pick([b, g.pw(), pws, ""])
            nd = g.new("d")
            ops.append({"op": "mgr.chpw", "id": m, "in": cur, "pw": pws, "npw": np, "out": nd})
            ops.append({"op": "mgr.keys", "id": "m", "in": nd, "pw": np})
            ops.append({"op": "mgr.retr", "id": "m", "in": nd, "pw": np})
            ops.append({"op": "mgr.keys", "id": "m", "in": nd, "pw": pws})
            ops.append({"op": "mgr.keys", "id": "m", "in": cur, "pw": pws})
            if g.r.random() < 0.4:
                ops.append({"op": "mgr.chpw", "id": m, "in": nd, "pw": g.pw(), "npw": a, "out": g.new("z")})
            if g.r.random() < 0.4:
                ops.append({"op": "mgr.add", "id": g.pick(ids)[0], "in": nd, "pw": np, "net": g.pick(NETS + ["0000beef"]), "out": g.new("z")})
            if g.r.random() < 0.5:
                ops += look(g, nd, np, ids)
            cur, pws = nd, np
        out.append(Script(f"chpw-{j}", ops))

    # where the content ends and the password begins
    ops = [dict(ALL)]
    for i in range(g.size(4, 20)):
        a, b = g.b(g.r.randrange(1, 4)), "".join(g.pick(["61", "7a", "31", "20"]) for _ in range(3))
        pw = b + b[:2]
        d = g.new("d")
        ops += [{"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": pw, "out": d, "as": d}]
        ops += [{"op": "mgr.chpw", "id": "m", "in": d, "pw": pw, "npw": "62", "out": g.new("w")}]
        for k in (2, 4, 6):
            e = g.new("e")
            ops += [{"op": "put", "out": e, "b": {"ref": d, "app": pw[:k]}}]
            for o, x in (("mgr.chpw", {"npw": "62"}), ("mgr.keys", {}), ("mgr.open", {})):
                for c in ((d, pw), (e, pw[k:])):
                    ops.append(dict({"op": o, "id": "m", "in": c[0], "pw": c[1], **x}, **({"out": g.new("w")} if o == "mgr.chpw" else {"kc": g.new("k")} if o == "mgr.open" else {})))
    out.append(Script("border", ops))

    def on(fx):
        d, w = g.new("d"), g.new("w")
        np = g.pw()
        return [{"op": "put", "out": d, "b": fx["b"]},
                {"op": "mgr.chpw", "id": g.pick("ma"), "in": d, "pw": fx["pw"], "npw": np, "out": w},
                ] + ([{"op": "mgr.keys", "id": "m", "in": w, "pw": np},
                      {"op": "mgr.retr", "id": "m", "in": w, "pw": np}] if fx["good"] else []) + [
                {"op": "mgr.chpw", "id": "m", "in": d, "pw": fx["pw"] + "61", "npw": np, "out": g.new("w")}]
    pre = [dict(ALL), {"op": "mgr.new", "id": "a", "how": "nets", "nets": [ADA]}]
    fx = fixtures("docs")
    good = [f for f in fx if f["good"]]
    rest = [f for f in fx if not f["good"]]
    out += every(on, of_each(g, good, g.size(36, 1000)) + of_each(g, rest, g.size(12, 1000)), 3, "fx", pre)
    # damage
    ops = pre + [{"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": "61", "out": "d", "as": "d"}]
    for i in range(g.size(20, 200)):
        tr = g.pick([{"flip": g.r.randrange(4000)}, {"cut": g.r.randrange(1, 200)}, {"len": g.r.randrange(0, 62)}, {"app": g.b(1)}, {"cutl": 1}])
        ops += [dict({"op": "put", "out": "e"}, b=dict({"ref": "d"}, **tr)),
                {"op": "mgr.chpw", "id": "m", "in": "e", "pw": "61", "npw": "62", "out": "f"}]
    for f in g.r.sample(fixtures("foreign"), g.size(24, 80)):
        ops += [{"op": "put", "out": "e", "b": f["b"]}, {"op": "mgr.chpw", "id": "m", "in": "e", "pw": f["pw"], "npw": "62", "out": "f"}]
    out.append(Script("damage", ops))
    return out


def c06(t, s):
    g = G("C06", s, t)
    out = []
    X1, X2 = "0000beef", "8000beef"
    facts = [("q1", [(ETH, 128), (X1, 128)]), ("q2", [(ADA, 96), (X2, 96)]), ("q3", [(X1, 160), (BTC, 128)]), ("q4", [(X1, 96), (X2, 256 - 32)]),
             ("q5", [(n, 128) for n in NETS + [X1, X2]])]
    for j in range(g.size(7, 30)):
        ops, ids = walk_mgrs(g)
        for i, f in facts:
            ops.append({"op": "mgr.new", "id": i, "how": "facts", "f": [
                {"net": n, "min": mn, "max": 256, "kind": "std" if n in NETS else "echo"} for n, mn in f]})
            ids.append((i, [n for n, _ in f]))
        pw = g.pw()
        m, nets = g.pick(ids)
        words = {"q2": 12, "q3": 20, "q4": 28}.get(m, esize(m, nets))
        if g.r.random() < 0.4:
            ops.append({"op": "mgr.seed", "id": m, "seed": g.seed(), "pw": pw, "out": "d"})
        else:
            l = LANGS[(j + s) % 8]
            ops.append({"op": "mgr.mnem", "id": m, "t": tx(phrase(l, g.ent(words))), "lang": l, "pw": pw, "out": "d"})
        cur = ["d"]
        has = {"d": set(nets)}
        for step in range(g.size(8, 14)):
            d = g.pick(cur[-2:])
            m2, n2 = g.pick(ids)
            net = g.pick(n2) if g.r.random() < 0.8 else g.pick(NETS + [X1, X2, "00001234"])
            if g.r.random() < 0.6:       # one that is missing, by a manager that knows little else
                fit = [(m, n) for m, ns in ids for n in ns if n not in has[d]]
                if fit:
                    m2, net = g.pick(fit)
            nd = g.new("d")
            has[nd] = has[d] | {net}
            ops.append({"op": "mgr.add", "id": m2, "in": d, "pw": pw, "net": net, "out": nd, "maybe": True})
            ops.append({"op": "mgr.keys", "id": "m", "in": d, "pw": pw})
            cur.append(nd)
            ops.append({"op": "mgr.keys", "id": "m", "in": nd, "pw": pw})
            ops.append({"op": "mgr.retr", "id": "m", "in": nd, "pw": pw})
            if g.r.random() < 0.3:
                ops += look(g, nd, pw, ids)
            if g.r.random() < 0.15:
                ops.append({"op": "mgr.add", "id": m2, "in": d, "pw": pw + "61", "net": net, "out": g.new("z")})
        out.append(Script(f"add-{j}", ops))

    def on(fx):
        d = g.new("d")
        o = [{"op": "put", "out": d, "b": fx["b"]}]
        for net in NETS + [X1]:
            if g.r.random() < 0.6 or t:
                w = g.new("w")
                o.append({"op": "mgr.add", "id": g.pick(["m", "a", "q5", "q3"]), "in": d, "pw": fx["pw"], "net": net, "out": w})
                o.append({"op": "mgr.keys", "id": "m", "in": w, "pw": fx["pw"]})
        return o
    pre = [dict(ALL), {"op": "mgr.new", "id": "a", "how": "nets", "nets": [ADA]}] + [
        {"op": "mgr.new", "id": i, "how": "facts", "f": [{"net": n, "min": mn, "max": 256, "kind": "std" if n in NETS else "echo"} for n, mn in f]} for i, f in facts]
    fx = fixtures("docs")
    good = [f for f in fx if f["good"]]
    rest = [f for f in fx if not f["good"]]
    out += every(on, of_each(g, good, g.size(40, 1000)) + of_each(g, rest, g.size(10, 1000)), 4, "fx", pre)

    def whole(fx):
        # the secret parts travel unread, whatever they are; only a seed that is one gives new keys
        d, w = g.new("d"), g.new("w")
        return [{"op": "put", "out": d, "b": fx["b"]}, {"op": "mgr.add", "id": "m", "in": d, "pw": fx["pw"], "net": g.pick([BTC, ADA]), "out": w},
                {"op": "mgr.retr", "id": "m", "in": w, "pw": fx["pw"]},
                {"op": "mgr.add", "id": "q5", "in": w, "pw": fx["pw"], "net": X1, "out": d},
                {"op": "mgr.retr", "id": "m", "in": d, "pw": fx["pw"]}, {"op": "mgr.keys", "id": "m", "in": d, "pw": fx["pw"]}]

    def there(fx):
        d = g.new("d")
        return [{"op": "put", "out": d, "b": fx["b"]}] + [{"op": "mgr.add", "id": "q5", "in": d, "pw": fx["pw"], "net": n, "out": g.new("w")} for n in NETS + [X1]] + [
            {"op": "mgr.keys", "id": "m", "in": d, "pw": fx["pw"]}]
    # seeds with nothing random about them are seeds
    ops = list(pre)
    for i, sd in enumerate(["00" * 64, "ff" * 64, "20" * 64, "41" * 64, "00" * 32 + "ff" * 32, "00" * 63 + "01", "80" + "00" * 63, bytes(range(64)).hex()]):
        ops += [{"op": "mgr.seed", "id": "q1", "seed": sd, "pw": "61", "out": "d"}, {"op": "mgr.add", "id": g.pick(["m", "q5"]), "in": "d", "pw": "61", "net": [BTC, ADA][i % 2], "out": "e"},
                {"op": "mgr.add", "id": "q5", "in": "e", "pw": "61", "net": [ADA, BTC][i % 2], "out": "f"}, {"op": "mgr.keys", "id": "m", "in": "f", "pw": "61"}]
    out.append(Script("plain", ops))
    out += every(there, [f for f in good if f["kind"] == "there"], 1, "there", pre)
    out += every(whole, [f for f in good if f["kind"] in ("seedlen", "both", "odd", "half", "unread", "many")], 2, "whole", pre)
    # one after the other, each by a manager of its own
    ops = crowd(g, t)
    ns = g.r.sample(CROWD, len(CROWD) if t else 14)
    ops += [{"op": "mgr.seed", "id": "x" + ns[0], "seed": g.seed(), "pw": "61", "out": "d0"}]
    for i, n in enumerate(ns[1:]):
        ops += [{"op": "mgr.add", "id": "x" + n, "in": f"d{i}", "pw": "61", "net": n, "out": f"d{i + 1}"}, {"op": "mgr.keys", "id": "m", "in": f"d{i + 1}", "pw": "61"}]
    ops += [{"op": "mgr.retr", "id": "m", "in": f"d{len(ns) - 1}", "pw": "61"}]
    out.append(Script("growing", ops))
    ops = list(pre)
    for f in g.r.sample(fixtures("foreign"), g.size(24, 80)):
        ops += [{"op": "put", "out": "e", "b": f["b"]}, {"op": "mgr.add", "id": "m", "in": "e", "pw": f["pw"], "net": g.pick([ADA, ETH, X1]), "out": "f"}]
    out.append(Script("foreign", ops))
    return out


CROWD = NETS + [u(x) for x in (1, 2, 0x3c, 0x717, 0x7fffffff, 0xbeef, 0x80000001, 0x80000002, 0x8000beef, 0xfffffffe, 0xffffffff, 3, 0x100, 0x10000, 0x1000000, 0x80000100, 0x80010000, 0x81000000, 0xc0000000, 0x40000000, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)]


def crowd(g, t):
    """managers of one network each and of so many"""
    f = lambda n: {"net": n, "min": 128, "max": 256, "kind": "std" if n in NETS else "echo"}
    return [dict(ALL)] + [{"op": "mgr.new", "id": "x" + n, "how": "facts", "f": [f(n)]} for n in CROWD] + [
        {"op": "mgr.new", "id": f"c{k}", "how": "facts", "f": [f(n) for n in g.r.sample(CROWD, k)]} for k in range(1, len(CROWD) + 1)]


def c07(t, s):
    g = G("C07", s, t)
    out = []
    X1, X2 = "0000beef", "8000beef"
    facts = [("q1", [ETH, X1]), ("q2", [ADA, X2]), ("q3", [X1, BTC]), ("q4", [X1, X2]), ("q5", [ETH, X1, X2]), ("q6", NETS + [X1, X2]),
             # networks of near numbers
             ("q7", [BTC, ETH, "00000000", "0000003c", "80000001", "80000002", "80000040", "80000100", "8000033c", "80010000", "81000000", "c0000000", "ffffffff"])]
    fdef = [{"op": "mgr.new", "id": i, "how": "facts", "f": [
        {"net": n, "min": 128, "max": 256, "kind": "std" if n in NETS else "echo"} for n in f]} for i, f in facts]
    for j in range(g.size(6, 24)):
        ops, ids = walk_mgrs(g)
        ops += fdef
        ids += facts
        pw = g.pw()
        ops += stored(g, ids if j else [ids[-1]], "d", pw)
        for m in g.r.sample(ids, 6) + ([ids[-1]] if j < 2 else []):
            k = g.new("k")
            ops.append({"op": "mgr.open", "id": m[0], "in": "d", "pw": pw, "kc": k})
            ops.append({"op": "kc.nets", "kc": k})
            for n in NETS + [X1, X2, "00000001", "80000001", "80000040", "8000033c"]:
                ops.append({"op": "kc.has", "kc": k, "net": n})
            for n in g.r.sample(NETS + [X1, X2], 2):
                if g.r.random() < 0.7:
                    ops += use(g, k, n, deep=g.r.random() < 0.3)
        ops.append({"op": "mgr.keys", "id": g.pick(ids)[0], "in": "d", "pw": pw})
        ops.append({"op": "mgr.retr", "id": g.pick(ids)[0], "in": "d", "pw": pw})
        out.append(Script(f"open-{j}", ops))

    def on(fx):
        d = g.new("d")
        o = [{"op": "put", "out": d, "b": fx["b"]}]
        for m in (["m", "n0", "n1", "n2", "q1", "q4"] if t else g.r.sample(["m", "n0", "n1", "n2", "q1", "q4"], 3)):
            k = g.new("k")
            o.append({"op": "mgr.open", "id": m, "in": d, "pw": fx["pw"], "kc": k})
        o.append({"op": "mgr.keys", "id": "m", "in": d, "pw": fx["pw"]})
        o.append({"op": "mgr.retr", "id": "n2", "in": d, "pw": fx["pw"]})
        return o
    pre = [dict(ALL)] + [{"op": "mgr.new", "id": f"n{i}", "how": "nets", "nets": [n]} for i, n in enumerate(NETS)] + fdef
    out += every(on, fixtures("keys")[: g.size(60, 5000)], 4, "keydata", pre)
    # documents: what is in them, by whom, with which secret or none
    docs = fixtures("docs")
    half = [f for f in docs if f["kind"] in ("half", "both", "many", "seedlen", "dups", "odd", "unread")]
    rest = [f for f in docs if f["good"] and f not in half]

    def look_at(fx):
        d, k = g.new("d"), g.new("k")
        return [{"op": "put", "out": d, "b": fx["b"]}, {"op": "mgr.retr", "id": g.pick(["m", "n1", "q4"]), "in": d, "pw": fx["pw"]},
                {"op": "mgr.keys", "id": g.pick(["m", "n0"]), "in": d, "pw": fx["pw"]},
                {"op": "mgr.open", "id": g.pick(["m", "q5", "q6"]), "in": d, "pw": fx["pw"], "kc": k}, {"op": "kc.nets", "kc": k}] + [
                {"op": "kc.has", "kc": k, "net": n} for n in NETS + ["00000007", X1]]
    out += every(look_at, half + (rest if t else g.r.sample(rest, min(20, len(rest)))), 3, "docs", pre)
    ops = list(pre)
    for f in g.r.sample(fixtures("foreign"), g.size(24, 80)):
        ops += [{"op": "put", "out": "e", "b": f["b"]}, {"op": g.pick(["mgr.open", "mgr.retr", "mgr.keys"]), "id": g.pick(["m", "q6"]), "in": "e", "pw": f["pw"], "kc": g.new("k")}]
    out.append(Script("foreign", ops))
    # so many networks, of which so many are known
    ops = crowd(g, t)
    sizes = range(1, len(CROWD) + 1)
    for i, k in enumerate(sizes if t else g.r.sample(range(1, 10), 9) + g.r.sample(range(10, len(CROWD)), 4) + [len(CROWD)]):
        ops.append({"op": "mgr.seed", "id": f"c{k}", "seed": g.seed(), "pw": "61", "out": "d"})
        for j in [k, len(CROWD)] + g.r.sample(sizes, 2):
            ops += [{"op": "mgr.open", "id": f"c{j}", "in": "d", "pw": "61", "kc": f"k{i}"}, {"op": "kc.nets", "kc": f"k{i}"}] + [{"op": "kc.has", "kc": f"k{i}", "net": n} for n in g.r.sample(CROWD, 5)]
        ops.append({"op": "mgr.keys", "id": "m", "in": "d", "pw": "61"})
    out.append(Script("crowd", ops))
    # data of single networks through the factories
    ops = []
    for net in NETS:
        for _ in range(g.size(6, 40)):
            x = g.new("f")
            ops.append({"op": "fac.key", "net": net, "seed": g.seed(), "as": x})
            ops.append({"op": "fac.load", "net": net, "b": {"ref": x}})
            for tr in [{"flip": g.r.randrange(616)}, {"cut": 1}, {"app": "00"}, {"cutl": 1}, {"len": 0}, {"flip": g.r.randrange(260)}]:
                ops.append({"op": "fac.load", "net": net, "b": dict({"ref": x}, **tr)})
        for n in [0, 1, 63, 65, 64, 96]:
            ops.append({"op": "fac.key", "net": net, "seed": g.b(n)})
            ops.append({"op": "fac.load", "net": net, "b": g.b(n)})
    out += grouped("factory", ops, 2)
    # every bit of one key
    for net in NETS:
        ops = [{"op": "fac.key", "net": net, "seed": g.seed(), "as": "key"}]
        size = 96 if net == ADA else 77
        ops += [{"op": "fac.load", "net": net, "b": {"ref": "key", "flip": i}} for i in range(8 * size)]
        ops += [{"op": "fac.load", "net": net, "b": {"ref": "key", "len": n}} for n in list(range(2 * size + 2)) + [size + 256, size + 512, size + 65536]]
        ops += [{"op": "fac.load", "net": net, "b": {"ref": "key", k: v}} for k in ("app", "pre") for v in ["00", "ff", "0a", "0d0a", "20", "efbbbf", "01"]]
        ops += [{"op": "fac.load", "net": net, "b": {"ref": "key", "set": [i, v]}} for i in ((0, 31, 32, 63, 64, 95) if net == ADA else (0, 4, 5, 8, 72, 76)) for v in range(256)]
        out.append(Script(f"bits-{net}", ops))
    return out


def c03(t, s):
    g = G("C03", s, t)

    def on(fx):
        d = g.new("d")
        o = [{"op": "put", "out": d, "b": fx["b"]},
             {"op": "mgr.keys", "id": "m", "in": d, "pw": fx["pw"]},
             {"op": "mgr.retr", "id": "m", "in": d, "pw": fx["pw"]},
             {"op": "mgr.open", "id": "m", "in": d, "pw": fx["pw"], "kc": g.new("k")}]
        if fx["good"] or t:
            w = g.new("d")
            o.append({"op": "mgr.add", "id": "m", "in": d, "pw": fx["pw"], "net": g.pick(NETS), "out": w})
            o.append({"op": "mgr.keys", "id": "m", "in": w, "pw": fx["pw"]})
            w = g.new("d")
            o.append({"op": "mgr.chpw", "id": "m", "in": d, "pw": fx["pw"], "npw": "78", "out": w})
        return o
    out = every(on, fixtures("docs"), 6 if not t else 16, "docs", [dict(ALL)])
    # what other schemes write
    ops = [dict(ALL)]
    for f in fixtures("foreign"):
        if t or g.r.random() < 0.6:
            ops += [{"op": "put", "out": "e", "b": f["b"]}, {"op": g.pick(["mgr.open", "mgr.keys", "mgr.open", "mgr.retr"]), "id": "m", "in": "e", "pw": f["pw"], "kc": g.new("k")}]
    out.append(Script("foreign", ops))
    # what the library writes
    for j in range(g.size(2, 8)):
        ops, ids = walk_mgrs(g)
        for i in range(g.size(6, 20)):
            ops += stored(g, ids, "d", g.pw())
        out.append(Script(f"written-{j}", ops))
    ops = []
    for fx in fixtures("raw"):
        ops.append({"op": "open", "pw": fx["pw"], "b": fx["b"]})
    for i in range(g.size(10, 40)):
        ops.append({"op": "seal", "pw": g.pw(), "pt": g.b(g.r.randrange(300)), "custom": i % 2 == 0, "start": i})
    out += split("raw", ops, 2)
    return out


# ---------------------------------------------------------------------------------------- C08, C09
def corpus(name):
    with open(os.path.join(ROOT, "gen", name)) as f:
        return json.load(f)


# numbers anyone may treat in a way of their own
NUMBERS = sorted({v for b in range(3, 31) for v in ((1 << b) - 1, 1 << b, (1 << b) + 1)} | {m * 10 ** b for b in range(1, 10) for m in (1, 2, 5, 10) if m * 10 ** b < H}
                 | {v for b in range(1, 9) for v in (10 ** b - 1, 10 ** b + 1)} | {m * 10 ** b - H for b in range(4, 10) for m in (-(-H // 10 ** b), 3 * 10 ** (9 - b), 4 * 10 ** (9 - b))} | {44, 49, 60, 84, 365, 1815, 1852, 2018, 12345, 123456, 0xdead, 0xbeef, 0xcafe, 0x1337, 0x7f7f7f7f, 0x01010101, 0x55555555, 0x2aaaaaaa, 0x12345678})


def paths_of(g, net, n):
    ps = []
    for a in [0, 1, 0x7FFFFFFF]:
        for c in [0, 1]:
            for d in [0, 1, 0x7FFFFFFF]:
                ps.append([P44, net, u(H + a), u(c), u(d)])
    g.r.shuffle(ps)
    if net == BTC:
        for p in [0, 1, 44, 49, 0x7FFFFFFF, H, H + 1, H + 49, H + 84, 0xFFFFFFFF]:
            ps.insert(g.r.randrange(len(ps)), [u(p), net, u(H + g.idx()), u(g.r.randrange(2)), u(g.idx())])
    while len(ps) < n:
        ps.append(g.path(net))
    return ps[:n]


def derivation(prop, nets, t, s):
    g = G(prop, s, t)
    out = []
    special = corpus("edge-seeds.json")
    seeds = ["00" * 64, "ff" * 64, "00" * 32 + "ff" * 32, bytes(range(64)).hex()] + [g.b(64) for _ in range(g.size(6, 40))]
    seeds = g.r.sample(seeds, g.size(8, len(seeds)))
    for j, sd in enumerate(seeds):
        ops = keychain(sd)
        for net in nets:
            for p in paths_of(g, net, g.size(24 if len(nets) > 1 else 60, 120)):
                ops.append({"op": "kc.pub", "kc": "k", "net": net, "p": p})
                if g.r.random() < 0.15:      # asked again, after others
                    ops.append({"op": "kc.pub", "kc": "k", "net": net, "p": g.pick([o["p"] for o in ops if o["op"] == "kc.pub" and o["net"] == net])})
        out.append(Script(f"seed-{j}", ops))
    # one key, many paths of small numbers; every purpose that is used for something
    for j, net in enumerate(nets * (2 if len(nets) == 1 else 1)):
        ops = keychain(g.b(64))
        ps = [[P44, net, u(H + a), u(c), u(d)] for a in range(g.size(3, 6)) for c in range(2) for d in range(g.size(40, 300))]
        if net == BTC:
            ps += [[u(H + p), net, u(H), u(p % 2), u(p % 3)] for p in range(g.size(150, 2000))] + [[u(p), net, u(H), u(0), u(0)] for p in (32, 43, 44, 45, 48, 49, 84, 86)]
        # remarkable numbers as account and as address
        some = NUMBERS if t else [v for i, v in enumerate(NUMBERS) if len(nets) == 1 or i % 2 == (j + s) % 2]
        for v in some:
            ps += [[P44, net, u(H + v), u(v % 2), u(g.r.randrange(3))], [P44, net, u(H + g.r.randrange(3)), u(v % 2), u(v)]]
        g.r.shuffle(ps)
        ops += [{"op": "kc.pub", "kc": "k", "net": net, "p": p} for p in ps]
        out.append(Script(f"dense-{j}", ops))
    # seeds and paths whose intermediate values have unusual shapes
    ex = [e for e in special if e["net"] in nets]
    ops, seen = [dict(ALL)], {}
    for e in ex if t else g.r.sample(ex, min(len(ex), 40)):
        if e["seed"] not in seen:
            seen[e["seed"]] = f"k{len(seen)}"
            ops += keychain(e["seed"], seen[e["seed"]], mgr=False)
        ops.append({"op": "kc.pub", "kc": seen[e["seed"]], "net": e["net"], "p": e["p"]})
    out.append(Script("edges", ops))
    out += twins(g, nets)
    # the same keys from a mnemonic, added later, beside other networks, by another manager
    ops, ids = walk_mgrs(g)
    for i in range(g.size(5, 30)):
        l = g.lang()
        m, have = g.pick([x for x in ids if len(x[1]) < 3 and esize(*x) > 12])
        net = g.pick(nets)
        ops.append({"op": "mgr.mnem", "id": m, "t": tx(phrase(l, g.ent(esize(m, have)))), "lang": l, "pw": "61", "out": "d"})
        d = "d"
        if net not in have:
            ops.append({"op": "mgr.add", "id": "m", "in": "d", "pw": "61", "net": net, "out": "e"})
            d = "e"
        k = g.new("k")
        ops.append({"op": "mgr.open", "id": "m", "in": d, "pw": "61", "kc": k})
        ops += [{"op": "kc.pub", "kc": k, "net": net, "p": p} for p in paths_of(g, net, 5)]
    out.append(Script("ways", ops))
    # root keys of many seeds
    ops = [dict(ALL)]
    for i in range(g.size(2000, 12000)):
        sd = g.b(64)
        if i % 8 == 0:           # with runs of the same byte
            a, b = sorted(g.r.sample(range(65), 2))
            sd = sd[:2 * a] + g.pick(["00", "ff", "80", "01"]) * (b - a) + sd[2 * b:]
        ops.append({"op": "fac.key", "net": nets[i % len(nets)], "seed": sd})
    out += split("roots", ops, 3)
    return out


def twins(g, nets, sign=False):
    """keys that have parts in common, asked for the same paths in turns"""
    by = {}
    for f in fixtures("twins"):
        net, i = f["kind"].split(":")
        if u(int(net)) in nets:
            by.setdefault((u(int(net)), i), []).append(f)
    out = []
    for (net, i), fs in by.items():
        ops, ks = [dict(ALL)], []
        for f in fs:
            d, k = g.new("d"), g.new("k")
            ops += [{"op": "put", "out": d, "b": f["b"]}, {"op": "mgr.open", "id": "m", "in": d, "pw": f["pw"], "kc": k}]
            ks.append(k)
        for p in [g.path(net) for _ in range(g.size(3, 8))]:
            m = g.msg()
            g.r.shuffle(ks)
            for k in ks:
                c = {"kc": k, "net": net, "p": p}
                if sign:
                    x = g.new("s")
                    ops += [dict(c, op="kc.sign", m=m, **{"as": x}), dict(c, op="kc.verify", m=m, s={"ref": x}), dict(c, op="kc.verify", m=m, kc=g.pick(ks), s={"ref": x})]
                else:
                    ops.append(dict(c, op="kc.pub"))
        out.append(Script(f"twins-{net}-{i}", ops))
    return out


def c08(t, s):
    return derivation("C08", [BTC, ETH], t, s)


def c09(t, s):
    return derivation("C09", [ADA], t, s)


# ---------------------------------------------------------------------------------------- C10
def c10(t, s):
    g = G("C10", s, t)
    pur = ["8000002c", "80000031", "80000054", "0000002c", "80000000", "ffffffff", "00000000", "8000002d"]
    coin = [BTC, ETH, ADA, "00000000", "0000003c", "00000717", "80000001", "ffffffff", "8000003d", "8000ffff"]
    acc = [u(H), u(H + 1), u(0xFFFFFFFF), u(0), u(1), u(H - 1)]
    chg = [u(0), u(1), u(2), u(H), u(H + 1), u(0xFFFFFFFF), u(H - 1)]
    adr = [u(0), u(1), u(H - 1), u(H), u(H + 1), u(0xFFFFFFFF)]
    cases = []
    for net in NETS:
        ok = [P44, net, u(H), u(0), u(0)]
        alts = [pur, coin, acc, chg, adr]
        seen = set()
        for i in range(5):                     # one component off
            for v in alts[i]:
                p = ok[:]
                p[i] = v
                seen.add(tuple(p))
        for i, j in itertools.combinations(range(5), 2):   # two off
            for v, w in itertools.product(alts[i], alts[j]):
                if t or g.r.random() < 0.35:
                    p = ok[:]
                    p[i], p[j] = v, w
                    seen.add(tuple(p))
        for p in itertools.product(*alts):
            if g.r.random() < (0.2 if t else 0.01):
                seen.add(p)
        for _ in range(g.size(80, 800)):
            seen.add(tuple(u(g.r.getrandbits(32)) if g.r.random() < 0.4 else x for x in ok))
        for i in range(5):                     # the right one with a bit flipped
            for b in range(32):
                p = ok[:]
                p[i] = u(int(p[i], 16) ^ 1 << b)
                seen.add(tuple(p))
        # purposes and coins anyone may have heard of
        for v in [1, 39, 43, 44, 45, 48, 49, 63, 83, 84, 85, 86, 87, 141, 1694, 1815, 1852, 1853, 1854, 1855, 60, 61, 118, 144, 148, 195, 397, 501, 2, 3, 5, 128, 145]:
            for w in (v, H + v):
                seen.add(tuple([u(w)] + ok[1:]))
                seen.add(tuple([ok[0], u(w)] + ok[2:]))
                seen.add(tuple([u(w), g.pick(NETS)] + ok[2:]))
        # a kind of address of its own may stand for a purpose
        for v in [44, 45, 48, 49, 84, 86, 1852]:
            for c in [2, 3, 4, 5, 10, H, H + 1]:
                seen.add(tuple([u(H + v), net, u(H), u(c), u(0)]))
        cases += [(net, list(p)) for p in sorted(seen)]
        # components anyone may have a use for, in every place and of both kinds
        for i in range(2, 5):
            for v in set(range(300 if t else 50)) | {1 << b for b in range(31)} | {(1 << b) - 1 for b in range(32)} | {10 ** b for b in range(10)} | {44, 49, 60, 84, 99, 100, 101, 365, 999, 1815, 1852, 2018, 2020, 12345, 0xdead, 0xbeef, 0xcafe, 0xffff}:
                for w in (v, (H + v) & 0xFFFFFFFF):
                    cases.append((net, ok[:i] + [u(w)] + ok[i + 1:], 1))
        # every small one
        hi = 2048 if not t else 20000
        for v in range(hi) if t else g.r.sample(range(hi), 300):
            cases.append((net, [u(H + v)] + ok[1:], 1))
            cases.append((net, [ok[0], u(H + v)] + ok[2:], 1))
    g.r.shuffle(cases)
    n = g.size(8, 14)
    out = []
    for i in range(n):
        ops = [dict(ALL), {"op": "mgr.new", "id": "o", "how": "nets", "nets": [NETS[i % 3]]}]
        ops += keychain(g.b(64), mgr=False)
        ops += [{"op": "mgr.open", "id": "o", "in": "d-k", "pw": "70", "kc": "one"}]
        for net, p, *q in cases[i::n]:
            x = g.new("s")
            ops.append({"op": "kc.pub", "kc": "k", "net": net, "p": p})
            if q:
                continue
            m = g.b(4)
            ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": m, "as": x})
            # a signature of the right length whatever the path
            sig = {"ref": x} if p[1] == net else {"ref": x, "len": 64}
            sig = dict(sig, len=64)
            q = g.r.random()
            if q < 0.3:          # or nothing like a signature
                sig = g.pick(["ff" * 64, g.b(64), g.b(32) + "ff" * 32, "00" * 32 + g.b(32), g.b(g.pick([0, 1, 63, 65, 96]))])
            ops.append({"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": m, "s": sig})
            if g.r.random() < 0.05:
                miss = g.pick(["00000000", "80000001", "0000003c", "8000003d", BTC, ETH, ADA])
                ops.append({"op": "kc.pub", "kc": "one", "net": miss, "p": p})
                ops.append({"op": "kc.sign", "kc": "one", "net": miss, "p": p, "m": m})
                ops.append({"op": "kc.verify", "kc": "one", "net": miss, "p": p, "m": m, "s": "00" * 64})
        out.append(Script(f"paths-{i}", ops))
    return out


# ---------------------------------------------------------------------------------------- C11
def c11(t, s):
    g = G("C11", s, t)
    out = []
    for j in range(g.size(7, 28)):
        net = NETS[j % 3]
        ops = [dict(ALL)] + keychain(g.seed(), "k", mgr=False) + keychain(g.b(64), "k2", mgr=False)
        for i in range(g.size(8, 20)):
            p, m, x = g.path(net), g.msg(), g.new("s")
            ops += [{"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": m, "as": x},
                    {"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": m, "s": {"ref": x}},
                    {"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": m, "s": {"ref": x, "len": 64}},
                    {"op": "kc.verify", "kc": "k2", "net": net, "p": p, "m": m, "s": {"ref": x}}]
            V = lambda **kw: ops.append(dict({"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": m, "s": {"ref": x}}, **kw))
            q = p[:]
            c = g.r.randrange(2, 5) if net != BTC else g.pick([0, 2, 3, 4])
            q[c] = {0: g.pick([P44, P49, P84]), 2: u(H + g.idx()), 3: u(1 - int(p[3], 16)), 4: u(g.idx())}[c]
            V(p=q)
            if m:
                mm = bytearray(bytes.fromhex(m))
                mm[g.r.randrange(len(mm))] ^= 1 << g.r.randrange(8)
                V(m=mm.hex())
                V(m=m[:-2])
            V(m=m + "00")
            bits = g.r.sample(range(512), g.size(6, 24)) + [255, 256, 0, 511]
            for b in bits:
                V(s={"ref": x, "flip": b})
                if net != ADA and g.r.random() < 0.3:
                    V(s={"ref": x, "flip": b, "len": 64})
            V(s={"ref": x, "twin": 1, "len": 64})
            V(s={"ref": x, "plusl": 1})
            V(s={"ref": x, "put": [0, "00" * 32]})
            V(s={"ref": x, "put": [32, "00" * 32]})
            V(s={"ref": x, "put": [0, "00" * 64]})
            V(s={"ref": x, "put": [0, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"]})
            V(s={"ref": x, "put": [32, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"]})
            if net != ADA:
                for v in [1, 2, 3]:
                    V(s={"ref": x, "xorlast": v})
                V(s={"ref": x, "twin": 1})
                V(s={"ref": x, "twin": 1, "xorlast": 1})
                V(s={"ref": x, "set": [64, g.pick([4, 27, 28, 255, 31])]})
            for n in [0, 1, 31, 32, 63, 66, 96, 128, 256 + 64, 256 + 65, 65536 + 64]:
                if g.r.random() < 0.3 or t:
                    V(s={"ref": x, "len": n})
            V(s={"ref": x, "app": "00"})
            # a good signature stays one of this message by this key alone
            for tr in ({}, {"len": 64}):
                V(s=dict({"ref": x}, **tr))
                V(m=m + "20", s=dict({"ref": x}, **tr))
                V(p=q, s=dict({"ref": x}, **tr))
                V(kc="k2", s=dict({"ref": x}, **tr))
            # asked again
            ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": m})
            # the other curve, the other networks
            n2 = g.pick([n for n in NETS if n != net])
            ops.append({"op": "kc.verify", "kc": "k", "net": n2, "p": [P44, n2] + p[2:], "m": m, "s": {"ref": x}})
        out.append(Script(f"sign-{j}", ops))
    # lengths of every kind: the last byte counts, and so does the first
    for net in NETS:
        ops = [dict(ALL)] + keychain(g.seed(), "k", mgr=False)
        lens = sorted(set(range(0, 300, 1 if t else 7)) | set(g.r.sample(range(300), 40)) | {32, 48, 64, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 40000, 65535, 65536, 65537})
        p = g.path(net)
        V = lambda m, x, **kw: ops.append(dict({"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": m, "s": {"ref": x}}, **kw))
        for n in lens:
            b, x = g.r.randbytes(n), g.new("s")
            ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": b.hex(), "as": x})
            if n:
                for at in {0, n - 1, g.r.randrange(n)}:
                    c = bytearray(b)
                    c[at] ^= 1 << g.r.randrange(8)
                    V(bytes(c).hex(), x)
                V(b[:-1].hex(), x)
                V(b[1:].hex(), x)
            V((b + b"\0").hex(), x)
        # a digest of a message is another message
        import hashlib as h
        def digests(b):
            yield h.sha256(b).digest()
            yield h.sha256(h.sha256(b).digest()).digest()
            yield h.sha512(b).digest()
            yield h.sha512(b).digest()[:32]
            yield h.blake2b(b, digest_size=32).digest()
            yield h.blake2b(b, digest_size=28).digest()
            yield h.sha3_256(b).digest()
            yield keccak256(b)
            yield keccak256(b"\x19Ethereum Signed Message:\n" + str(len(b)).encode() + b)
            yield b"\x19Ethereum Signed Message:\n" + str(len(b)).encode() + b
            yield b"\x18Bitcoin Signed Message:\n" + bytes([len(b) & 255]) + b
            yield b.hex().encode()
            yield b"0x" + b.hex().encode()
            yield b + b
        for n in [0, 1, 20, 31, 32, 32, 33, 64]:
            b = g.r.randbytes(n)
            x = g.new("s")
            ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": b.hex(), "as": x})
            for d in digests(b):
                y = g.new("s")
                V(d.hex(), x)
                ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": d.hex(), "as": y})
                V(b.hex(), y)
        for n in (70001, 131073) if not t else (70001, 131073, 1 << 18, 1 << 20):
            b, x = g.r.randbytes(n), g.new("s")
            ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": b.hex(), "as": x})
            V(b.hex(), x)
            V((b[:-1] + bytes([b[-1] ^ 1])).hex(), x)
            V(b[:-1].hex(), x)
            V(b.hex(), x, s="5a" * 64)
        out += grouped_pre(f"lengths-{net}", ops[:3], ops[3:], 3)
    # what others would have signed, and other spellings
    for net in NETS:
        fx = [f for f in fixtures("sigs") if f["net"] == net]
        ops = [dict(ALL)] + keychain(fx[0]["seed"], "k", mgr=False)
        for f in fx:
            c = {"op": "kc.verify", "kc": "k", "net": net, "p": f["p"], "m": f["of"]}
            ops.append(dict(c, s=f["b"]))
            if f["kind"][:3] != "own" and net != ADA:
                ops.append(dict(c, s=f["b"][:128]))
        out.append(Script(f"foreign-{net}", ops))
    return out + c11_edges(t, g) + twins(g, NETS, sign=True)


def keccak256(b):
    M = (1 << 64) - 1
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    A = [[0] * 5 for _ in range(5)]
    b = bytearray(b) + b"\x01"
    b += bytes(-len(b) % 136)
    b[-1] |= 0x80
    RC, r = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1:
                c ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        RC.append(c)
    for o in range(0, len(b), 136):
        for i in range(17):
            A[i % 5][i // 5] ^= int.from_bytes(b[o + 8 * i: o + 8 * i + 8], "little")
        for c in RC:
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x - 1) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            B = [[0] * 5 for _ in range(5)]
            x, y, n = 1, 0, 0
            B[0][0] = A[0][0]
            for i in range(24):
                n = (i + 1) * (i + 2) // 2 % 64
                B[y][(2 * x + 3 * y) % 5] = rot(A[x][y], n)
                x, y = y, (2 * x + 3 * y) % 5
            A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & M & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            A[0][0] ^= c
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))


def grouped_pre(name, pre, ops, n, key="as"):
    return [Script(x.name, pre + x.ops) for x in grouped(name, ops, n, key)]


def c11_edges(t, g):
    """messages whose digests and signatures have leading zeros and the like"""
    ops, seen = [dict(ALL)], {}
    for e in corpus("edge-sigs.json"):
        if e["seed"] not in seen:
            seen[e["seed"]] = f"k{len(seen)}"
            ops += keychain(e["seed"], seen[e["seed"]], mgr=False)
        c = {"kc": seen[e["seed"]], "net": e["net"], "p": e["p"], "m": e["m"]}
        x = g.new("s")
        ops.append(dict(c, op="kc.sign", **{"as": x}))
        for tr in [{}, {"len": 64}, {"xorlast": 1}, {"twin": 1, "len": 64}, {"flip": g.r.randrange(512)}]:
            ops.append(dict(c, op="kc.verify", s=dict({"ref": x}, **tr)))
    return [Script("edges", ops)]


# ---------------------------------------------------------------------------------------- C12
def c12(t, s):
    g = G("C12", s, t)
    T = set()
    nums = ["0", "1", "44", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "99999999999", "18446744073709551616",
            "340282366920938463463374607431768211456", "00", "007", "+1", "+", "-1", "-0", "", " ", "1 ", " 1", "\t1\n", "1 2", "0x1", "1e3", "1.0",
            "\u0661", "１", "\u00b2", "a", "m", "²'", "1\u00a0", "\u30001", "\u200b1", "\ufeff1", "1_000", "1,000", "4294967295 ", "02147483648", "1_000_000", "2_147_483_647", "10,000,000", "1 000 000", "1.000.000", "1'000'000", "1000u32", "10000_u32", "0b101010", "0o7777777", "#1234567", "1234567.", "1234567;", "1e0000005"]
    hard = ["'", "", "''", " '", "h", "H", "\u2019", "`", "' ", "'1", "\u02bc", "\"", "′"]
    base = ["44'", "0'", "0'", "0", "0"]
    for i in range(5):
        for n in nums:
            for h in hard:
                if t or h in ("'", "") or g.r.random() < 0.25:
                    c = base[:]
                    c[i] = n + h
                    T.add("m/" + "/".join(c))
    for m in ["m", "M", "", " m", "m ", "m'", "n", "mm", "\u043c", "m\u0301", "０", "\u00a0m", "\u2003m\u2003", "'", "é", "\U0001F511", "m\0", "\0"]:
        T.add(m + "/44'/0'/0'/0/0")
    for k in range(0, 12):
        T.add("/".join(["m"] + ["1"] * k))
        T.add("/".join(["m"] + ["1'"] * k) + "/")
        T.add("/" * k)
    for k in (255, 256, 257, 260, 261, 262, 517, 65541):
        T.add("/".join(["m"] + ["1"] * k))
        T.add("/".join(["m"] + ["1'"] * 5 + [""] * (k - 5)))
    for k in (10, 200, 300, 5000):
        T.add("m/" + "0" * k + "44'/0'/0'/0/0")
        T.add("m/44'/0'/0'/0/" + "9" * k)
        T.add(" " * k + "m/44'/0'/0'/0/1" + "\t" * k)
    for x in ["", "m", "m/", "/", "//////", "m//////", "m/44'/60'/0'/0/0/", "/m/44'/60'/0'/0/0", "m\\44'\\60'\\0'\\0\\0", "44'/60'/0'/0/0", "m/44'/60'/0'/0",
              "m/44'/60'/0'/0/0/0", "m/44’/60’/0’/0/0", "m / 44' / 60' / 0' / 0 / 0", "m/44 '/60'/0'/0/0", "m/'/'/'/'/'", "m/é/é'/é/é/é", "m/\U0001F511'/0'/0'/0/0",
              "m/44'/0'/0'/0/0\0", "m/44\0'/0'/0'/0/0", "m/44'/0'/0'/0/0\n", "\nm/44'/0'/0'/0/0", "m/4294967295'/0'/0'/0/0", "m/2147483648'/0'/0'/0/0"]:
        T.add(x)
    # what looks like a separator or a mark, or stands for one elsewhere
    for x in ["\u2044", "\u2215", "\uff0f", "\\", "|", ":", "//", "/ ", " ", ".", ",", ";", "-", "\u29f8", "\u0338", "%2F", "%2f", "\\/", "/./", "\u200b", "/\u200b", "\n", "\0", "/\0", "\u001c", "\u2028"]:
        T.add("m/44'/0'/0'/0/0".replace("/", x))
        for i in range(5):
            T.add("".join(a + b for a, b in zip(["m", "44'", "0'", "0'", "0", "0"], ["/"] * i + [x] + ["/"] * (4 - i) + [""])))
    for x in ["\u2019", "\u2018", "\u02b9", "\u02bc", "\u2032", "\u00b4", "`", "\uff07", "\u055a", "\ua78c", "%27", "&#39;", "\\'", "\"", "h", "H", "*", "^", "!", "_", "p", "''", "'h", "h'", "\u0301", "'\u0301"]:
        for c in (["44X", "0X", "0X", "0", "0"], ["44'", "0'", "0X", "0", "0"], ["44X", "0'", "0'", "0", "0"], ["44'", "0'", "0'", "0", "0X"]):
            T.add("m/" + "/".join(c).replace("X", x))
    # round, repeated and remarkable numbers
    rn = {10 ** k + d for k in range(10) for d in (-1, 0, 1)} | {a * 10 ** k for a in range(1, 10) for k in range(10)} | {2 ** k + d for k in range(32) for d in (-1, 0, 1)} | {int(str(a) * k) for a in range(1, 10) for k in range(1, 11)} | {123456789, 987654321, 1234567890, 2147483640, 2000000000, 0x7f7f7f7f, 0x01020304}
    for n in sorted(x for x in rn if 0 <= x <= 0xFFFFFFFF):
        for h in ("", "'"):
            c = base[:]
            c[g.r.randrange(5)] = f"{n}{h}"
            T.add("m/" + "/".join(c))
    for zero in [0x660, 0x6F0, 0x966, 0xFF10, 0x1D7CE, 0x1D7F6, 0x2080, 0x2070, 0x2460 - 1, 0x3007, 0x0E50]:
        for n in ("0", "44", "1"):
            w = "".join(chr(zero + int(k)) for k in n)
            T.add(f"m/44'/{w}'/0'/0/0")
            T.add(f"m/44'/0'/0'/0/{w}")
    # of any class, in every position
    for _ in range(g.size(700, 12000)):
        c = []
        for i in range(5):
            k = g.r.random()
            if k < 0.5:
                c.append(str(g.pick([0, 1, H - 1, g.r.randrange(H), g.idx()])) + g.pick(["'", ""]))
            elif k < 0.7:
                c.append(str(g.pick([H, H + 1, 0xFFFFFFFF, g.r.getrandbits(32)])) + g.pick(["'", "", ""]))
            elif k < 0.9:
                c.append(g.pick(nums) + g.pick(hard))
            else:
                c.append("".join(g.pick("0123456789' +-m/éΩ語\U0001F511\u00a0\u2028\u0300\0\x85\x1f") for _ in range(g.r.randrange(5))))
        if g.r.random() < 0.3:
            c = [g.pick(["", " ", "\t", "\u2003"]) + x + g.pick(["", " ", "\n", "\u3000"]) for x in c]
        T.add("/".join([g.pick(["m"] * 9 + [" m ", "n", ""])] + c))
    for _ in range(g.size(100, 2000)):
        T.add("".join(chr(g.pick([g.r.randrange(0x20, 0x7f), g.r.randrange(0x80, 0x800), g.r.randrange(0x800, 0xD800), g.r.randrange(0x10000, 0x10FFFF)])) for _ in range(g.r.randrange(20))))
    ops = [{"op": "kp.parse", "t": tx(x)} for x in sorted(T)]
    g.r.shuffle(ops)
    return split("text", ops, g.size(4, 12))


# ---------------------------------------------------------------------------------------- C13
FNS = ["btc44", "btc49", "btc84", "eth", "ethmm", "ada"]


def c13(t, s):
    g = G("C13", s, t)
    big = [0, 1, 2, 255, 256, 0xFFFF, 0x10000, H - 2, H - 1, H, H + 1, 0xFFFFFFFE, 0xFFFFFFFF]
    chg = [0, 1, 2, 3, 255, 256, H - 1, H, H + 1, 0xFFFFFFFF]
    ops = []
    for f in FNS:
        for tn in [False, True]:
            for a, c, d in itertools.product(big, chg, big):
                if t or f[:3] != "eth" and g.r.random() < 0.12 or (a < 2 or a >= H - 1) and (c < 3) and g.r.random() < 0.5:
                    ops.append({"op": "kp.make", "fn": f, "testnet": tn, "a": u(a), "c": u(c), "d": u(d)})
        for _ in range(g.size(60, 1000)):
            ops.append({"op": "kp.make", "fn": f, "testnet": g.r.random() < 0.5, "a": u(g.r.getrandbits(g.pick([5, 31, 32]))), "c": u(g.pick([0, 1, g.r.getrandbits(32)])), "d": u(g.r.getrandbits(g.pick([5, 31, 32])))})
    g.r.shuffle(ops)
    out = split("make", ops, g.size(3, 8))
    # what a mainnet constructor returns, the network's key accepts
    for j in range(g.size(3, 8)):
        o = keychain(g.b(64))
        for f in FNS:
            net = BTC if f[:3] == "btc" else ADA if f == "ada" else ETH
            for _ in range(g.size(6, 30)):
                a, c, d = g.idx(), g.r.randrange(2), g.idx()
                o.append({"op": "kp.make", "fn": f, "testnet": False, "a": u(a), "c": u(c), "d": u(d), "as": "path"})
                p = {"btc44": [P44, BTC], "btc49": [P49, BTC], "btc84": [P84, BTC], "ada": [P44, ADA]}.get(f, [P44, ETH])
                p = p + ([u(H + a), u(c), u(d)] if net != ETH else [u(H + a), u(0), u(0)] if f == "eth" else [u(H), u(0), u(a)])
                o.append({"op": "kc.pub", "kc": "k", "net": net, "p": p})
        out.append(Script(f"accepted-{j}", o))
    return out


# ---------------------------------------------------------------------------------------- C14 - C16
def c14(t, s):
    g = G("C14", s, t)
    ops = []
    for n in SIZES:
        ents = [bytes(n), b"\xff" * n, b"\x80" * n, b"\x7f" * n, b"\x00" * (n - 1) + b"\x01", b"\x80" + bytes(n - 1)]
        ents += [g.r.randbytes(n) for _ in range(g.size(12, 150))]
        runs = []
        for k in range(1, n):                  # a run of one byte in front, at the end, in the middle
            for f in (0, 255):
                a = bytes([f]) * k
                b = bytes(g.r.choice([x for x in range(256) if x != f]) for _ in range(n - k))
                runs += [a + b, b + a] + [b[:len(b) // 2] + a + b[len(b) // 2:]] * t
        for i, e in enumerate(runs):
            ops.append({"op": "ent.from", "b": e.hex()})
            if t or i % 8 < 2:
                ops.append({"op": "words.ent", "w": words_of(e)})
        for e in ents:
            ops.append({"op": "ent.from", "b": e.hex()})
            w = words_of(e)
            ops.append({"op": "words.ent", "w": w})
            for l in (LANGS if t else g.r.sample(LANGS, 3)):
                ops.append({"op": "phrase.make", "lang": l, "b": e.hex()})
                ops.append({"op": "phrase.parse", "lang": l, "t": tx(phrase(l, e))})
            for _ in range(3):                  # checksum and entropy bits altered
                x = w[:]
                i = g.pick([0, len(w) - 1, len(w) - 1, g.r.randrange(len(w))])
                x[i] ^= 1 << g.r.randrange(11)
                ops.append({"op": "words.ent", "w": x})
            x = w[:-1] + [w[-1] ^ g.r.randrange(1, 1 << (n // 4))]
            ops.append({"op": "words.ent", "w": x})
        # every checksum value for one entropy
        w = words_of(g.r.randbytes(n))
        k = n // 4
        for c in range(1 << k) if t or k <= 4 else g.r.sample(range(1 << k), 12):
            ops.append({"op": "words.ent", "w": w[:-1] + [w[-1] >> k << k | c]})
    for n in list(range(0, 70)) + [96, 128, 255, 256, 1000]:
        ops.append({"op": "ent.from", "b": g.b(n)})
        ops.append({"op": "type.bits", "n": n})
        ops.append({"op": "type.bits", "n": 8 * n})
        ops.append({"op": "type.words", "n": n})
        ops.append({"op": "type.str", "t": tx(str(n))})
    for x in ["", " 12", "12 ", "+12", "012", "-12", "twelve", "12.0", "１２", "4294967308", "18446744073709551628", "é"]:
        ops.append({"op": "type.str", "t": tx(x)})
    for n in [65536 + 128, 2**31 - 1]:
        ops += [{"op": "type.bits", "n": n}, {"op": "type.words", "n": n}]
    for n in range(0, 30):
        ops.append({"op": "words.ent", "w": [g.r.randrange(2048) for _ in range(n)]})
        l = g.lang()
        ops.append({"op": "phrase.parse", "lang": l, "t": tx(" ".join(g.pick(DICT[l]) for _ in range(n)))})
    for i in [2047, 2048, 2049, 4095, 32767, 65535]:
        w = words_of(g.r.randbytes(16))
        w[g.r.randrange(12)] = i
        ops.append({"op": "words.ent", "w": w})
    # right but for 256 more, or a multiple
    for n in SIZES:
        for m in (256, 512, 1024, 65536):
            ops.append({"op": "ent.from", "b": g.b(n + m)})
            ops += [{"op": "type.bits", "n": 8 * n + m}, {"op": "type.bits", "n": 8 * (n + m)}, {"op": "type.words", "n": n * 3 // 4 + m}]
            if m < 65536 or n == 16:
                ops.append({"op": "words.ent", "w": (words_of(bytes(n)) * (m // 3 + 30))[: n * 3 // 4 + m]})
    g.r.shuffle(ops)
    return split("ent", ops, g.size(5, 12))


def words_of(e):
    bits = "".join(f"{b:08b}" for b in e) + "".join(f"{b:08b}" for b in hashlib.sha256(e).digest())
    return [int(bits[11 * i: 11 * i + 11], 2) for i in range(len(e) * 8 // 32 * 3)]


def nf(form):
    import unicodedata
    return lambda g, l, x: unicodedata.normalize(form, x)


ALTS = [lambda g, l, x: x.upper(), lambda g, l, x: x.capitalize(), lambda g, l, x: x + "s", lambda g, l, x: x[:-1], lambda g, l, x: x[:4],
        lambda g, l, x: "", lambda g, l, x: " " + x, lambda g, l, x: x + "\t", nf("NFC"), nf("NFKC"), lambda g, l, x: x + "\u0301",
        lambda g, l, x: g.pick(DICT[g.pick([k for k in LANGS if k != l])]), lambda g, l, x: "\u3000".join([x, x]), lambda g, l, x: x + "\n",
        lambda g, l, x: "abandonn", lambda g, l, x: "0", lambda g, l, x: x + "\0", lambda g, l, x: x.replace("e", "\u00e9"),
        lambda g, l, x: x[:3], lambda g, l, x: x + ",", lambda g, l, x: x + ".", lambda g, l, x: "\ufeff" + x, lambda g, l, x: x + "\u200b", lambda g, l, x: x + x,
        lambda g, l, x: str(DICT[l].index(x)), lambda g, l, x: str(DICT[l].index(x) + 1), lambda g, l, x: x[::-1], lambda g, l, x: x + "-", lambda g, l, x: '"' + x + '"',
        lambda g, l, x: "".join(c for c in x if not 0x300 <= ord(c) < 0x370), lambda g, l, x: x + "\r", lambda g, l, x: x[:1].upper() + x[1:2] + x[2:].upper(),
        lambda g, l, x: "".join(chr(ord(c) + 0x60) if 0x3041 <= ord(c) <= 0x3096 else c for c in x), lambda g, l, x: "".join(chr(ord(c) + 0xFEE0) if 33 <= ord(c) <= 126 else c for c in x),
        lambda g, l, x: x.replace("a", "\u0430").replace("e", "\u0435").replace("o", "\u043e"), lambda g, l, x: x + "\u200d", lambda g, l, x: x[:1] + "\u00ad" + x[1:], lambda g, l, x: x + "\ufe00",
        lambda g, l, x: x[:-2] + x[-1:] + x[-2:-1],
        # other ways to spell it
        lambda g, l, x: x.replace("oe", "\u0153").replace("ae", "\u00e6").replace("fi", "\ufb01").replace("ff", "\ufb00"), lambda g, l, x: x.replace("ss", "\u00df"),
        lambda g, l, x: x.replace("\u110b", ""), lambda g, l, x: "".join(c for c in x if c not in "\u3099\u309a"), lambda g, l, x: x.replace("i", "\u0131"), lambda g, l, x: x.replace("i", "\u0130"),
        lambda g, l, x: x.replace("l", "1").replace("o", "0"), lambda g, l, x: x.replace("ph", "f").replace("y", "i"), lambda g, l, x: x.replace("qu", "k").replace("c", "k"), lambda g, l, x: x.replace("v", "b"), lambda g, l, x: x.replace("u", "v"), lambda g, l, x: x.replace("z", "s"), lambda g, l, x: x.replace("or", "our"),
        lambda g, l, x: re.sub(r"([a-z])\1", r"\1", x), lambda g, l, x: re.sub(r"([bcdflmnprst])(?=[aeiou])", r"\1\1", x, count=1), lambda g, l, x: x[1:], lambda g, l, x: x[:len(x) // 2] + x[len(x) // 2 + 1:], lambda g, l, x: x[:-1] + "e", lambda g, l, x: x.rstrip("aeiou"),
        lambda g, l, x: unicodedata.normalize("NFKC", x).translate(KANA), lambda g, l, x: "".join(chr(0x3131 + JAMO.index(c)) if c in JAMO else c for c in x), lambda g, l, x: x.translate(SMALL), lambda g, l, x: x.replace("\u3046", "\u30fc"), lambda g, l, x: "-".join(x), lambda g, l, x: " ".join(x),
        lambda g, l, x: "/" + x, lambda g, l, x: "#" + x, lambda g, l, x: "*" + x, lambda g, l, x: x + "*", lambda g, l, x: x[:4] + "*", lambda g, l, x: x[:4] + ".", lambda g, l, x: "%04d" % DICT[l].index(x), lambda g, l, x: "%03x" % DICT[l].index(x), lambda g, l, x: "{:011b}".format(DICT[l].index(x)),
        lambda g, l, x: x + "1", lambda g, l, x: x[:8], lambda g, l, x: x[:5], lambda g, l, x: x[:6], lambda g, l, x: x[:7], lambda g, l, x: x.title().swapcase(), lambda g, l, x: "the " + x, lambda g, l, x: x + "es", lambda g, l, x: x + "ing"]
JAMO = "\u1100\u1101\u11aa\u1102\u11ac\u11ad\u1103\u1104\u1105"
KANA = {ord(c): h for c, h in zip("\u3042\u3044\u3046\u3048\u304a\u304b\u304d\u304f\u3051\u3053\u3055\u3057\u3059\u305b\u305d\u305f\u3061\u3064\u3066\u3068", "\uff71\uff72\uff73\uff74\uff75\uff76\uff77\uff78\uff79\uff7a\uff7b\uff7c\uff7d\uff7e\uff7f\uff80\uff81\uff82\uff83\uff84")}
SMALL = {0x3083: 0x3084, 0x3085: 0x3086, 0x3087: 0x3088, 0x3063: 0x3064}


def bad_words(g, l, w, k=None):
    """one word replaced by something like it, in the given way or some way"""
    i, x = like(g, l, w, k)
    return w[:i] + [x] + w[i + 1:]


def like(g, l, w, k=None):
    """something like one of the words, and which one; not the same if that can be had"""
    alt = g.pick(ALTS) if k is None else ALTS[k]
    for i in g.r.sample(range(len(w)), len(w)):
        x = alt(g, l, w[i])
        if x != w[i]:
            break
    return i, x


def c15(t, s):
    g = G("C15", s, t)
    ops = []
    passes = ["", "61", "54524f5a4f52", tx("パスワード"), tx("e\u0301"), "00", "6100", "61" * 200, "ff", "fffe", g.b(40)]
    for i in range(g.size(140, 1500)):
        l = LANGS[i % 8]
        w = phrase(l, g.ent()).split(" ")
        k = g.r.random()
        if k < 0.25:
            w = bad_words(g, l, w)
        elif k < 0.35:
            w = [g.pick(DICT[l]) for _ in range(g.pick([0, 1, 3, 6, 8, 9, 10, 11, 12, 13, 15, 16, 18, 21, 23, 24, 25, 27, 30, 48]))]
        elif k < 0.5:
            w = [g.pick(DICT[l]) for _ in w]        # no regard for the checksum
        sep = g.pick([" "] * 12 + ["  ", "\u3000", "\n", "\t", "\u00a0", ", ", ""])
        x = sep.join(w)
        x = g.pick([""] * 12 + [" ", "\n"]) + x + g.pick([""] * 12 + [" ", "\n"])
        ops.append({"op": "phrase.parse", "lang": l, "t": tx(x)})
        ops.append({"op": "phrase.seed", "lang": l, "t": tx(x), "pass": g.pick(passes)})
        if k < 0.1:
            ops.append({"op": "phrase.seed", "lang": g.lang(), "t": tx(x), "pass": ""})
    # the longest and the shortest phrases, passphrases of many lengths
    for l in LANGS:
        by = sorted(DICT[l], key=lambda w: (len(w.encode()), w))
        for ws in (by[-24:], by[:24], [by[-1]] * 24, [by[0]] * 12, by[-12:], by[-15:]):
            ws = ws[:]
            g.r.shuffle(ws)
            x = " ".join(ws)
            ops.append({"op": "phrase.parse", "lang": l, "t": tx(x)})
            ops.append({"op": "phrase.seed", "lang": l, "t": tx(x), "pass": g.b(g.pick([0, 1, 3, 55, 111, 112, 119, 120, 121, 247, 248, 300, 1000]))})
        for n in [8, 16, 21, 24, 32, 56, 64, 100, 120, 128, 256, 500] if t else g.r.sample([8, 16, 21, 24, 32, 56, 64, 100, 120, 128, 256, 500], 3):
            ops.append({"op": "phrase.seed", "lang": l, "t": tx(phrase(l, g.ent())), "pass": g.pick([g.b(n), "20" * n, "00" * n])})
    for n in (255, 256, 1000, 4096, 5000, 65537):
        l = g.lang()
        w = phrase(l, g.ent(16)).split(" ")
        w[g.r.randrange(12)] = g.pick([g.pick(DICT[l])[:1] * n, "z" * n, g.pick(DICT[l]) + "\u0301" * n])
        ops.append({"op": "phrase.parse", "lang": l, "t": tx(" ".join(w))})
    # every kind of wrong word once in every language
    for l in LANGS:
        for k in range(len(ALTS)):
            for _ in range(1 if not t else 8):
                w = phrase(l, g.ent(16)).split(" ")
                x = " ".join(bad_words(g, l, w, k))
                ops.append({"op": "phrase.parse", "lang": l, "t": tx(x)})
                ops.append({"op": "phrase.seed", "lang": l, "t": tx(x), "pass": ""})
    # very long ones
    for n in [250, 256, 265, 268, 271, 280, 512 + 12] + ([65536 + 12] if t else []):
        l = g.lang()
        w = [g.pick(DICT[l]) for _ in range(n)] if n < 60000 else [DICT[l][0]] * n
        for x in (w, w[:-1] + ["?"]):
            ops.append({"op": "phrase.parse", "lang": l, "t": tx(" ".join(x))})
    for n in range(0, 130, 1 if t else 7):
        ops.append({"op": "seed.from", "b": g.b(n)})
    ops += [{"op": "seed.from", "b": g.b(n)} for n in (63, 64, 65, 320, 576, 65600)]
    out = split("phrase", ops, g.size(4, 10))
    # one after the other: phrases and passphrases that are alike in part
    ops = []
    for j in range(g.size(10, 60)):
        l, n = LANGS[j % 8], g.pick([12, 12, 15, 18, 21, 24])
        a = phrase(l, g.ent(n * 4 // 3)).split(" ")
        kin = [a[::-1], a[1:] + a[:1], sorted(a)]
        for end in (False, True):
            kin.append(a)
            for k in (1, n // 2, n - 2, n - 1):
                c = [g.pick(DICT[l]) for _ in a[k:]]
                b = c + a[n - k:] if end else a[:k] + c
                i = n - 1 if b[:1] == a[:1] else 0      # some word that makes it one
                for _ in range(4000):
                    if accepted(l, b):
                        break
                    b[i] = g.pick(DICT[l])
                kin.append(b)
        p = g.pick(passes)
        for b in kin:
            ops.append({"op": "phrase.seed", "lang": l, "t": tx(" ".join(b)), "pass": p})
        w = g.pick(kin[3:])
        for q in ["", p + "00", p + "20", p[2:], p + p, "6d6e656d6f6e6963" + p] + ["6d6e656d6f6e6963"] + [x for v in g.r.sample(respelt(g), 1) for x in [tx(v[0])] + [tx(y) for y in g.r.sample(v[1], 3)]]:
            ops.append({"op": "phrase.seed", "lang": l, "t": tx(" ".join(w)), "pass": q})
    out.append(Script("kin", ops))
    # through managers: exact word count, generated phrases come back
    for j in range(g.size(3, 10)):
        o = [dict(ALL)] + [{"op": "mgr.new", "id": f"q{m}", "how": "facts", "f": [{"net": "0000beef", "min": m, "max": 512, "kind": "echo"}]} for m in (96, 128, 160, 192, 224, 256, 100, 288)]
        ids = ["m"] + [f"q{m}" for m in (96, 128, 160, 192, 224, 256)]
        for i in range(g.size(12, 40)):
            m, l, x = g.pick(ids), LANGS[(i + j) % 8], g.new("g")
            ops_ = {"op": "mgr.gen", "id": m, "lang": l, "as": x}
            if l == "English" and g.r.random() < 0.5:
                ops_["nolang"] = True
            o.append(ops_)
            d = g.new("d")
            o.append({"op": "mgr.mnem", "id": m, "t": {"ref": x}, "lang": l, "pw": "61", "out": d})
            o.append({"op": "mgr.retr", "id": m, "in": d, "pw": "61"})
            k, net = g.new("k"), g.pick(NETS) if m == "m" else "0000beef"
            o += [{"op": "mgr.open", "id": m, "in": d, "pw": "61", "kc": k}, {"op": "kc.pub", "kc": k, "net": net, "p": [P44, net, u(H), u(0), u(0)]}]
            o.append({"op": "phrase.parse", "lang": l, "t": {"ref": x}})
            l2 = g.lang()
            w = phrase(l2, g.ent()).split(" ")
            if g.r.random() < 0.3:
                w = bad_words(g, l2, w)
            o.append({"op": "mgr.mnem", "id": g.pick(ids + ["q100", "q288"]), "t": tx(" ".join(w)), "lang": l2, "pw": "61", "out": g.new("z")})
            if g.r.random() < 0.2:
                o.append({"op": "mgr.gen", "id": g.pick(["q100", "q288"]), "lang": l})
        out.append(Script(f"manager-{j}", o))
    # a manager is no laxer than the phrase itself
    o = [dict(ALL), {"op": "mgr.new", "id": "q", "how": "facts", "f": [{"net": "0000beef", "min": 128, "max": 512, "kind": "echo"}]}]
    ends = ["\0", "\ufeff", "\n", "\r\n", " ", "\t", "\u3000", "\u00a0", "\u200b", ".", ",", "\u0000\u0000"]
    for l in LANGS:
        xs = [" ".join(bad_words(g, l, phrase(l, g.ent(16)).split(" "), k)) for k in range(len(ALTS))]
        xs += [phrase(x, g.ent(16)) for x in LANGS if x != l]
        for e in ends if t else g.r.sample(ends, 7):
            x = phrase(l, g.ent(16))
            xs += [x + e, e + x, x.replace(" ", e), x.replace(" ", " " + e, 1), x.replace(" ", e + " ", 1)]
        for i, x in enumerate(xs):
            o.append({"op": "mgr.mnem", "id": "q" if i % 3 else "m", "t": tx(x), "lang": l, "pw": "61", "out": "z"})
            o.append({"op": "phrase.parse", "lang": l, "t": tx(x)})
    for l, l2, x, _ in shared_phrases(g, 12):
        for y in (l, l2):
            o.append({"op": "phrase.parse", "lang": y, "t": tx(x)})
            o.append({"op": "phrase.seed", "lang": y, "t": tx(x), "pass": ""})
    # the same word all over, or two in turn
    for l in LANGS:
        for n in ((12, 15, 18, 21, 24) if t else g.r.sample((12, 15, 18, 21, 24), 2)):
            i0, got = g.r.randrange(2048), 0
            for i in range(2048):
                w = DICT[l][(i0 + i * 5) % 2048]
                for x in ([w] * n, ([w, DICT[l][i0]] * n)[:n]):
                    if accepted(l, x):
                        x = " ".join(x)
                        o += [{"op": "mgr.mnem", "id": "q" if n == 12 else "m", "t": tx(x), "lang": l, "pw": "61", "out": "e"}, {"op": "mgr.retr", "id": "q" if n == 12 else "m", "in": "e", "pw": "61"}]
                        o += [{"op": "mgr.open", "id": "q" if n == 12 else "m", "in": "e", "pw": "61", "kc": f"u{n}{l}{got}"}, {"op": "kc.pub", "kc": f"u{n}{l}{got}", "net": "0000beef" if n == 12 else g.pick(NETS), "p": [P44, BTC, u(H), u(0), u(0)]}]
                        o += [{"op": "phrase.parse", "lang": l, "t": tx(x)}, {"op": "phrase.seed", "lang": l, "t": tx(x), "pass": ""}]
                        got += 1
                if got >= 3:
                    break
    out.append(Script("lax", o))
    return out


def c16(t, s):
    g = G("C16", s, t)
    out = []
    for l in LANGS:
        ops = [{"op": "dict.all", "lang": l}, {"op": "dict.info", "lang": l}]
        for i in range(2048):
            if t or i % 4 == s % 4 or i < 8 or i > 2040:
                ops.append({"op": "dict.index", "lang": l, "t": tx(DICT[l][i])})
        for i in [0, 1, 1023, 1024, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 8191, 32767, 32768, 65534, 65535] + [g.r.randrange(65536) for _ in range(g.size(40, 2000))]:
            ops.append({"op": "dict.word", "lang": l, "i": i})
        for k in range(len(ALTS)):          # words like a word
            for _ in range(g.size(4, 60)):
                ops.append({"op": "dict.index", "lang": l, "t": tx(like(g, l, g.r.sample(DICT[l], 300), k)[1])})
        # with a letter more, of every kind
        letters = sorted({c for w in DICT[l] for c in w})
        for c in letters if len(letters) < 300 else g.r.sample(letters, g.size(30, 300)):
            for _ in range(g.size(2, 20)):
                w = g.pick(DICT[l])
                k = g.r.randrange(len(w) + 1)
                ops.append({"op": "dict.index", "lang": l, "t": tx(w[:k] + c + w[k:])})
        out.append(Script(l, ops))
    # chosen by the right language, through managers too
    ops = [dict(ALL)]
    for l in LANGS:
        for _ in range(g.size(2, 10)):
            ops += [{"op": "mgr.gen", "id": "m", "lang": l, "as": "g"}, {"op": "phrase.parse", "lang": l, "t": {"ref": "g"}}]
    out.append(Script("languages", ops))
    return out


# ---------------------------------------------------------------------------------------- C17
def c17(t, s):
    g = G("C17", s, t)
    ops = []
    for n in range(0, g.size(60, 200)):
        for vals in [[0] * n, [2047] * n, [1024] * n, [1] * n, [g.r.randrange(2048) for _ in range(n)], [2047 if i % 2 else 0 for i in range(n)]]:
            ops.append({"op": "bits.write", "v": vals})
            ops.append({"op": "bits.read", "b": pack11(vals)})
    for n in range(0, g.size(60, 300)):
        for b in [b"\0" * n, b"\xff" * n, g.r.randbytes(n), b"\xaa" * n, b"\x01" * n]:
            ops.append({"op": "bits.read", "b": b.hex()})
    for k in range(24):                          # every value at some alignment, a few at every one
        for v in ([1 << i for i in range(11)] if not t else range(2048)):
            ops.append({"op": "bits.write", "v": [0] * k + [v]})
    for v in range(0, 2048):
        if t or v % 8 == s % 8:
            ops.append({"op": "bits.write", "v": [g.r.randrange(2048), v, g.r.randrange(2048)]})
    for n in [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 8191, 8192] + ([11264, 65535, 65536] if t else []):
        ops += [{"op": "bits.write", "v": [g.r.randrange(2048) for _ in range(n)]}, {"op": "bits.write", "v": [2047] * n}]
        ops += [{"op": "bits.read", "b": g.b(n)}, {"op": "bits.read", "b": "ff" * n}]
    g.r.shuffle(ops)
    return split("bits", ops, g.size(4, 10))


def pack11(v):
    bits = "".join(f"{x:011b}" for x in v)
    bits += "0" * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)).hex()


# ---------------------------------------------------------------------------------------- C18, C19
def c_calls(g, ops, n, seeds, live, bad=True):
    """a random history through the C interface, beside Rust"""
    def add(**o):
        ops.append(dict(o, viac=True))
    for _ in range(n):
        k = g.r.random()
        d = g.pick(live["d"]) if live["d"] else None
        if k < 0.06 or d is None:
            nd = g.new("d")
            pw = g.pick(["61", "", tx("é"), "6162"])
            if g.r.random() < 0.5:
                add(op="mgr.seed", id="m", seed=g.pick(seeds), pw=pw, out=nd)
            else:
                l = g.lang()
                add(op="mgr.mnem", id="m", t=tx(phrase(l, g.ent(16))), lang=l, pw=pw, out=nd)
            live["d"].append((nd, pw))
        elif k < 0.10:
            add(op="mgr.seed", id="m", seed=g.b(g.pick([0, 1, 63, 65])), pw="61", out=g.new("z"))
        elif k < 0.14:
            l = g.lang()
            w = bad_words(g, l, phrase(l, bytes(16)).split(" ")) if g.r.random() < 0.5 else phrase(l, g.ent()).split(" ")
            x = " ".join(w).replace("\0", "")
            add(op="mgr.mnem", id="m", t=tx(x), lang=l, pw="61", out=g.new("z"))
        elif k < 0.18:
            add(op="mgr.gen", id="m", lang=g.lang())
        elif k < 0.20:
            add(op="mgr.gen", id="m", lang="English", nolang=True)
        elif k < 0.24:
            add(op="mgr.has", id="m", net=g.pick(NETS + ["00000000", "0000003c"]))
        elif k < 0.34:
            pw = d[1] if g.r.random() < 0.7 else "7a7a"
            kc = g.new("k")
            add(op="mgr.open", id="m", **{"in": d[0]}, pw=pw, kc=kc)
            if pw == d[1]:
                live["k"].append(kc)
        elif k < 0.40:
            pw = d[1] if g.r.random() < 0.7 else "7a7a"
            nd, np = g.new("d"), g.pick(["61", "", tx("ü")])
            add(op="mgr.chpw", id="m", **{"in": d[0]}, pw=pw, npw=np, out=nd)
            if pw == d[1]:
                live["d"].append((nd, np))
        elif k < 0.45:
            add(op="mgr.add", id="m", **{"in": d[0]}, pw=g.pick([d[1], "7a7a"]), net=g.pick(NETS + ["00000001"]), out=g.new("z"))
        elif k < 0.50:
            add(op="mgr.keys", id="m", **{"in": d[0]}, pw=g.pick([d[1], d[1], "7a7a"]))
        elif k < 0.55:
            add(op="mgr.retr", id="m", **{"in": d[0]}, pw=g.pick([d[1], d[1], "7a7a"]))
        elif k < 0.60:
            fn = g.pick(FNS)
            add(op="kp.make", fn=fn, testnet=g.r.random() < 0.5, a=u(g.pick([0, 5, H - 1, H, 0xFFFFFFFF])), c=u(g.pick([0, 1, 2])), d=u(g.pick([0, H - 1, H])))
        elif k < 0.64:
            add(op="kp.parse", t=tx(g.pick(["m/44'/0'/0'/0/0", "m/44'/60'/2147483647'/1/4294967295", "", "x", "m/é/0/0/0/0", "m/1/2/3/4", "m/2147483648'/0/0/0/0", "m/0/0/0/0/+9", "é", "m/0/0/0/0/\U0001F511"])))
        elif k < 0.67:
            nd = g.new("y")
            ops.append({"op": "put", "out": nd, "b": g.b(g.pick([0, 1, 59, 60, 61, 200])), "viac": True})
            for o in ["open", "keys", "retr", "chpw", "add"]:
                if g.r.random() < 0.5:
                    add(op="mgr." + o, id="m", **{"in": nd}, pw="61", **{"open": {"kc": g.new("z")}, "chpw": {"npw": "", "out": g.new("z")}, "add": {"net": BTC, "out": g.new("z")}}.get(o, {}))
        elif k < 0.70 and bad:
            call = g.pick(["mgr.has", "mgr.gen", "mgr.seed", "mgr.mnem", "mgr.mnem.pw", "mgr.open", "mgr.add", "mgr.chpw", "mgr.chpw.new", "mgr.keys", "mgr.retr", "kc.nets", "kc.pub", "kc.sign", "kc.verify", "kp.parse"])
            how = "null" if call in ("mgr.has", "mgr.gen", "kc.nets", "kc.pub", "kc.sign", "kc.verify") else "text" if call == "kp.parse" else g.pick(["null", "text"])
            ops.append({"op": "c.bad", "call": call, "how": how, "id": "m", "in": d[0], "pw": d[1]})
        elif live["k"]:
            kc = g.pick(live["k"])
            net = g.pick(NETS)
            p = g.path(net) if g.r.random() < 0.7 else [g.pick([P44, P49, "0000002c"]), g.pick(NETS + ["80000001"]), u(g.pick([0, H])), u(g.pick([0, 1, 2])), u(g.pick([0, H]))]
            o = g.pick(["nets", "pub", "sign", "verify", "miss"])
            if o == "nets":
                add(op="kc.nets", kc=kc)
            elif o == "pub":
                add(op="kc.pub", kc=kc, net=net, p=p)
            elif o == "sign":
                add(op="kc.sign", kc=kc, net=net, p=p, m=g.pick(["", g.msg()]))
            elif o == "verify":
                x, m = g.new("s"), g.pick(["", g.msg()])
                add(**{"op": "kc.sign", "kc": kc, "net": net, "p": p, "m": m, "as": x})
                add(op="kc.verify", kc=kc, net=net, p=p, m=m, s=g.pick([{"ref": x, "len": 64}, {"ref": x, "flip": 9, "len": 64}, {"ref": x}, {"ref": x, "len": 10}, {"ref": x, "len": 0}]) if p == g.path(net) or True else "")
            else:
                add(op="kc.pub", kc=kc, net="00000001", p=p)


def c18(t, s):
    g = G("C18", s, t)
    out = []
    for j in range(g.size(7, 24)):
        ops = [dict(ALL, viac=True), {"op": "net.all", "viac": True}]
        if j % 2:
            ops.insert(0, {"op": "c.hide"})
        c_calls(g, ops, g.size(55, 150), [g.b(64), "00" * 64], {"d": [], "k": []})
        out.append(Script(f"c-{j}", ops, ledger=True))
    # all errors once: data errors of every kind, damaged keys, short data
    ops = [dict(ALL, viac=True)]
    for fx in (fixtures("docs") + fixtures("keys"))[:: 1 if t else 6]:
        d = g.new("d")
        ops.append({"op": "put", "out": d, "b": fx["b"], "viac": True})
        if fx.get("nul"):
            continue
        for o in g.r.sample(["open", "keys", "retr", "add"], 2):
            ops.append(dict({"op": "mgr." + o, "id": "m", "in": d, "pw": fx["pw"], "viac": True}, **{"open": {"kc": g.new("k")}, "add": {"net": ADA, "out": g.new("z")}}.get(o, {})))
    ops = [o for o in ops if "\0" not in o.get("pw", "") and "00" not in [o.get("pw", "")[i:i + 2] for i in range(0, len(o.get("pw", "")), 2)]]
    for i, ch in enumerate(chunks(ops[1:], 120)):
        out.append(Script(f"fx-{i}", [ops[0]] + ch, ledger=True))
    # signatures of all lengths, with and without a message; paths marked in every way
    C = lambda **o: dict(o, viac=True)
    ops = [C(**ALL), C(op="mgr.seed", id="m", seed=g.b(64), pw="61", out="d"), C(op="mgr.open", id="m", pw="61", kc="k", **{"in": "d"})]
    for net in NETS:
        for m in ("", g.b(5)):
            p, x = g.path(net), g.new("s")
            c = {"kc": "k", "net": net, "p": p, "m": m}
            ops.append(C(op="kc.sign", **dict(c, **{"as": x})))
            for tr in [{}] + [{"len": n} for n in (0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 67, 69, 70, 71, 72, 73, 74, 80, 96, 127, 128, 129, 130, 255, 256, 320)] + [{"set": [64, v]} for v in (0, 1, 2, 3, 4, 27, 28, 255) if net != ADA] + [
                    {"flip": g.r.randrange(512)}, {"app": "00"}, {"app": "0000"}, {"pre": "00"}, {"cutl": 1}]:
                ops.append(C(op="kc.verify", **dict(c, s=dict({"ref": x}, **tr))))
    for k in range(64):
        b = [44, g.pick([0, 60, 1815]), g.idx(), k & 1, g.idx()]
        p = [u(v + (H if (k >> (i + 1)) & 1 else 0)) for i, v in enumerate(b)]
        ops.append(C(op="kc.pub", kc="k", net=g.pick(NETS), p=p))
        ops.append(C(op="kp.parse", t=tx("m/" + "/".join(str(v) + ("'" if (k >> (i + 1)) & 1 else "") for i, v in enumerate(b)))))
    for k in range(32):
        net = NETS[k % 3]
        p = g.path(net)
        i = k % 5
        p[i] = u(int(p[i], 16) ^ g.pick([H, H, 1, 0x10000, 0x100]))
        ops.append(C(op=g.pick(["kc.pub", "kc.sign", "kc.verify"]), kc="k", net=net, p=p, m="61", s="11" * 64))
    out.append(Script("widths", ops, ledger=True))
    # what is signed may end in zeros, or be nothing else
    ops = [C(**ALL), C(op="mgr.seed", id="m", seed=g.b(64), pw="61", out="d"), C(op="mgr.open", id="m", pw="61", kc="k", **{"in": "d"})]
    for net in NETS:
        for a, b in (("", "00"), ("", "0000"), ("", "00" * 32), (g.b(9), "00"), (g.b(32), "0000"), (g.b(31), "00000000"), ("00", g.b(5)), (g.b(5) + "0a", ""), (g.b(5) + "20", ""), (g.b(3) + "00" + g.b(3), "")):
            c = {"kc": "k", "net": net, "p": g.path(net), "m": a + b}
            x = g.new("s")
            ops += [C(op="kc.sign", **dict(c, **{"as": x})), C(op="kc.verify", **dict(c, s={"ref": x})), C(op="kc.verify", **dict(c, m=a + b + "00", s={"ref": x}))]
            if a + b:
                ops.append(C(op="kc.verify", **dict(c, m=(a + b)[:-2], s={"ref": x})))
    # what is said is said whole
    for n in (120, 250, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2047, 4096, 9000):
        l = g.lang()
        w = phrase(l, g.ent(32)).split(" ")
        w[g.r.randrange(24)] = (g.pick(["z", "\u00e9", "\u3042", "\U0001F511"]) * n)[:n]
        ops.append(C(op="mgr.mnem", id="m", t=tx(" ".join(w)), lang=l, pw="61", out="z"))
        ops.append(C(op="kp.parse", t=tx(g.pick(["m/", "", "m/44'/", "z"]) + g.pick(["9", "z", "\u00e9"]) * n)))
    out.append(Script("ends", ops, ledger=True))
    # long arguments arrive whole
    C = lambda **o: dict(o, viac=True)
    pw = "61" * 70001
    ops = [C(**ALL), C(op="mgr.seed", id="m", seed=g.b(64), pw=pw, out="d"), C(op="mgr.open", id="m", pw=pw, kc="k", **{"in": "d"}),
           C(op="mgr.open", id="m", pw=pw + "61", kc="k2", **{"in": "d"}), C(op="mgr.open", id="m", pw=pw[:-2], kc="k2", **{"in": "d"})]
    for net, n in zip(NETS, ((1 << 20) + 9, 65537, 131072)):
        m, p = g.b(n), g.path(net)
        ops += [C(op="kc.sign", kc="k", net=net, p=p, m=m, **{"as": net}), C(op="kc.verify", kc="k", net=net, p=p, m=m, s={"ref": net}),
                C(op="kc.verify", kc="k", net=net, p=p, m=m[:-2], s={"ref": net}), C(op="kc.verify", kc="k", net=net, p=p, m="00", s={"ref": net, "app": g.b(n)})]
    ops += [C(op="put", out="e", b=g.b((1 << 20) + 9)), C(op="mgr.keys", id="m", pw="61", **{"in": "e"}),
            C(op="mgr.seed", id="m", seed=g.b(65536 + 64), pw="61", out="z"), C(op="mgr.seed", id="m", seed=g.b((1 << 20) + 64), pw="61", out="z"),
            C(op="mgr.mnem", id="m", t=tx(" ".join([DICT["English"][0]] * 13000)), lang="English", pw="61", out="z")]
    out.append(Script("long", ops, ledger=True))
    return out


def c19(t, s):
    g = G("C19", s, t)
    out = []
    for j in range(g.size(7, 24)):
        ops = [dict(ALL, viac=True), {"op": "c.hide"}]
        for k in ["mgr", "kc", "data", "str", "nets", "backup", "mnem", "err"]:
            ops.append({"op": "c.null", "kind": k})
        live = {"d": [], "k": []}
        for r in range(g.size(4, 8)):
            c_calls(g, ops, g.size(14, 30), [g.b(64), "ff" * 64], live)
            ops.append({"op": "c.delall", "order": g.r.randrange(1000), "part": g.r.randrange(1, 20)})
            ops.append({"op": "c.null", "kind": g.pick(["mgr", "kc", "data", "str", "nets", "backup", "mnem", "err"])})
        ops.append({"op": "c.delall", "order": g.r.randrange(1000)})
        ops.append({"op": "c.end"})
        # and once more after everything is gone
        ops.append(dict(ALL, viac=True))
        c_calls(g, ops, 5, [g.b(64)], {"d": [], "k": []})
        ops += [{"op": "c.delall", "order": 3}, {"op": "c.end"}]
        out.append(Script(f"heap-{j}", ops, ledger=True))
    # objects with nothing in them, or with a lot
    fxs = [f for f in fixtures("keys")[:: 1 if t else 5] + [f for f in fixtures("docs") if f["good"]][:: 1 if t else 4]
           if not f.get("nul") and "00" not in [f["pw"][i:i + 2] for i in range(0, len(f["pw"]), 2)]]
    bare = [f for f in fixtures("docs") if f["kind"] in ("half", "odd") and not f.get("nul") and f["pw"] in ("", "61")]
    for i in range(5):
        ops = [dict(ALL, viac=True)]
        for fx in fxs[i::4] if i < 4 else bare:
            d = g.new("d")
            ops.append({"op": "put", "out": d, "b": fx["b"], "viac": True})
            ops.append({"op": "mgr.keys", "id": "m", "in": d, "pw": fx["pw"], "viac": True})
            kc = g.new("k")
            ops.append({"op": "mgr.open", "id": "m", "in": d, "pw": fx["pw"], "kc": kc, "viac": True})
            ops.append({"op": "kc.nets", "kc": kc, "viac": True})
            ops.append({"op": "mgr.retr", "id": "m", "in": d, "pw": fx["pw"], "viac": True})
        ops += [{"op": "c.delall", "order": i}, {"op": "c.end"}]
        out.append(Script(f"sizes-{i}", ops, ledger=True))
    return out


# ---------------------------------------------------------------------------------------- C20
def c20(t, s):
    g = G("C20", s, t)
    out = []
    for prof in ["debug", "release"]:
        for j in range(g.size(2, 6)):
            ops = []
            for kind, n in [("ent", k) for k in SIZES] + [("seed", 64)]:
                for place in ["box", "own", "vec", "place"]:
                    o = g.new("o")
                    ops.append({"op": "wipe.new", "o": o, "kind": kind, "place": place, "b": g.b(n)})
                    ops.append({"op": "wipe.drop", "o": o})
                for place in ["box", "own", "vec", "place"]:
                    for unwind in (False, True):
                        for _ in range(g.size(4, 12)):
                            o = g.new("o")
                            ops.append({"op": "wipe.new", "o": o, "kind": kind, "place": place, "b": g.b(n)})
                            ops.append({"op": "wipe.drop", "o": o, "unwind": unwind})
                    for _ in range(g.size(3, 12)):          # by another thread
                        o = g.new("o")
                        ops.append({"op": "wipe.new", "o": o, "kind": kind, "place": place, "b": g.b(n)})
                        ops.append({"op": "wipe.drop", "o": o, "thread": True})
                    # secrets that begin, or end, or both, in some special way
                    for e in (("00", "00"), ("00", ""), ("", "00"), ("ff", "ff"), ("0000", "0000"), ("01", "01")):
                        o, k = g.new("o"), n - (len(e[0]) + len(e[1])) // 2
                        ops.append({"op": "wipe.new", "o": o, "kind": kind, "place": place, "b": e[0] + g.b(k) + e[1]})
                        ops.append({"op": "wipe.drop", "o": o})
                for _ in range(g.size(5, 12)):
                    ops.append({"op": "wipe.dead", "kind": kind, "b": g.b(n)})
                live = [g.new("o")]
                ops.append({"op": "wipe.new", "o": live[0], "kind": kind, "place": g.pick(["box", "own", "vec", "place"]), "b": g.b(n)})
                for _ in range(g.size(12, 60)):
                    k = g.r.random()
                    if k < 0.4 or len(live) < 2:
                        o = g.new("o")
                        ops.append({"op": "wipe.clone", "from": g.pick(live), "o": o, "place": g.pick(["box", "own", "vec", "place"])})
                        live.append(o)
                    elif k < 0.65:
                        ops.append({"op": "wipe.read", "o": g.pick(live)})
                    else:
                        o = live.pop(g.r.randrange(len(live)))
                        ops.append({"op": "wipe.drop", "o": o})
                g.r.shuffle(live)
                ops += [{"op": "wipe.drop", "o": o} for o in live]
            out.append(Script(f"wipe-{prof}-{j}", ops, profile=prof, ledger=True))
    return out


# ---------------------------------------------------------------------------------------- C21
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def serial(depth, fp, idx, cc, k):
    b = bytes([depth]) + fp + struct.pack(">I", idx) + cc + k
    return (b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]).hex()


def c21(t, s):
    g = G("C21", s, t)
    out, ops = [], []
    for i in range(g.size(25, 200)):
        d = g.pick([0, 1, 2, 127, 128, 253, 254, 255, g.r.randrange(256)])
        k = g.pick([1, 2, N - 1, N - 2, N // 2, 2**128, 2**248 - 1, g.r.getrandbits(256) % (N - 1) + 1, g.r.getrandbits(240) + 1])
        x = serial(d, g.r.randbytes(4), g.pick([0, 1, H - 1, H, H + 1, 0xFFFFFFFF, g.r.getrandbits(32)]), g.r.randbytes(32), k.to_bytes(32, "big"))
        ops.append({"op": "xprv.load", "d": x})
        path = [u(g.pick([0, 1, H - 1, H, H + 1, 0xFFFFFFFE, 0xFFFFFFFF, g.r.getrandbits(32)])) for _ in range(g.r.randrange(1, 6))]
        ops.append({"op": "xprv.derive", "d": x, "path": path})
        for _ in range(2):
            b = bytearray(bytes.fromhex(x))
            b[g.r.randrange(77)] ^= 1 << g.r.randrange(8)
            ops.append({"op": "xprv.load", "d": b.hex()})
    for k in [0, N, N + 1, 2**256 - 1, N + 2**32]:
        x = serial(0, bytes(4), 0, g.r.randbytes(32), k.to_bytes(32, "big"))
        ops.append({"op": "xprv.load", "d": x})
    x = serial(3, g.r.randbytes(4), 5, g.r.randbytes(32), (12345).to_bytes(32, "big"))
    for n in list(range(0, 80, 1 if t else 4)) + [73, 76, 78, 111, 154]:
        ops.append({"op": "xprv.load", "d": (x * 2)[: 2 * n]})
    # one byte more, of any kind, at either end
    for v in range(256) if t else [0, 1, 9, 10, 13, 32, 255] + g.r.sample(range(256), 20):
        ops += [{"op": "xprv.load", "d": x + "%02x" % v}, {"op": "xprv.load", "d": "%02x" % v + x}, {"op": "xprv.load", "d": x + "%02x" % v * 5}]
    # any change of any byte
    for i in range(77):
        for v in (range(1, 256) if t else [1 << g.r.randrange(8), g.r.randrange(1, 256)]):
            b = bytearray(bytes.fromhex(x))
            b[i] ^= v
            ops.append({"op": "xprv.load", "d": b.hex()})
    # checksums of other kinds
    body = bytes.fromhex(x)[:73]
    for c in [b"\0" * 4, hashlib.sha256(body).digest()[:4], hashlib.sha256(hashlib.sha256(body).digest()).digest()[-4:], body[:4], hashlib.sha256(hashlib.sha256(body).digest()).digest()[3::-1],
              bytes(255 - v for v in hashlib.sha256(hashlib.sha256(body).digest()).digest()[:4]), b"\xff" * 4, hashlib.sha256(hashlib.sha256(body).digest()).digest()[4:8], hashlib.sha512(body).digest()[:4], hashlib.sha3_256(body).digest()[:4],
              hashlib.sha256(body[:72]).digest()[:4], hashlib.sha256(hashlib.sha256(body + bytes(4)).digest()).digest()[:4], zlib.crc32(body).to_bytes(4, "big"), zlib.crc32(body).to_bytes(4, "little"), hashlib.sha256(hashlib.sha256(hashlib.sha256(body).digest()).digest()).digest()[:4]]:
        ops.append({"op": "xprv.load", "d": (body + c).hex()})
    for i in range(g.size(6, 40)):
        ops.append({"op": "xprv.seed", "seed": g.seed()})
    for e in corpus("edge-seeds.json")[: g.size(30, 1000)]:
        if e["net"] != ADA:
            ops.append({"op": "xprv.seed", "seed": e["seed"]})
    g.r.shuffle(ops)
    out += split("keys", ops, g.size(4, 10))
    # chains to the greatest depth
    ops = []
    for d0 in [254, 255, 250, 251] + ([0, 128] if t else [240]):
        x = serial(d0, g.r.randbytes(4), 1, g.r.randbytes(32), (g.r.getrandbits(256) % N).to_bytes(32, "big"))
        for n in [255 - d0, 256 - d0, 257 - d0]:
            if n >= 0:
                ops.append({"op": "xprv.derive", "d": x, "path": [u(g.pick([0, H, 7, H + 7])) for _ in range(n)]})
    out.append(Script("deep", ops))
    return out


# ---------------------------------------------------------------------------------------- C22
def c22(t, s):
    g = G("C22", s, t)
    out = []
    lists = []
    for k in range(0, 5):
        for c in itertools.product(NETS + ["00000000", "8000003d"], repeat=k):
            lists.append(list(c))
    lists = lists if t else lists[:31] + g.r.sample(lists[31:], 110)
    def probe(m, extra=()):
        o = [{"op": "mgr.has", "id": m, "net": n} for n in NETS + ["00000000", "0000003c", "8000003d"] + list(extra)]
        o += [{"op": "mgr.fac", "id": m, "net": n} for n in NETS + ["8000003d"] + list(extra)]
        o += [{"op": "mgr.gen", "id": m, "lang": g.lang()}]
        return o
    ops = [{"op": "net.all"}, dict(ALL)] + probe("m")
    for l in lists:
        m = g.new("m")
        ops.append({"op": "mgr.new", "id": m, "how": "nets", "nets": l})
        if set(l) & set(NETS):
            ops += probe(m)
    for i, c in enumerate(grouped_by(ops, "mgr.new", g.size(4, 8))):
        out.append(Script(f"nets-{i}", c))
    ops = []
    X = ["0000beef", "8000beef", "0000abcd"]
    for i in range(g.size(150, 1500)):
        n = g.pick([0, 1, 1, 2, 2, 3, 4, 5])
        f = []
        for _ in range(n):
            net = g.pick(NETS + X)
            mn = g.pick([96, 128, 160, 192, 224, 256, 0, 32, 64, 100, 288, 512])
            f.append({"net": net, "min": mn, "max": g.pick([256, 256, 256, 128, 96, 512, 129, mn, mn + 1]), "kind": "std" if net in NETS else g.pick(["echo", "empty"])})
        m = g.new("m")
        ops.append({"op": "mgr.new", "id": m, "how": "facts", "f": f})
        mn, mx = max([0] + [x["min"] for x in f]), min([10**6] + [x["max"] for x in f])
        if f and 0 < mn < mx:
            ops += probe(m, X)
    for i, c in enumerate(grouped_by(ops, "mgr.new", g.size(3, 8))):
        out.append(Script(f"facts-{i}", c))
    # of many networks
    ops = []
    for k in [6, 7, 8, 9, 16, 17, 32, 33, 64, 65] + ([100, 128, 129, 256, 257] if t else []):
        X = [u(x) for x in g.r.sample(range(1, 0x10000), k - k // 8)] + [u(H + x) for x in g.r.sample(range(0x9000, 0x10000), k // 8)]
        ops.append({"op": "mgr.new", "id": f"w{k}", "how": "facts", "f": [{"net": n, "min": 128, "max": 256, "kind": "echo"} for n in X]})
        ops += [{"op": "mgr.has", "id": f"w{k}", "net": n} for x in X for n in (x, u(int(x, 16) ^ H))]
        ops += [{"op": "mgr.fac", "id": f"w{k}", "net": n} for n in X]
    for k in (15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000):
        for l in ([u(g.r.randrange(1, 0x8000)) for _ in range(k)] + [ETH, ADA], [BTC] * k + [ETH], [ADA] + [u(i) for i in range(1, k)] + [BTC, BTC]):
            ops += [{"op": "mgr.new", "id": "x", "how": "nets", "nets": l}] + probe("x")
    out.append(Script("many", ops))
    # what is served: only keys of its own
    ops = []
    for i in range(g.size(8, 40)):
        l = [g.pick(NETS + ["8000003d"]) for _ in range(g.r.randrange(1, 5))] + [g.pick(NETS)]
        ops += [{"op": "mgr.new", "id": "x", "how": "nets", "nets": l},
                {"op": "mgr.seed", "id": "x", "seed": g.b(64), "pw": "61", "out": "d"},
                {"op": "mgr.open", "id": "x", "in": "d", "pw": "61", "kc": "k"}, {"op": "kc.nets", "kc": "k"}]
        ops += [{"op": "mgr.add", "id": "x", "in": "d", "pw": "61", "net": n, "out": g.new("z")} for n in NETS]
    out.append(Script("serve", ops))
    return out


def grouped_by(ops, op, n):
    groups, cur = [], []
    for o in ops:
        if o["op"] == op and cur:
            groups.append(cur)
            cur = []
        cur.append(o)
    groups.append(cur)
    return [sum(groups[i::n], []) for i in range(n) if groups[i::n]]


# ---------------------------------------------------------------------------------------- C23
def c23(t, s):
    g = G("C23", s, t)
    out = []
    X1, X2 = "0000beef", "8000beef"
    for j in range(g.size(6, 24)):
        f = [{"net": n, "min": 128, "max": 256, "kind": "std"} for n in NETS] + [{"net": X1, "min": 128, "max": 256, "kind": "echo"}, {"net": X2, "min": 96, "max": 256, "kind": "echo"}]
        ops = [{"op": "mgr.new", "id": "m", "how": "facts", "f": f}, {"op": "mgr.new", "id": "n", "how": "all"},
               {"op": "mgr.new", "id": "p", "how": "facts", "f": [{"net": X1, "min": 128, "max": 256, "kind": "panicky"}, {"net": ETH, "min": 128, "max": 256, "kind": "std"}]},
               {"op": "mgr.new", "id": "q", "how": "nets", "nets": [ETH]}]
        seeds = [g.b(64) for _ in range(3)]
        base = []
        for i in range(2):
            pw = g.pw()
            ops.append({"op": "mgr.seed", "id": "m", "seed": seeds[i], "pw": pw, "out": f"b{i}"})
            ops.append({"op": "mgr.open", "id": "m", "in": f"b{i}", "pw": pw, "kc": f"bk{i}"})
            base.append((f"b{i}", pw, f"bk{i}"))
        l = g.lang()
        ph = phrase(l, g.ent(16))
        ops.append({"op": "mgr.mnem", "id": "q", "t": tx(ph), "lang": l, "pw": "61", "out": "b2"})

        def one(th, heavy):
            d, pw, k = g.pick(base)
            r = g.r.random()
            m = g.pick("mmn")
            if heavy and r < 0.5:
                return g.pick([
                    lambda: {"op": "mgr.open", "id": m, "in": d, "pw": pw, "kc": g.new("k")},
                    lambda: {"op": "mgr.open", "id": m, "in": d, "pw": pw + "61", "kc": g.new("k")},
                    lambda: {"op": "mgr.seed", "id": m, "seed": g.pick(seeds), "pw": g.pw(), "out": g.new("d")},
                    lambda: {"op": "mgr.chpw", "id": m, "in": d, "pw": pw, "npw": g.pw(), "out": g.new("d")},
                    lambda: {"op": "mgr.add", "id": m, "in": "b2", "pw": "61", "net": g.pick(NETS), "out": g.new("d")},
                    lambda: {"op": "mgr.mnem", "id": "n", "t": tx(ph), "lang": l, "pw": g.pw(), "out": g.new("d")},
                    lambda: {"op": "mgr.keys", "id": m, "in": d, "pw": pw},
                    lambda: {"op": "mgr.retr", "id": m, "in": "b2", "pw": "61"}])()
            if r < 0.6:
                return {"op": "mgr.gen", "id": m, "lang": g.lang()}
            net = g.pick(NETS + [X1, X2])
            p = g.path(net) if net in NETS else [u(g.r.getrandbits(32)) for _ in range(5)]
            if g.r.random() < 0.15:
                p[g.r.randrange(5)] = u(g.r.getrandbits(32))
            if r < 0.8:
                return {"op": "kc.pub", "kc": k, "net": net, "p": p}
            if r < 0.95:
                return {"op": "kc.sign", "kc": k, "net": net, "p": p, "m": g.msg()}
            return {"op": "kc.verify", "kc": k, "net": net, "p": p, "m": "00", "s": "00" * 64}
        if j == 0:                                    # thousands of each in one process
            ops.append({"op": "par", "times": g.size(300, 3000), "threads": [[dict({"kc": g.pick(base)[2], "net": n, "p": g.path(n)}, **o) for n in NETS
                        for o in ({"op": "kc.sign", "m": g.msg()}, {"op": "kc.pub"}, {"op": "kc.verify", "m": "00", "s": "11" * 64})] for _ in range(8)]})
        hot = [one(0, True) for _ in range(3)]        # the same call many times over
        for rnd in range(g.size(3, 5)):
            n = g.pick([2, 3, 4, 8])
            ops.append({"op": "par", "threads": [[one(i, True) for _ in range(g.size(5, 8))] for i in range(n)]})
            # many times over: every thread its own keys, texts and failures
            def quick(i):
                d, pw, k = g.pick(base)
                net = g.pick(NETS)
                p = g.path(net)
                return [{"op": "kc.pub", "kc": k, "net": net, "p": p}, {"op": "kc.sign", "kc": k, "net": net, "p": p, "m": g.msg()},
                        {"op": "kc.verify", "kc": k, "net": net, "p": p, "m": "00", "s": "11" * 64},
                        {"op": "kc.pub", "kc": k, "net": net, "p": p[:3] + [u(2 + g.r.randrange(9))] + p[4:]}]
            ops.append({"op": "par", "times": g.size(60, 400), "threads": [quick(i) for i in range(8)]})
            lg = [g.lang() for _ in range(8)]
            ops.append({"op": "par", "times": g.size(30, 200), "threads": [[
                {"op": "phrase.parse", "lang": lg[i], "t": tx(phrase(lg[i], g.ent(16)))},
                {"op": "kp.parse", "t": tx(f"m/44'/{i}'/{i * 7}'/0/{i}")},
                {"op": "ent.from", "b": g.ent(SIZES[i % 6]).hex()},
                {"op": "hex.dec", "t": tx(g.b(20))},
                {"op": "fac.key", "net": NETS[i % 3], "seed": g.b(64)}] for i in range(8)]})
            x = [g.new("d") for _ in range(6)]
            ops.append({"op": "par", "times": g.size(3, 10), "threads": [[
                {"op": "mgr.open", "id": "m", "in": d, "pw": pw, "kc": g.new("k")}] for d, pw, k in base] +
                [[{"op": "mgr.open", "id": "m", "in": base[0][0], "pw": base[0][1] + "61", "kc": g.new("k")}],
                 [{"op": "mgr.keys", "id": "n", "in": "b2", "pw": "61"}],
                 [{"op": "mgr.retr", "id": "n", "in": "b2", "pw": "61"}],
                 [{"op": "phrase.seed", "lang": l, "t": tx(ph), "pass": "61"}]]})
            for _ in range(g.size(6, 12)):
                ops.append(one(0, g.r.random() < 0.6))
            h = dict(g.pick(hot))
            for k in ("out", "kc"):
                if k in h and h["op"].startswith("mgr."):
                    h[k] = g.new(k[0])
            ops.append(h)
            # calls that fail in the middle
            for _ in range(3):
                net = g.pick(NETS + [X1])
                k, p, bo = base[0][2], g.path(net) if net in NETS else PATH0[ETH], g.r.randrange(1, 6)
                ops.append(g.pick([{"op": "kc.pub", "kc": k, "net": net, "p": p, "boom": bo}, {"op": "kc.sign", "kc": k, "net": net, "p": p, "m": "00", "boom": bo},
                                   {"op": "kc.verify", "kc": k, "net": net, "p": p, "m": "00", "s": "00" * 64, "boom": bo}]))
                ops.append({"op": "kc.pub", "kc": k, "net": net, "p": p})
                ops.append({"op": "kc.sign", "kc": k, "net": g.pick(NETS), "p": p, "m": "00"})
                ops.append({"op": "kc.nets", "kc": k})
            ops.append({"op": "mgr.seed", "id": "p", "seed": seeds[0], "pw": "61", "out": g.new("z")})
            ops.append({"op": "mgr.open", "id": "p", "in": base[0][0], "pw": base[0][1], "kc": g.new("z")})
            ops.append({"op": "mgr.gen", "id": "p", "lang": "English"})
            ops.append({"op": g.pick(["mgr.gen"]), "id": "n", "lang": "English", "rf": 1})
            ops.append({"op": "mgr.gen", "id": "n", "lang": "English"})
            ops.append({"op": "mgr.seed", "id": "n", "seed": seeds[1], "pw": "61", "out": g.new("z"), "rf": g.pick([1, 2])})
            ops.append({"op": "mgr.seed", "id": "n", "seed": seeds[1], "pw": "61", "out": g.new("d")})
        out.append(Script(f"threads-{j}", ops, timeout=240))
    # calls made by the callbacks of others
    for j in range(g.size(2, 8)):
        f = [{"net": n, "min": 128, "max": 256, "kind": "std"} for n in NETS] + [{"net": X1, "min": 128, "max": 256, "kind": "echo"}]
        ops = [{"op": "mgr.new", "id": "m", "how": "facts", "f": f}, {"op": "mgr.new", "id": "n", "how": "facts", "f": f[j % 3:]}]
        pw, l = g.pw(), g.lang()
        ph = phrase(l, g.ent(16))
        ops += [{"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": pw, "out": "d"}, {"op": "mgr.open", "id": "m", "in": "d", "pw": pw, "kc": "k"},
                {"op": "mgr.seed", "id": "n", "seed": g.b(64), "pw": "61", "out": "e"}, {"op": "mgr.open", "id": "m", "in": "e", "pw": "61", "kc": "k2"}]

        def call():
            net = g.pick(NETS + [X1])
            p = g.path(net) if net in NETS else [u(g.r.getrandbits(32)) for _ in range(5)]
            k, m = g.pick(["k", "k", "k2"]), g.pick("mmn")
            return g.pick([
                lambda: {"op": "kc.pub", "kc": k, "net": net, "p": p},
                lambda: {"op": "kc.sign", "kc": k, "net": net, "p": p, "m": g.msg()},
                lambda: {"op": "kc.verify", "kc": k, "net": net, "p": p, "m": "00", "s": "11" * 64},
                lambda: {"op": "mgr.open", "id": m, "in": "d", "pw": pw, "kc": g.new("k")},
                lambda: {"op": "mgr.open", "id": m, "in": "d", "pw": pw + "61", "kc": g.new("k")},
                lambda: {"op": "mgr.seed", "id": m, "seed": g.b(64), "pw": g.pw(), "out": g.new("d")},
                lambda: {"op": "mgr.mnem", "id": m, "t": tx(ph), "lang": l, "pw": g.pw(), "out": g.new("d")},
                lambda: {"op": "mgr.add", "id": m, "in": g.pick("de"), "pw": g.pick([pw, "61"]), "net": net, "out": g.new("d")},
                lambda: {"op": "mgr.keys", "id": m, "in": "d", "pw": pw}, lambda: {"op": "mgr.gen", "id": m, "lang": g.lang()}, lambda: {"op": "kc.nets", "kc": k}])()
        for i in range(g.size(60, 400)):
            o = call()
            while o["op"] in ("mgr.keys", "mgr.gen", "kc.nets"):
                o = call()
            inner = [call() for _ in range(g.pick([1, 1, 2, 3]))]
            if i % 3 == 0:
                inner.insert(0, {k: (g.new("d") if k == "out" else g.new("k") if k == "kc" and o["op"] == "mgr.open" else v) for k, v in o.items()})
            ops.append({"op": "nest", "outer": o, "at": g.r.randrange(0, 6), "inner": inner})
        if j == 0:
            # at every callback of every kind of call, calls of every kind with other arguments
            ps = {n: [(g.path(n) if n in NETS else [u(g.r.getrandbits(32)) for _ in range(5)]) for _ in range(2)] for n in NETS + [X1]}
            for n in NETS + [X1]:
                ops += [{"op": "kc.sign", "kc": "k", "net": n, "p": ps[n][i], "m": "0%d" % i * (i + 1), "as": f"sg{n}{i}"} for i in range(2)]
            for n in NETS + [X1]:
                pb, sn, vf = ([{"op": "kc.pub", "kc": "k", "net": n, "p": ps[n][i]} for i in range(2)], [{"op": "kc.sign", "kc": "k", "net": n, "p": ps[n][i], "m": "0%d" % i * (i + 1)} for i in range(2)],
                              [{"op": "kc.verify", "kc": "k", "net": n, "p": ps[n][i], "m": "0%d" % i * (i + 1), "s": {"ref": f"sg{n}{i}"}} for i in range(2)])
                for at in range(g.size(7, 10)):
                    x = at % 2
                    ops += [{"op": "nest", "outer": sn[x], "at": at, "inner": [sn[1 - x]]}, {"op": "nest", "outer": pb[x], "at": at, "inner": [pb[1 - x]]},
                            {"op": "nest", "outer": vf[x], "at": at, "inner": [vf[1 - x]]}, {"op": "nest", "outer": g.pick([sn, pb, vf])[1 - x], "at": at, "inner": [pb[x], sn[x], vf[1 - x]]}]
            for at in range(g.size(4, 8)):
                for op in ("seed", "mnem", "open", "add"):
                    mk = lambda i: {"seed": lambda: {"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": g.pw(), "out": g.new("d")},
                                    "mnem": lambda: {"op": "mgr.mnem", "id": "m", "t": tx(phrase(l, g.ent(16 + 16 * i))), "lang": l, "pw": g.pw(), "out": g.new("d")},
                                    "open": lambda: {"op": "mgr.open", "id": "m", "in": "de"[i], "pw": [pw, "61"][i], "kc": g.new("k")},
                                    "add": lambda: {"op": "mgr.add", "id": "m", "in": "de"[i], "pw": [pw, "61"][i], "net": g.pick(NETS), "out": g.new("d")}}[op]()
                    ops.append({"op": "nest", "outer": mk(at % 2), "at": at, "inner": [mk(1 - at % 2)]})
        out.append(Script(f"nested-{j}", ops, timeout=120))
    return out


# ---------------------------------------------------------------------------------------- C24
def c24(t, s):
    g = G("C24", s, t)
    ops = []
    for n in list(range(0, 40)) + [255, 256, 1000]:
        b = g.b(n)
        ops.append({"op": "hex.enc", "b": b})
        ops.append({"op": "hex.dec", "t": tx(b)})
        ops.append({"op": "hex.dec", "t": tx(b.upper())})
        ops.append({"op": "hex.dec", "t": tx("".join(g.pick([c, c.upper()]) + g.pick(["", "", " ", "\n", "\t", "\r", "\r\n "]) for c in b))})
    ops.append({"op": "hex.enc", "b": bytes(range(256)).hex()})
    for c in range(0, 128):
        for pos in [0, 1, 2, 5]:
            x = ("ab" * 4)[:pos] + chr(c) + ("cd" * 4)
            ops.append({"op": "hex.dec", "t": tx(x)})
    for c in ["é", "ａ", "\u0661", "\u00a0", "\u2003", "\U0001F511", "\x0b", "\x0c", "\x85", "\ufeff", "İ", "ﬀ", "\u200b"]:
        for pos in range(0, 6):
            ops.append({"op": "hex.dec", "t": tx("abcdef"[:pos] + c + "12")})
    for pre in ["0x", "0X", "0x0x", "x", "#", "$", "&h", "\\x", "%", "h'", "0b", "0o", "hex:", "+", "-", "\"", "'", "{", "[", "0h", "U+", "\ufeff"]:
        for body in ["", "0", "12", "1234", "deadBEEF", "00", "abc", g.b(9)]:
            for y in (pre + body, " " + pre + body, body + pre, pre + " " + body, body + " " + pre + body):
                ops.append({"op": "hex.dec", "t": tx(y)})
    for sep in ["_", "-", ":", ",", ".", "h", ";", "|", "/", "0x", "\\x", ", 0x", "\u00a0", "\u2028"]:
        for y in (sep.join(["12", "34", "56", "78"]), sep.join("1234"), "1234" + sep, sep + "1234", sep.join(["1234", "5678"])):
            ops.append({"op": "hex.dec", "t": tx(y)})
    for suf in ["h", "H", "=", "==", "\0", "\0\0", "L", "u", "\"", "'"]:
        for body in ["", "12", "123", "1234"]:
            ops.append({"op": "hex.dec", "t": tx(body + suf)})
    for n in [1023, 1024, 1025, 4096, 5000, 70000]:
        b = g.b(n)
        ops.append({"op": "hex.enc", "b": b})
        ops.append({"op": "hex.dec", "t": tx(b)})
        ops.append({"op": "hex.dec", "t": tx(b[:-1] + "g")})
    for _ in range(g.size(300, 4000)):
        x = "".join(g.pick("0123456789abcdefABCDEF" * 3 + " \t\r\n" * 4 + "gGxX-:é\x0b") if g.r.random() < 0.9 else g.pick("0a") for _ in range(g.r.randrange(60)))
        ops.append({"op": "hex.dec", "t": tx(x)})
    for _ in range(g.size(100, 1000)):
        x = "".join(g.pick("0123456789abcdefABCDEF \t\r\n") for _ in range(g.r.randrange(80)))
        ops.append({"op": "hex.dec", "t": tx(x)})
    g.r.shuffle(ops)
    return split("hex", ops, g.size(2, 8))


# ---------------------------------------------------------------------------------------- C25
def c25(t, s):
    """everything above, and hostile content; only whether there is an answer matters"""
    g = G("C25", s, t)
    out = []

    def chars(n):
        return "".join(chr(g.pick([g.r.randrange(0, 0x20), g.r.randrange(0x20, 0x7f), g.r.randrange(0x80, 0x800), g.r.randrange(0x800, 0xD800), g.r.randrange(0xE000, 0x10000), g.r.randrange(0x10000, 0x10FFFF), 39, 47, 47, 32])) for _ in range(n))
    ops = [dict(ALL)] + keychain(g.b(64), mgr=False)
    ops += [{"op": "dict.word", "lang": l, "i": i} for l in LANGS for i in (2047, 2048, 2049, 4096, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF)]
    ops += [{"op": "words.ent", "w": [0] * (n - 1) + [i]} for n in (12, 24) for i in (2047, 2048, 0x7FFF, 0x8000, 0xFFFF)]
    for i in range(g.size(1500, 20000)):
        k = g.r.randrange(12)
        a = [g.pick([0, 1, H - 1, H, 0xFFFFFFFF, g.r.getrandbits(32)]) for _ in range(5)]
        if k == 0:
            ops.append({"op": "kp.parse", "t": tx(chars(g.r.randrange(30)))})
        elif k == 1:
            ops.append({"op": "kp.make", "fn": g.pick(FNS), "testnet": g.r.random() < 0.5, "a": u(a[0]), "c": u(a[1]), "d": u(a[2])})
        elif k == 2:
            net = g.pick(NETS + [u(a[0])])
            p = [u(x) for x in a] if g.r.random() < 0.5 else g.path(g.pick(NETS))
            ops.append({"op": "kc.pub", "kc": "k", "net": net, "p": p})
        elif k == 3:
            net = g.pick(NETS)
            ops.append({"op": "kc.verify", "kc": "k", "net": net, "p": g.path(net), "m": g.msg(), "s": g.b(g.pick([0, 1, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 128, 300]))})
        elif k == 4:
            net = g.pick(NETS)
            ops.append({"op": "kc.sign", "kc": "k", "net": net, "p": g.path(net), "m": g.msg()})
        elif k == 5:
            ops.append({"op": "fac.load", "net": g.pick(NETS), "b": g.b(g.pick([0, 1, 63, 64, 76, 77, 78, 95, 96, 97, 200]))})
        elif k == 6:
            ops.append({"op": "hex.dec", "t": tx(chars(g.r.randrange(20)))})
        elif k == 7:
            ops.append({"op": g.pick(["phrase.parse"]), "lang": g.lang(), "t": tx(g.pick([chars(g.r.randrange(40)), " " * g.r.randrange(30), " ".join(g.pick(DICT["English"]) for _ in range(g.r.randrange(30)))]))})
        elif k == 8:
            ops.append({"op": "dict.word", "lang": g.lang(), "i": g.r.randrange(65536)})
            ops.append({"op": "dict.index", "lang": g.lang(), "t": tx(chars(g.r.randrange(6)))})
        elif k == 9:
            ops.append({"op": "words.ent", "w": [g.pick([g.r.randrange(2048), g.r.randrange(65536)]) for _ in range(g.r.randrange(30))]})
            ops.append({"op": "type.words", "n": g.r.getrandbits(31)})
            ops.append({"op": "type.bits", "n": g.r.getrandbits(31)})
        elif k == 10:
            ops.append({"op": "ent.from", "b": g.b(g.r.randrange(70))})
            ops.append({"op": "bits.read", "b": g.b(g.r.randrange(50))})
            ops.append({"op": "bits.write", "v": [g.r.randrange(65536) for _ in range(g.r.randrange(30))]})
            ops.append({"op": "seed.from", "b": g.b(g.r.randrange(130))})
        else:
            x = serial(g.pick([0, 250, 251, 252, 253, 254, 255]), bytes(4), 0, g.r.randbytes(32), g.r.randbytes(32))
            ops.append({"op": "xprv.load", "d": x})
            ops.append({"op": "xprv.derive", "d": x, "path": [u(g.pick(a)) for _ in range(g.r.randrange(9))]})
            ops.append({"op": "xprv.verify", "d": x, "m": g.msg(), "s": g.b(g.pick([0, 63, 64, 65, 66]))})
            for net in (BTC, ETH):
                ops.append({"op": "fac.load", "net": net, "b": x})
            ops.append({"op": "type.str", "t": tx(chars(3))})
    # more than anyone would give: 256 or 65536 of a thing above what is right
    big = []
    for m in (256, 512, 65536):
        for n in SIZES:
            w = n * 3 // 4
            big += [{"op": "ent.from", "b": g.b(n + m)}, {"op": "words.ent", "w": [g.r.randrange(2048) for _ in range(w + m)]},
                    {"op": "type.words", "n": w + m}, {"op": "type.bits", "n": 8 * n + m}]
            l = g.lang()
            if m < 65536 or n == 16:
                x = " ".join([DICT[l][g.r.randrange(8)]] * (w + m))
                big += [{"op": "phrase.parse", "lang": l, "t": tx(x)}, {"op": "phrase.seed", "lang": l, "t": tx(x), "pass": g.b(m)},
                        {"op": "mgr.mnem", "id": "m", "t": tx(x), "lang": l, "pw": "61", "out": "z"}]
        for net in NETS:
            p = g.path(net)
            big += [{"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": g.b(m), "s": g.b(k + m)} for k in (64, 65)]
            big += [{"op": "fac.load", "net": net, "b": g.b(k + m)} for k in (77, 96)]
        big += [{"op": "seed.from", "b": g.b(64 + m)}, {"op": "mgr.seed", "id": "m", "seed": g.b(64 + m), "pw": "61", "out": "z"},
                {"op": "kp.parse", "t": tx("/".join(["m"] + ["1"] * (5 + m)))}, {"op": "kp.parse", "t": tx("m/" + "1" * m + "/0/0/0/0'")},
                {"op": "hex.dec", "t": tx("ab" * m + " " * m)}, {"op": "type.str", "t": tx("1" * m)},
                {"op": "dict.index", "lang": g.lang(), "t": tx("a" * m)},
                {"op": "phrase.parse", "lang": g.lang(), "t": tx(" ".join([DICT["English"][0]] * 11 + [g.pick(["a", "é", "\U0001F511", "a\u0301"]) * m]))},
                {"op": "mgr.mnem", "id": "m", "t": tx(" ".join(["z" * m] * 12)), "lang": "English", "pw": "61", "out": "z"},
                {"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": "7a" * m, "out": "z"}, {"op": "kp.parse", "t": tx("m/" + "x" * m + "/0/0/0/0'")},
                {"op": "bits.read", "b": g.b(m)}, {"op": "bits.write", "v": [g.r.randrange(2048) for _ in range(m)]}]
    pre = ops[:3]
    # networks at the ends of numbers, in every place that takes one
    for n in ["00000000", "00000001", "7fffffff", "80000000", "80000001", "fffffffe", "ffffffff"] + [u(1 << b) for b in range(31)]:
        p = [P44, n, u(H), u(0), u(0)]
        big += [{"op": "mgr.has", "id": "m", "net": n}, {"op": "kc.has", "kc": "k", "net": n}, {"op": "kc.pub", "kc": "k", "net": n, "p": p}, {"op": "kc.sign", "kc": "k", "net": n, "p": p, "m": "00"},
                {"op": "kc.verify", "kc": "k", "net": n, "p": p, "m": "00", "s": "01" * 64}]
        if g.r.random() < 0.3:
            big.append({"op": "mgr.add", "id": "m", "in": "d-k", "pw": "70", "net": n, "out": "z"})
    # letters of several bytes, wherever a text may be cut
    for x in ["a" + "\U0001F511" * 2100, "aaa" + "\U0001F511" * 2100, "aa" + "\u20ac" * 2100, "\u20ac" * 100, "a" + "\u00e9" * 1500, "\u00e9" * 40, "\u00e9" * 5, "aaa" + "\U0001F511" * 20]:
        h, w = tx(x), tx(" ".join([x] + ["b"] * 11))
        l = g.lang()
        big += [{"op": "open", "pw": h, "b": g.b(90)}, {"op": "seal", "pw": h, "pt": "00", "custom": False, "start": 0, "as": "z"}, {"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": h, "out": "z"},
                {"op": "mgr.open", "id": "m", "in": "d-k", "pw": h, "kc": "no"}, {"op": "mgr.chpw", "id": "m", "in": "d-k", "pw": "70", "npw": h, "out": "z"}, {"op": "mgr.retr", "id": "m", "in": "d-k", "pw": h},
                {"op": "mgr.mnem", "id": "m", "t": h, "lang": l, "pw": "61", "out": "z"}, {"op": "mgr.mnem", "id": "m", "t": w, "lang": l, "pw": "61", "out": "z"},
                {"op": "phrase.parse", "lang": l, "t": h}, {"op": "phrase.parse", "lang": l, "t": w}, {"op": "phrase.seed", "lang": "English", "t": tx(phrase("English", bytes(16))), "pass": h},
                {"op": "kp.parse", "t": h}, {"op": "kp.parse", "t": tx("m/44'/0'/0'/0/" + x)}, {"op": "kp.parse", "t": tx(x + "/44'/0'/0'/0/0")}, {"op": "kp.parse", "t": tx("m/" + x + "'/0'/0'/0/0")},
                {"op": "hex.dec", "t": h}, {"op": "type.str", "t": h}, {"op": "dict.index", "lang": l, "t": h}]
    for n in (1 << 20, (1 << 20) + 1):
        for net in NETS:
            p = g.path(net)
            m = "5a" * n
            big += [{"op": "kc.sign", "kc": "k", "net": net, "p": p, "m": m}] + ([{"op": "kc.verify", "kc": "k", "net": net, "p": p, "m": m, "s": "01" * 64}] if n % 2 else [])
    out += grouped_pre("long", pre, big, 2)
    for x in out:
        x.mode = "total"
    for i, c in enumerate(chunks(ops[3:], 1200)):
        out.append(Script(f"calls-{i}", pre + c, mode="total"))
    pre = [dict(ALL), {"op": "mgr.new", "id": "a", "how": "nets", "nets": [ADA]}]
    fx = fixtures("docs") + fixtures("keys") + fixtures("hostile")

    def on(f):
        o = [{"op": "put", "out": "d", "b": f["b"]}]
        o += [{"op": "mgr.open", "id": "m", "in": "d", "pw": f["pw"], "kc": "kk"}]
        for net in NETS:
            p = g.path(net)
            o += [{"op": "kc.pub", "kc": "kk", "net": net, "p": p, "opt": True}] if g.r.random() < 0.3 else []
        o += [{"op": "mgr.keys", "id": "m", "in": "d", "pw": f["pw"]}, {"op": "mgr.retr", "id": "a", "in": "d", "pw": f["pw"]},
              {"op": "mgr.chpw", "id": "m", "in": "d", "pw": f["pw"], "npw": "", "out": "e"},
              {"op": "mgr.add", "id": g.pick("ma"), "in": "d", "pw": f["pw"], "net": g.pick(NETS + ["00000001"]), "out": "e"}]
        return o
    pre2 = pre + keychain(g.b(64), "kk", mgr=False)
    n = g.size(6, 12)
    if not t:
        fx = fixtures("hostile") + of_each(g, fixtures("docs") + fixtures("keys"), 200)
    g.r.shuffle(fx)
    for i in range(n):
        out.append(Script(f"data-{i}", pre2 + sum((on(f) for f in fx[i::n]), []), mode="total", timeout=300))
    ops = pre2[:]
    for i in range(g.size(60, 600)):
        ops += [{"op": "mgr.seed", "id": "m", "seed": g.b(g.r.randrange(130)), "pw": tx(chars(g.r.randrange(9))), "out": "x"},
                {"op": "mgr.mnem", "id": g.pick("ma"), "t": tx(g.pick([chars(g.r.randrange(50)), phrase(g.lang(), g.ent())])), "lang": g.lang(), "pw": tx(chars(3)), "out": "x"},
                {"op": "put", "out": "y", "b": g.b(g.r.randrange(200))},
                {"op": g.pick(["mgr.keys", "mgr.retr"]), "id": "m", "in": "y", "pw": tx(chars(3))},
                {"op": "open", "b": g.b(g.r.randrange(130)), "pw": tx(chars(4))}]
        if i % 6 == 0:
            ops += [{"op": "mgr.new", "id": "z", "how": "nets", "nets": [g.pick(NETS + [u(g.r.getrandbits(32))]) for _ in range(g.r.randrange(4))]},
                    {"op": "mgr.new", "id": "z", "how": "facts", "f": [{"net": g.pick(NETS), "min": g.pick([0, 1, 31, 33, 96, 2**31 - 1]), "max": g.pick([0, 1, 97, 256, 2**31 - 1]), "kind": "std"} for _ in range(g.r.randrange(3))]},
                    {"op": "mgr.new", "id": "z", "how": "facts", "f": [{"net": "0000beef", "min": g.pick([1, 33, 100, 2**20, 2**31 - 2]), "max": 2**31 - 1, "kind": "echo"}]},
                    {"op": "mgr.gen", "id": "z", "lang": "English"}]
    out.append(Script("managers", ops, mode="total"))
    return out


GENS = {f"C{i:02d}": globals()[f"c{i:02d}"] for i in range(1, 26)}

"""Payloads for spec/Fixtures.tla: documents of every class the stored format distinguishes, and damaged key data."""
import base64, hashlib, json, os, random, struct
import lib

H = 0x80000000
BTC, ETH, ADA = 0x80000000, 0x8000003C, 0x80000717
LANGS = ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"]
PWS = ["61", "", "70617373", "c3a9", "61" * 130]
NORD = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def b64(b):
    return base64.b64encode(b).decode()


def serial(depth, fp, idx, cc, k):
    b = bytes([depth]) + fp + struct.pack(">I", idx) + cc + k
    return b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]


def root(r):
    b = bytearray(r.randbytes(96))
    b[0] &= 0xF8
    b[31] = (b[31] & 0x1F) | 0x40
    return bytes(b)


def key(net, r):
    if net == ADA:
        return root(r)
    return serial(0, bytes(4), 0, r.randbytes(32), (r.getrandbits(250) + 1).to_bytes(32, "big"))


def dump(x):
    return json.dumps(x, separators=(",", ":"), ensure_ascii=False)


def inner(seed=None, mnem=None, dic=None, keys=()):
    return {"seed": None if seed is None else b64(seed), "mnemonic": mnem, "dictionary": dic, "keys": [[n, b64(k)] for n, k in keys]}


def outer(ver, data):
    d = data if isinstance(data, bytes) else dump(data).encode()
    return dump({"version": ver, "data": b64(d)}).encode()


def phrase(lang, n, r):
    from gen import phrase as p
    return p(lang, r.randbytes(n))


def docs(r, t):
    """(payload, class)"""
    out = []
    K = lambda *ns: [(n, key(n, r)) for n in ns]
    add = lambda c, p: out.append((c, p if isinstance(p, bytes) else p.encode()))
    # what is readable: versions, secrets, networks
    for ver in (1, 2):
        for ks in [[], K(BTC), K(ETH), K(ADA), K(BTC, ETH), K(ADA, ETH, BTC), K(0x8000003D), K(BTC, 7, 0xFFFFFFFF), [(5, b""), (6, b"x" * 500)]]:
            add("keys", outer(1, {"keys": [[n, b64(k)] for n, k in ks]}) if ver == 1 else outer(2, inner(keys=ks)))
    for i, l in enumerate(LANGS):
        n = [16, 12, 20, 24, 28, 32][i % 6] if i else 16
        add("mnem", outer(2, inner(mnem=phrase(l, n, r), dic=l, keys=K(BTC))))
        add("mnem", outer(2, inner(mnem=phrase(l, 16, r), dic=LANGS[(i + 1) % 8], keys=K(ADA))))
        add("mnem", outer(2, inner(mnem=phrase(l, 16, r), dic=l, keys=[])))
    for ks in [[], K(BTC), K(ETH), K(ADA), K(BTC, ETH, ADA)]:
        add("seed", outer(2, inner(seed=r.randbytes(64), keys=ks)))
        add("both", outer(2, inner(seed=r.randbytes(64), mnem=phrase("English", 16, r), dic="English", keys=ks)))
    # networks nobody here knows, in numbers
    for ns in [[7], [7, 0x3C, 0xBEEF], [BTC, 7, 0xFFFFFFFF], list(range(16)), list(range(17)), [BTC, ETH, ADA] + list(range(0x7FFFFFF0, 0x80000000)) + list(range(0x90000000, 0x90000018))]:
        add("many", outer(2, inner(seed=r.randbytes(64), keys=K(*ns))))
        add("many", outer(2, inner(mnem=phrase("English", 16, r), dic="English", keys=[(n, r.randbytes(r.randrange(40)) if n not in (BTC, ETH, ADA) else key(n, r)) for n in ns])))
        add("many", outer(1, {"keys": [[n, b64(key(n, r))] for n in ns]}))
    # data of networks nobody here knows may be of any size
    for n in (4096, 5001, 70000 if t else 20000):
        add("big", outer(2, inner(seed=r.randbytes(64), keys=K(ETH) + [(7, r.randbytes(n))])))
        add("big", outer(1, {"keys": [[k, b64(x)] for k, x in K(BTC) + [(6, r.randbytes(n)), (0xFFFFFFFF, b"")]]}))
    for sd in (bytes(64), b"\xff" * 64, b"A" * 64):
        add("seed", outer(2, inner(seed=sd, keys=K(ETH))))
    for n in (0, 1, 16, 32, 63, 65, 128):
        add("seedlen", outer(2, inner(seed=r.randbytes(n), keys=K(ETH))))
    add("half", outer(2, inner(mnem=phrase("English", 16, r), keys=K(ETH))))
    for m in ("", "x", "\u3000", "\U0001F511"):
        add("half", outer(2, inner(mnem=m, keys=K(ETH))))
    add("half", outer(2, inner(dic="French", keys=K(ETH))))
    add("half", outer(2, inner(mnem="", dic="French", keys=K(ETH))))
    add("half", outer(2, inner(mnem="not a phrase", dic="Korean", keys=K(ETH))))
    add("half", outer(2, inner(mnem="Ünï\"\\\n\tcode \U0001F511", dic="Spanish", keys=K(ETH))))
    add("half", outer(2, inner(mnem="a\0b", dic="Spanish", keys=K(ETH))))
    for m in (" " + phrase("English", 16, r) + "\n", phrase("English", 16, r).upper(), phrase("French", 16, r).replace(" ", "\u3000"), "x", "", "\ufeffa", "e\u0301 \u00e9"):
        add("odd", outer(2, inner(seed=r.randbytes(64), mnem=m, dic="French", keys=K(ETH))))
    # a network that is there is there, whatever its data
    for n in (BTC, ETH, ADA, 0xBEEF):
        for k in (b"", b"\0", key(BTC, r)[:-1], bytes(96)):
            if t or k == b"" or r.random() < 0.4:
                add("there", outer(2, inner(seed=r.randbytes(64), keys=[(n, k)] + K(*[m for m in (BTC, ETH, ADA) if m != n][:2]))))
    # a phrase that stands there as no reader of phrases takes it, or all do
    import unicodedata
    for l in ("English", r.choice(["French", "Spanish"]), "Japanese", "Korean"):
        p = phrase(l, 16, r)
        ws = p.split(" ")
        for m in (" " + p, p + " ", p + "\n", p + "\0", p.replace(" ", "  ", 1), p.replace(" ", "\t"), p.replace(" ", "\u3000"), unicodedata.normalize("NFC", p), p.title(), p + "\u200b",
                  " ".join(ws[:11]), " ".join(ws + ws[:3]), " ".join(ws[:11] + [ws[0]]), " ".join(reversed(ws))):
            if t or l == "English" or r.random() < 0.4:
                add("unread", outer(2, inner(mnem=m, dic=l, keys=K(ETH))))
    # written otherwise, meaning the same
    base = inner(seed=r.randbytes(64), keys=K(BTC, ADA))
    dj = dump(base)
    add("shape", outer(2, json.dumps(base, indent=2).encode()))
    add("shape", outer(2, ("\r\n\t " + dj + " \n").encode()))
    add("shape", outer(2, dump(dict(reversed(list(base.items())))).encode()))
    add("shape", outer(2, dump({k: v for k, v in base.items() if v is not None}).encode()))
    add("shape", outer(2, dump(dict(base, extra=1, more={"keys": []})).encode()))
    add("shape", ("\n {" + f' "data" : "{b64(dj.encode())}" ,\t"version":2 ' + "}\n").encode())
    add("shape", dump({"version": 2, "data": b64(dj.encode()), "note": "x"}))
    add("shape", dump({"version": 2, "data": b64(dj.encode())}).replace("data", "\\u0064ata"))
    add("shape", dump({"version": 1, "data": b64(dj.encode())}))       # a newer inner part under version 1
    add("shape", outer(2, dj.replace("keys", "k\\u0065ys").encode()))
    add("shape", outer(2, dj.replace("/", "\\/").encode()))
    add("dups", outer(2, inner(keys=[(BTC, key(BTC, r)), (BTC, key(BTC, r))])))
    add("dups", outer(1, {"keys": [[ETH, b64(key(ETH, r))], [ADA, b64(key(ADA, r))], [ETH, b64(key(ETH, r))]]}))
    # not readable
    v = lambda x: add("version", '{"version":%s,"data":"%s"}' % (x, b64(dj.encode())))
    for x in ["0", "3", "-1", "65536", "65537", "65538", "4294967298", "18446744073709551618", "1.0", "2.0", "2e0", "0.2e1", '"2"', '"V2"', "null", "true", "[2]", "{}", "02", "+2", ""]:
        v(x)
    v("2,\"version\":2")
    add("broken", '{"version":2}')
    add("broken", '{"data":"%s"}' % b64(dj.encode()))
    add("broken", '{"version":2,"data":null}')
    add("broken", '{"version":2,"data":%s}' % dj)
    add("broken", '{"version":2,"data":"","data":"%s"}' % b64(dj.encode()))
    e = b64(dj.encode())
    for x in ["", "!", e + "=", e[:-1] if not e.endswith("=") else e.rstrip("=") + "*", e + "\\n", " " + e, e + " ", e[:10] + "\\r\\n" + e[10:], e.replace("A", "-", 1) if "A" in e else "-" + e[1:], e[:5] + "=" + e[5:], e[:9] + "é" + e[9:]]:
        add("base64", '{"version":2,"data":"%s"}' % x)
    add("base64", '{"version":2,"data":"%s"}' % b64(b""))
    for x in ["", " ", "{", "}", "null", "[]", "{}", "1", '"x"', "[1,2]", '[2,"%s"]' % b64(b"{}"), '{"version":2,"data":"%s"' % e, '{"version":2,"data":"%s"},' % e, '{"version":2,"data":"%s"}}' % e,
              '{"version":2,"data":"%s",}' % e, '{"version":2 "data":"%s"}' % e, "{'version':2,'data':'%s'}" % e, '{"Version":2,"Data":"%s"}' % e, '// x\n{"version":2,"data":"%s"}' % e,
              '{"version":2,"data":"%s"}{"version":2,"data":"%s"}' % (e, e), "\ufeff" + dump({"version": 2, "data": e}), '{"version":2,"data":"%s"}\0' % e]:
        add("json", x)
    add("json", b"\xff\xfe")
    add("json", dump({"version": 2, "data": e}).encode("utf-16-le"))
    add("json", r.randbytes(40))
    add("json", hashlib.sha256(b"x").digest())
    # the inner part
    i_ = lambda x, ver=2: add("inner", outer(ver, x if isinstance(x, bytes) else x.encode()))
    for x in ["", "{}", "[]", "null", dj[:-1], dj + "x", dj + "}", dj + " 1", '{"seed":null}', "[null,null,null,[]]", "[null,null,null]", "[[]]", '"keys"', b"\xff", b"{\"keys\":[],\"seed\":null,\"mnemonic\":\"\xff\"}"]:
        i_(x)
    for x in ["{}", "[]", "[[]]", '{"keys":null}', '{"key":[]}', '{"keys":{}}', '{"keys":[],"keys":[]}', '{"Keys":[]}', '{"keys":[]']:
        i_(x, 1)
    m = lambda **kw: i_(dump(dict(base, **kw)))
    for x in [[], {}, 1, "x", "====", "AA", "AAA", "AB==", "A A=", True, [65, 65], "é"]:
        m(seed=x)
    for x in [1, [], ["a"], {}, True]:
        m(mnemonic=x)
    for x in ["english", "ENGLISH", "en", "", "Portuguese", "Czech", "English ", 0, 1, ["English"], {"English": None}, {"English": 1}, {"Klingon": None}, {}, {"English": None, "French": None}, "日本語", "Chinese Simplified", "chinese_simplified", "Chinese", True]:
        m(dictionary=x, mnemonic=phrase("English", 16, r))
    B = b64(key(BTC, r))
    for x in [[[BTC, " " + B]], [[BTC, B + " "]], [[BTC, B + "\n"]], [[BTC, B[:20] + "\n" + B[20:]]], [[BTC, B.rstrip("=")]], [[BTC, B.replace("=", "") + "=="]], [[BTC, "=" + B]], [[ETH, " "]], [[7, "\t"]], [[7, "A"]], [[7, "AA"]],
              [[7, "AB=="]], [[7, "AA=="]], [[7, "-_-_"]], [[7, "YQ"]], [[7, "YQ==="]], [[7, "YQ==YQ=="]], [[7, "YR=="]]]:
        i_(dump(dict(base, keys=x)))
        if t or r.random() < 0.3:
            i_(dump({"keys": x}), 1)
    S = b64(bytes(range(64)))
    for x in [" " + S, S + "\n", S.rstrip("="), S.replace("=", "") + "=", S[:-2] + "A=" if S.endswith("==") else S, S + "=="]:
        m(seed=x)
    for x in [None, {}, "x", 1, [[]], [[BTC]], [[BTC, B, 1]], [BTC, B], [[str(BTC), B]], [[-1, B]], [[1 << 32, B]], [[1.5, B]], [[1.0, B]], [[BTC, None]], [[BTC, "!"]], [[BTC, B + "="]], [[BTC, [1, 2]]],
              [[BTC, ""]], [{"0": BTC, "1": B}], [[BTC, B], None], [[[BTC], B]], [[True, B]], [[None, B]], [[BTC, B], [ETH]]]:
        i_(dump(dict(base, keys=x)))
        if t or r.random() < 0.4:
            i_(dump({"keys": x}), 1)
    i_('{"seed":null,"mnemonic":null,"dictionary":null,"keys":[],"seed":null}')
    i_('{"seed":null,"mnemonic":"a","mnemonic":"a","dictionary":null,"keys":[]}')
    i_('{"seed":null,"dictionary":"English","dictionary":"English","keys":[]}')
    i_('{"mnemonic":null,"dictionary":null,"keys":[]}')
    i_('{"seed":null,"keys":[]}')
    # a byte altered, dropped or added anywhere in a good one
    good = outer(2, base)
    for _ in range(300 if t else 40):
        w = r.random() < 0.5
        b = bytearray(good if w else dj.encode())
        k = r.randrange(3)
        i = r.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << r.randrange(7)
        elif k == 1:
            del b[i]
        else:
            b.insert(i, r.choice(b'{}[]",:019 \\ntfu=/'))
        add("mutant", bytes(b) if w else outer(2, bytes(b)))
    return out


def keydata(r, t):
    """documents with damaged keys, some beside sound ones"""
    out = []

    def add(net, b, beside=None):
        ks = [(net, b)]
        if beside is not None:
            ks.append((beside, key(beside, r)))
            r.shuffle(ks)
        out.append(("keydata", outer(2, inner(keys=ks)) if r.random() < 0.7 else outer(1, {"keys": [[n, b64(k)] for n, k in ks]})))
    for net in (BTC, ETH, ADA):
        other = {BTC: ADA, ETH: BTC, ADA: ETH}[net]
        k = key(net, r)
        size = len(k)
        for n in [0, 1, size - 1, size + 1, 32, 64, 2 * size, 255]:
            add(net, (k * 3)[:n], other if r.random() < 0.5 else None)
        for _ in range(size * 8 if t else 30):
            i = r.randrange(size * 8) if not t else _
            b = bytearray(k)
            b[i // 8] ^= 0x80 >> (i % 8)
            add(net, bytes(b), other if r.random() < 0.3 else None)
        add(net, bytes(size))
        add(net, b"\xff" * size)
        add(net, key(other, r))
        add(net, key(net, r), other)
        # several damaged at once are still refused
    for net in (BTC, ETH):
        for d in [0, 1, 249, 250, 251, 252, 253, 254, 255]:
            add(net, serial(d, r.randbytes(4), r.getrandbits(32), r.randbytes(32), (r.getrandbits(250) + 1).to_bytes(32, "big")))
        for v in [0, 1, 2, NORD - 1, NORD, NORD + 1, 2**256 - 1, NORD // 2]:
            add(net, serial(0, bytes(4), 0, r.randbytes(32), v.to_bytes(32, "big")))
    k = root(r)
    for i, vals in [(0, [k[0] | 1, k[0] | 2, k[0] | 4, 0, 0xF8]), (31, [k[31] | 0x80, k[31] | 0x20, k[31] & 0x3F, 0, 0xFF, 0x40, 0x5F])]:
        for v in vals:
            b = bytearray(k)
            b[i] = v
            add(ADA, bytes(b), r.choice([None, BTC]))
    for ks in [[(BTC, key(BTC, r)), (ETH, key(ETH, r)), (ADA, key(ADA, r)), (0xBEEF, b"\0\0\xbe\xef12345678"), (0x8000BEEF, b"\x80\0\xbe\xef87654321")],
               [(0xBEEF, b"\0\0\xbe\xef12345678"), (ETH, key(ETH, r))], [(0xBEEF, b"\0\0\xbe\xee12345678")], [(0xBEEF, b"")], [(0x8000BEEF, b"\x80\0\xbe\xef8765432")],
               [(1, b""), (2, b"x"), (ADA, key(ADA, r))], [], [(0x8000003D, key(ETH, r))], [(0x3C, key(ETH, r))], [(0, key(BTC, r)), (0x717, key(ADA, r))]]:
        out.append(("keydata", outer(2, inner(keys=ks))))
        out.append(("keydata", outer(1, {"keys": [[n, b64(x)] for n, x in ks]})))
    r.shuffle(out)
    return out


def hostile(r, t):
    """nothing but an answer is expected"""
    out = []
    n = 200000 if t else 60000
    dj = dump(inner(seed=bytes(64))).encode()
    for s in (b"[", b"{\"a\":", b"[[", b"\""):
        out.append(("hostile", s * n))
        out.append(("hostile", outer(2, s * n)))
    out.append(("hostile", b'{"version":2,"x":' + b"[" * n + b"]" * n + b',"data":"' + b64(dj).encode() + b'"}'))
    out.append(("hostile", outer(2, b'{"seed":null,"keys":[],"x":' + b"[" * n + b"]" * n + b"}")))
    out.append(("hostile", outer(2, b'{"seed":null,"keys":' + b"[" * n + b"]" * n + b"}")))
    for d in (120, 126, 127, 128, 129, 200):
        out.append(("hostile", outer(2, b'{"seed":null,"keys":[],"x":' + b"[" * d + b"]" * d + b"}")))
        out.append(("hostile", outer(2, b'{"seed":null,"keys":' + b"[" * d + b"]" * d + b"}")))
    for x in [b"1e999", b"-1e999", b"1" * 2000, b"1e-99999", b'"\\ud800"', b'"\\udfff\\ud800"', b'"\\u0000"', b'"\xff"', b"\"\\u12", b"-", b"1e", b"9" * 400 + b"." + b"9" * 400]:
        out.append(("hostile", b'{"version":%s,"data":"%s"}' % (x, b64(dj).encode())))
        out.append(("hostile", b'{"version":2,"x":%s,"data":"%s"}' % (x, b64(dj).encode())))
        out.append(("hostile", outer(2, b'{"seed":null,"keys":[[%s,""]]}' % x)))
        out.append(("hostile", outer(2, b'{"seed":%s,"mnemonic":%s,"dictionary":%s,"keys":[]}' % (x, x, x))))
        out.append(("hostile", outer(2, b'{"seed":null,"mnemonic":%s,"dictionary":"English","keys":[]}' % x)))
        out.append(("hostile", outer(1, b'{"keys":[],"y":%s}' % x)))
    for lg in LANGS:
        for m in ["", " ", " " * 23, "a " * 11 + "a", "\0", "\u3000" * 15, "é" * 500, "abandon " * 16, "a" * 100000 if lg == "English" else "b"]:
            out.append(("hostile", outer(2, inner(mnem=m, dic=lg))))
            out.append(("hostile", outer(2, inner(mnem=m))))
    out.append(("hostile", outer(2, inner(keys=[(i, b"k") for i in range(3000)]))))
    out.append(("hostile", outer(2, inner(keys=[(BTC, bytes(100000)), (ADA, bytes(100000)), (ETH, bytes(100000))]))))
    return out


def raw(r, t):
    out = [("raw", b""), ("raw", b"\0")] + [("raw", r.randbytes(n)) for n in [1, 2, 15, 16, 17, 31, 32, 59, 60, 61, 63, 64, 65, 127, 128, 129, 500]]
    return out + [("raw", r.randbytes(r.randrange(300))) for _ in range(100 if t else 15)]


def twins(r, t):
    """groups of keys that have parts in common, in documents of their own"""
    out = []
    for g in range(3 if not t else 12):
        a, b = root(r), root(r)
        cut = lambda *xs: b"".join(x[32 * i:32 * i + 32] for i, x in enumerate(xs))
        for k in (a, b, cut(a, a, b), cut(a, b, a), cut(b, a, a), cut(a, b, b), cut(b, b, a), a[:95] + bytes([a[95] ^ 1]), bytes([a[0] ^ 8]) + a[1:]):
            out.append((f"{ADA}:{g}", outer(2, inner(keys=[(ADA, k)]))))
        for net in (BTC, ETH):
            x, y = [(r.randrange(1, 200), r.randbytes(4), r.getrandbits(31) + 1, r.randbytes(32), (r.getrandbits(250) + 1).to_bytes(32, "big")) for _ in range(2)]
            n = (NORD - int.from_bytes(x[4], "big")).to_bytes(32, "big")      # the same point, mirrored
            for k in [x, y] + [x[:i] + (y[i],) + x[i + 1:] for i in range(5)] + [x[:4] + (n,), (0, bytes(4), 0) + x[3:], x[:3] + (x[3][:31] + bytes([x[3][31] ^ 1]), x[4])]:
                out.append((f"{net}:{g}", outer(2, inner(keys=[(net, serial(*k))]))))
    return out


KINDS = {"twins": twins, "docs": docs, "keys": keydata, "hostile": hostile, "raw": raw}
NEEDS = {"C03": ["docs", "raw"], "C04": ["docs"], "C05": ["docs"], "C06": ["docs"], "C07": ["keys", "docs"], "C08": ["twins"], "C09": ["twins"], "C11": ["twins"], "C18": ["docs", "keys"], "C19": ["docs", "keys"], "C25": ["docs", "keys", "hostile"]}


def make(prop, thorough, seed, work):
    """seals what the property's generators use; returns {kind: list}"""
    made = {}
    items = []
    for kind in NEEDS.get(prop, []):
        r = random.Random(f"{kind}/{seed}/{thorough}")
        salts = {pw: (r.randbytes(32).hex(), r.randbytes(12)) for pw in PWS}
        for n, (c, p) in enumerate(KINDS[kind](r, thorough)):
            pw = r.choice(PWS if n % 3 else ["61"])
            salt, nonce = salts[pw]
            items.append({"set": kind, "kind": c, "pw": pw, "salt": salt, "nonce": (int.from_bytes(nonce, "big") ^ n).to_bytes(12, "big").hex(), "pt": p.hex()})
    for x, y in zip(items, seal(items, work)):
        made.setdefault(x["set"], []).append(y)
    if prop in ("C01", "C03", "C05", "C06", "C07"):
        made["foreign"] = foreign(random.Random(f"foreign/{seed}"), thorough, work)
    if prop == "C11":
        made["sigs"] = sigs(random.Random(f"sigs/{seed}"), thorough, work)
    return made


def sigs(r, t, work):
    """signatures of what other schemes make of a message, and other spellings of the right one; {net, seed, p, of: the message, kind, b}"""
    from gen import keccak256 as kec
    h = lambda n: lambda b: hashlib.new(n, b).digest()
    s2, s5, s3 = h("sha256"), h("sha512"), h("sha3_256")
    vi = lambda n: bytes([n]) if n < 253 else b"\xfd" + struct.pack("<H", n)
    eth = lambda b: b"\x19Ethereum Signed Message:\n" + str(len(b)).encode() + b
    eth32 = lambda b: b"\x19Ethereum Signed Message:\n32" + kec(b)
    btc = lambda b: b"\x18Bitcoin Signed Message:\n" + vi(len(b)) + b
    lit = lambda b: b"\x19Litecoin Signed Message:\n" + vi(len(b)) + b
    cut = lambda b: (b + bytes(32))[:32]
    digs = {"none": cut, "right": lambda b: b.rjust(32, b"\0")[-32:], "sha256": s2, "double sha256": lambda b: s2(s2(b)), "sha512": lambda b: s5(b)[:32], "sha512/256": h("sha512_256"), "sha3": s3, "keccak twice": lambda b: kec(kec(b)),
            "keccak of sha256": lambda b: kec(s2(b)), "sha256 of keccak": lambda b: s2(kec(b)), "blake2b": lambda b: hashlib.blake2b(b, digest_size=32).digest(), "blake2s": lambda b: hashlib.blake2s(b).digest(), "hash160": lambda b: (hashlib.new("ripemd160", s2(b)).digest() if "ripemd160" in hashlib.algorithms_available else b"").rjust(32, b"\0"),
            "ethereum": lambda b: kec(eth(b)), "ethereum hash": lambda b: kec(eth32(b)), "ethereum hex": lambda b: kec(eth(b"0x" + b.hex().encode())), "bitcoin": lambda b: s2(s2(btc(b))), "bitcoin once": lambda b: s2(btc(b)), "bitcoin keccak": lambda b: kec(btc(b)), "litecoin": lambda b: s2(s2(lit(b))),
            "ethereum sha": lambda b: s2(eth(b)), "reversed": lambda b: kec(b)[::-1], "reversed message": lambda b: kec(b[::-1]), "hex": lambda b: kec(b.hex().encode()), "HEX": lambda b: kec(b.hex().upper().encode()), "0x": lambda b: kec(b"0x" + b.hex().encode()),
            "base64": lambda b: kec(b64(b).encode()), "nul": lambda b: kec(b + b"\0"), "newline": lambda b: kec(b + b"\n"), "stripped": lambda b: kec(b.strip()), "rtrim": lambda b: kec(b.rstrip(b"\0")), "zero": lambda b: bytes(32), "empty": lambda b: kec(b""), "cut 20": lambda b: kec(b)[:20].rjust(32, b"\0"),
            "tagged": lambda b: s2(s2(b"BIP0340/challenge") * 2 + b), "1901": lambda b: kec(b"\x19\x01" + kec(b"") + kec(b)), "tron": lambda b: kec(b"\x19TRON Signed Message:\n" + str(len(b)).encode() + b), "length": lambda b: kec(struct.pack("<Q", len(b)) + b), "length be": lambda b: kec(struct.pack(">I", len(b)) + b),
            "lower": lambda b: kec(b.lower()), "crlf": lambda b: kec(b.replace(b"\n", b"\r\n")), "utf-16": lambda b: kec(b.decode("latin-1").encode("utf-16-le")), "json": lambda b: kec(dump(b.decode("latin-1")).encode()), "chunk": lambda b: kec(b[:32]), "block": lambda b: kec(b[:136])}
    msgs = {"sha512": s5, "sha256": s2, "blake2b": lambda b: hashlib.blake2b(b, digest_size=32).digest(), "blake2b-224": lambda b: hashlib.blake2b(b, digest_size=28).digest(), "sha3": s3, "ph": lambda b: b"SigEd25519 no Ed25519 collisions\1\0" + s5(b),
            "ctx": lambda b: b"SigEd25519 no Ed25519 collisions\0\0" + b, "hex": lambda b: b.hex().encode(), "0x": lambda b: b"0x" + b.hex().encode(), "base64": lambda b: b64(b).encode(), "nul": lambda b: b + b"\0", "newline": lambda b: b + b"\n",
            "stripped": lambda b: b.strip(), "rtrim": lambda b: b.rstrip(b"\0"), "cose": lambda b: b"\x84\x6aSignature1\x43\xa1\x01\x27\x40" + (bytes([0x40 + len(b)]) if len(b) < 24 else b"\x58" + bytes([len(b) & 255])) + b,
            "cbor": lambda b: (bytes([0x40 + len(b)]) if len(b) < 24 else b"\x58" + bytes([len(b) & 255])) + b, "bytes": lambda b: b"<Bytes>" + b + b"</Bytes>", "reversed": lambda b: b[::-1], "empty": lambda b: b"", "ethereum": eth, "bitcoin": btc, "lower": lambda b: b.lower(),
            "crlf": lambda b: b.replace(b"\n", b"\r\n"), "block": lambda b: b[:128], "twice": lambda b: b + b, "length": lambda b: struct.pack(">I", len(b)) + b}
    items = []
    for net in (BTC, ETH, ADA):
        seed = r.randbytes(64).hex()
        hexn = "%08x" % net
        for m in [b" Hello\nWorld \0", r.randbytes(32)] + ([b"", r.randbytes(20), r.randbytes(200)] if t else []):
            path = ["8000002c", hexn, "%08x" % (0x80000000 + r.randrange(5)), "%08x" % (0 if net == ETH else r.randrange(2)), "%08x" % r.randrange(9)]
            base = {"set": "sigs", "net": hexn, "seed": seed, "p": path, "of": m.hex()}
            for k, f in (msgs if net == ADA else digs).items():
                x = f(m)
                items.append(dict(base, kind=k, d="" if net == ADA else x.hex(), m=x.hex() if net == ADA else ""))
            items.append(dict(base, kind="own", d="", m=m.hex()))
    made = seal(items, work)
    out = list(made)
    for x in made:
        if x["kind"] != "own":
            continue
        b = bytes.fromhex(x["b"])
        R, S, v = b[:32], b[32:64], b[64:] and b[64]
        num = lambda y: int.from_bytes(y, "big")
        i_ = lambda y: (lambda z: b"\2" + bytes([len(z)]) + z)((b"\0" if y[0] & 0x80 else b"") + y)
        body = i_(R.lstrip(b"\0")) + i_(S.lstrip(b"\0"))
        der = b"\x30" + bytes([len(body)]) + body
        alts = {"hex": b.hex().encode(), "base64": b64(b).encode(), "0x": b"0x" + b.hex().encode(), "swapped": S + R + b[64:], "little": R[::-1] + S[::-1] + b[64:], "reversed": b[::-1], "twice": b + b, "r twice": R + R, "s twice": S + S, "der": der, "der all": der + b"\1", "json": dump(list(b)).encode(),
                "r only": R + bytes(32), "s only": bytes(32) + S, "r r": R + R + b[64:], "padded": b + b"\0", "header": b"\0" + b, "with key": b + R, "plus": b + bytes(32)}
        if v != b"":
            top = bytes([S[0] | (v & 1) << 7]) + S[1:]
            neg = (NORD - num(S)).to_bytes(32, "big")
            alts.update({"2098": R + top, "2098 set": R + bytes([S[0] | 0x80]) + S[1:], "v first": bytes([v]) + b[:64], "27 first": bytes([27 + v]) + b[:64], "31 first": bytes([31 + v]) + b[:64], "27": b[:64] + bytes([27 + v]), "28 - v": b[:64] + bytes([28 - v]), "35": b[:64] + bytes([37 + v]), "high": R + neg, "high v": R + neg + bytes([v]),
                         "high v^1": R + neg + bytes([v ^ 1]), "v wide": b[:64] + bytes([0, v]), "v+4": b[:64] + bytes([v + 4]), "v|128": b[:64] + bytes([v | 128]), "v+2": b[:64] + bytes([v + 2]), "r+n": (num(R) + NORD).to_bytes(33, "big")[-32:] + S, "ff": b"\xff" * 64, "rff": R + b"\xff" * 32, "ffs": b"\xff" * 32 + S, "ascii v": b[:64] + b"%d" % v})
            alts.update({f"last {n}": b[:64] + bytes([n]) for n in range(256)})
        else:
            alts.update({f"top {n}": b[:63] + bytes([b[63] ^ n]) for n in (1, 8, 16, 32, 64, 128, 224, 0xf0)})
        for n in [0, 1, 2, 127, 128, 0xee, 0xff] if not t else range(256):
            alts[f"all {n}"] = bytes([n]) * 64
            alts[f"all {n} long"] = bytes([n]) * 65
        out += [dict(x, kind="own " + k, b=y.hex()) for k, y in alts.items()]
    return out


def foreign(r, t, work):
    """containers some other scheme would have written: other keys, associated data, orders and armours; [kind, pw, b]"""
    pw = b"pass word"
    salt, nonce = r.randbytes(32), r.randbytes(12)
    pt = outer(2, inner(seed=r.randbytes(64), keys=[(BTC, key(BTC, r))]))
    kdf = lambda h="sha512", p=pw, s=salt, n=19162, l=32: hashlib.pbkdf2_hmac(h, p, s, n, l)
    own = kdf()
    v = []
    add = lambda kind, k=own, aad=b"", no=nonce, lay="snte": v.append((kind, k, aad, no, lay))
    for n in (1, 2, 1000, 1024, 2048, 4096, 10000, 19161, 19163, 20000, 38324) + ((65536, 100000) if t else ()):
        add(f"rounds {n}", kdf(n=n))
    for h in ("sha256", "sha1", "sha384", "sha3_512"):
        add(h, kdf(h))
    add("second half", kdf(l=64)[32:])
    for s in (b"", nonce, salt[::-1], salt[:16], salt + nonce, nonce + salt, b"mnemonic", bytes(32), salt + pw, b"mnemonic" + salt):
        add("salt", kdf(s=s))
    for p in (b"", pw + salt, salt + pw, pw[::-1], pw.upper(), hashlib.sha256(pw).digest(), hashlib.sha512(pw).digest(), pw.hex().encode(), pw.decode().encode("utf-16-le"), b64(pw).encode(), salt):
        add("password", kdf(p=p))
    add("roles", kdf(p=salt, s=pw))
    for k in (pw.ljust(32, b"\0"), pw.ljust(32), hashlib.sha256(pw).digest(), hashlib.sha512(pw).digest()[:32], hashlib.sha256(pw + salt).digest(), hashlib.sha256(salt + pw).digest(), bytes(32), salt, own[::-1], hashlib.sha256(own).digest()):
        add("key", k)
    for a in (salt, nonce, salt + nonce, nonce + salt, b"\0", b"\1", b"\2", b"1", b"2", b"v2", bytes(16), b"keychain", b"tesseract", pw, b"ChaCha20-Poly1305", own):
        add("aad", aad=a)
    for n in (bytes(12), nonce[::-1], salt[:12], salt[-12:], bytes(4) + nonce[4:], nonce[:4] + bytes(8), nonce[:8] + bytes(4), bytes(4) + nonce[:8], own[:12]):
        add("nonce", no=n)
    for lay in ("snet", "nste", "nset", "tsne", "tnse", "stne", "ents", "esnt", "etns", "sent", "nest"):
        add("layout " + lay, lay=lay)
    made = seal([{"set": "foreign", "kind": k, "pw": pw.hex(), "key": x.hex(), "aad": a.hex(), "nonce": n.hex(), "pt": pt.hex()} for k, x, a, n, _ in v]
                + [{"set": "foreign", "kind": "own", "pw": pw.hex(), "key": own.hex(), "aad": "", "nonce": nonce.hex(), "pt": pt.hex()}], work)
    out = []
    for (kind, _, _, _, lay), m in zip(v, made):
        c = bytes.fromhex(m["b"])
        p = {"s": salt, "n": nonce, "t": c[-16:], "e": c[:-16]}
        out.append({"kind": kind, "pw": pw.hex(), "b": b"".join(p[x] for x in lay).hex()})
    c = bytes.fromhex(made[-1]["b"])
    g = salt + nonce + c[-16:] + c[:-16]
    out.append({"kind": "own", "pw": pw.hex(), "b": g.hex()})
    for kind, b in [("hex", g.hex().encode()), ("HEX", g.hex().upper().encode()), ("0x", b"0x" + g.hex().encode()), ("base64", b64(g).encode()), ("base64 bare", b64(g).rstrip("=").encode()),
                    ("base64 url", base64.urlsafe_b64encode(g)), ("base64 lines", base64.encodebytes(g)), ("json text", dump(b64(g)).encode()), ("json list", dump(list(g)).encode()),
                    ("json", dump({"version": 1, "data": b64(g)}).encode()), ("json hex", dump({"salt": salt.hex(), "nonce": nonce.hex(), "tag": c[-16:].hex(), "data": c[:-16].hex()}).encode()),
                    ("pem", b"-----BEGIN KEYCHAIN-----\n" + base64.encodebytes(g) + b"-----END KEYCHAIN-----\n"), ("reversed", g[::-1]), ("words reversed", b"".join(g[i:i + 4][::-1] for i in range(0, len(g), 4))),
                    ("twice", g + g), ("length", struct.pack(">I", len(g)) + g), ("length le", struct.pack("<I", len(g)) + g), ("long length", struct.pack("<Q", len(g)) + g), ("magic", b"KCHN" + g),
                    ("version", b"\1" + g), ("version 2", b"\2" + g), ("utf-16", g.decode("latin-1").encode("utf-16-le")), ("utf-8", g.decode("latin-1").encode()), ("padded", g + bytes(-len(g) % 16 or 16)),
                    ("pkcs7", g + bytes([-len(g) % 16 or 16]) * (-len(g) % 16 or 16)), ("checksum", g + hashlib.sha256(g).digest()[:4]), ("double checksum", g + hashlib.sha256(hashlib.sha256(g).digest()).digest()[:4]),
                    ("plain", pt), ("plain content", dump(inner(seed=bytes(64))).encode()), ("plain base64", b64(pt).encode()), ("under zeros", bytes(60) + pt), ("xored", bytes(60) + bytes(x ^ y for x, y in zip(pt, (pw * len(pt)))))]:
        out.append({"kind": kind, "pw": pw.hex(), "b": b.hex()})
    return out


def seal(items, work):
    if not items:
        return []
    i, o = os.path.join(work, "payloads.ndj"), os.path.join(work, "fixtures.ndj")
    with open(i, "w") as f:
        f.writelines(json.dumps(x) + "\n" for x in items)
    rc, text = lib.tlc("Fixtures", "Fixtures.cfg", env={"IN": i, "OUT": o}, work=work)
    if rc:
        raise lib.ToolError("Fixtures: " + lib.brief_tlc(text))
    res = [json.loads(l) for l in open(o)]
    assert len(res) == len(items)
    return res

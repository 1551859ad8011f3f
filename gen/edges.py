"""Searches seeds and paths whose keys have unusual shapes on the way (leading zero bytes, carries); writes edge-seeds.json."""
import hashlib, hmac, json, os, random, struct
H = 0x80000000
BTC, ETH, ADA = H, H + 60, H + 1815
P, N = 2**256 - 2**32 - 977, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
Q, D, L = 2**255 - 19, -121665 * pow(121666, -1, 2**255 - 19) % (2**255 - 19), 2**252 + 27742317777372353535851937790883648493


def dbl(a):
    x, y, z = a
    if not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * y ** 4) % P, 2 * y * z % P


def addj(a, b):
    if not a[2]: return b
    if not b[2]: return a
    z1, z2 = a[2] * a[2] % P, b[2] * b[2] % P
    u1, u2, s1, s2 = a[0] * z2 % P, b[0] * z1 % P, a[1] * z2 * b[2] % P, b[1] * z1 * a[2] % P
    if u1 == u2:
        return dbl(a) if s1 == s2 else (0, 1, 0)
    h, r = u2 - u1, s2 - s1
    x = (r * r - h ** 3 - 2 * u1 * h * h) % P
    return x, (r * (u1 * h * h - x) - s1 * h ** 3) % P, h * a[2] * b[2] % P


TAB = []
_p = (*G, 1)
for _ in range(256):
    TAB.append(_p)
    _p = dbl(_p)


def mul(k):
    r, i = (0, 1, 0), 0
    while k:
        if k & 1:
            r = addj(r, TAB[i])
        k >>= 1
        i += 1
    zi = pow(r[2], -1, P)
    return r[0] * zi * zi % P, r[1] * zi ** 3 % P


def hm(k, d):
    return hmac.new(k, d, hashlib.sha512).digest()


def child(k, c, i):
    d = b"\0" + k.to_bytes(32, "big") if i >= H else (lambda q: bytes([2 + q[1] % 2]) + q[0].to_bytes(32, "big"))(mul(k))
    h = hm(c, d + struct.pack(">I", i))
    return (int.from_bytes(h[:32], "big") + k) % N, h[32:], int.from_bytes(h[:32], "big") + k >= N


# edwards25519, extended coordinates
def eadd(a, b):
    A, B = (a[1] - a[0]) * (b[1] - b[0]) % Q, (a[1] + a[0]) * (b[1] + b[0]) % Q
    C, F = 2 * a[3] * b[3] * D % Q, 2 * a[2] * b[2] % Q
    E, G_, H_, I = B - A, F - C, F + C, B + A
    return E * G_ % Q, H_ * I % Q, G_ * H_ % Q, E * I % Q


by = 4 * pow(5, -1, Q) % Q
bx2 = (by * by - 1) * pow(D * by * by + 1, -1, Q) % Q
bx = pow(bx2, (Q + 3) // 8, Q)
if (bx * bx - bx2) % Q:
    bx = bx * pow(2, (Q - 1) // 4, Q) % Q
if bx % 2:
    bx = Q - bx
ETAB = []
_e = (bx, by, 1, bx * by % Q)
for _ in range(256):
    ETAB.append(_e)
    _e = eadd(_e, _e)


def emul(k):
    r, i = (0, 1, 1, 0), 0
    while k:
        if k & 1:
            r = eadd(r, ETAB[i])
        k >>= 1
        i += 1
    zi = pow(r[2], -1, Q)
    return (r[1] * zi % Q | (r[0] * zi % Q & 1) << 255).to_bytes(32, "little")


def cchild(kl, kr, c, i):
    le = struct.pack("<I", i)
    if i >= H:
        z, cc = hm(c, b"\0" + kl + kr + le), hm(c, b"\1" + kl + kr + le)[32:]
    else:
        a = emul(int.from_bytes(kl, "little"))
        z, cc = hm(c, b"\2" + a + le), hm(c, b"\3" + a + le)[32:]
    l = 8 * int.from_bytes(z[:28], "little") + int.from_bytes(kl, "little")
    r = int.from_bytes(z[32:], "little") + int.from_bytes(kr, "little")
    return (l % 2**256).to_bytes(32, "little"), (r % 2**256).to_bytes(32, "little"), cc, r >= 2**256


out, count = [], {}
r = random.Random(7)


def note(kind, seed, net, p, most=3):
    k = (kind, net)
    if count.get(k, 0) < most:
        count[k] = count.get(k, 0) + 1
        out.append({"kind": kind, "seed": seed.hex(), "net": "%08x" % net, "p": ["%08x" % x for x in p]})


def shapes(b):
    return ["0"] if b[0] == 0 and b[1] else ["00"] if b[:2] == b"\0\0" else []


def tails(b):
    return ["t"] if b[-1] == 0 else []


# masters
for i in range(400000):
    seed = hashlib.sha512(b"edge%d" % i).digest()
    h = hm(b"Bitcoin seed", seed)
    for s in shapes(h[:32]):
        for net in (BTC, ETH):
            note("master k " + s, seed, net, [H + 44, net, H, 0, 0])
    for s in shapes(h[32:]) + tails(h[32:]):
        for net in (BTC, ETH):
            note("master c " + s, seed, net, [H + 44, net, H, 1, 1])
    if i < 3000:
        x = bytearray(hashlib.sha512(seed[:32]).digest())
        x[0] &= 0xF8
        x[31] = (x[31] & 0x1F) | 0x40
        if x[0] == 0:
            note("root l0", seed, ADA, [H + 44, ADA, H, 0, 0])
        if x[32] == 0 or x[63] == 0:
            note("root r0", seed, ADA, [H + 44, ADA, H, 0, 0])
# on the way
for net in (BTC, ETH):
    names = ["purpose", "coin", "account", "change", "address"]
    for s in range(200):
        seed = hashlib.sha512(b"way%d" % s).digest()
        h = hm(b"Bitcoin seed", seed)
        k, c = int.from_bytes(h[:32], "big"), h[32:]
        purposes = [H + 44] if net == ETH else [H + 44, H + 49, 7, H + r.randrange(1000)]
        for pu in purposes:
            k1, c1, _ = child(k, c, pu)
            k2, c2, _ = child(k1, c1, net)
            for a in range(6):
                k3, c3, _ = child(k2, c2, H + a)
                for ch in (0, 1):
                    k4, c4, o4 = child(k3, c3, ch)
                    p = [pu, net, H + a, ch, r.randrange(3)]
                    for n, kk, cc in [("purpose", k1, c1), ("coin", k2, c2), ("account", k3, c3), ("change", k4, c4)]:
                        for x in shapes(kk.to_bytes(32, "big")):
                            note(n + " k " + x, seed, net, p)
                        for x in shapes(cc) + tails(cc):
                            note(n + " c " + x, seed, net, p, 2)
                    if s < 20:
                        q3, q4 = mul(k3), mul(k4)
                        for n, q in (("account", q3), ("change", q4)):
                            if q[0] < 2**248:
                                note(n + " x 0", seed, net, p)
    # addresses
    for s in range(2):
        seed = hashlib.sha512(b"addr%d" % s).digest()
        h = hm(b"Bitcoin seed", seed)
        k, c = int.from_bytes(h[:32], "big"), h[32:]
        for i in (H + 44, net, H, 0):
            k, c, _ = child(k, c, i)
        for a in range(1500):
            ka, ca, over = child(k, c, a)
            q = mul(ka)
            p = [H + 44, net, H, 0, a]
            for x in shapes(ka.to_bytes(32, "big")):
                note("address k " + x, seed, net, p)
            if q[0] < 2**248:
                note("address x 0", seed, net, p)
            if q[1] < 2**248:
                note("address y 0", seed, net, p)
            if q[1] < 2**240 or q[0] < 2**240:
                note("address xy 00", seed, net, p)
            if over:
                note("address over", seed, net, p)
for s in range(60):
    seed = hashlib.sha512(b"ada%d" % s).digest()
    x = bytearray(hashlib.sha512(seed[:32]).digest())
    x[0] &= 0xF8
    x[31] = (x[31] & 0x1F) | 0x40
    st = (bytes(x[:32]), bytes(x[32:]), seed[32:])
    for i in (H + 44, ADA):
        *st, _ = cchild(*st, i)
    for a in range(3):
        s3 = cchild(*st, H + a)
        for ch in (0, 1):
            s4 = cchild(*s3[:3], ch)
            for ad in range(4):
                s5 = cchild(*s4[:3], ad)
                A = emul(int.from_bytes(s5[0], "little"))
                p = [H + 44, ADA, H + a, ch, ad]
                for n, y in (("account", s3), ("change", s4), ("address", s5)):
                    for j, w in enumerate("lrc"):
                        if y[j][31] == 0:
                            note(f"{n} {w} end0", seed, ADA, p)
                        if y[j][0] == 0:
                            note(f"{n} {w} 0", seed, ADA, p)
                    if y[3]:
                        note(n + " over", seed, ADA, p, 2)
                    if y[0][31] & 0x20:
                        note(n + " high", seed, ADA, p, 2)      # left half beyond 2^253
                if A[31] == 0 or A[0] == 0 or A[31] == 0x80:
                    note("point 0", seed, ADA, p)
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "edge-seeds.json")
with open(path, "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(x) for x in out) + "\n]\n")
print(len(out), sorted(count.items()))

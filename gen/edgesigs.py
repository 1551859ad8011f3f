"""Searches messages whose digests and signatures have unusual shapes; writes edge-sigs.json."""
import hashlib, hmac, json, os, sys
sys.argv = ["x"]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "edges.py")).read().split("out, count")[0]
exec(src)
M64 = 2**64 - 1
RC, _r = [], 1
for i in range(24):
    c = 0
    for j in range(7):
        if _r & 1:
            c ^= 1 << ((1 << j) - 1)
        _r = (_r << 1) ^ (0x171 if _r & 0x80 else 0)
    RC.append(c)
rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M64 if n else x


def keccak256(m):
    m = bytearray(m) + b"\1"
    m += bytes(-len(m) % 136)
    m[-1] |= 0x80
    a = [[0] * 5 for _ in range(5)]
    for o in range(0, len(m), 136):
        for i in range(17):
            a[i % 5][i // 5] ^= int.from_bytes(m[o + 8 * i:o + 8 * i + 8], "little")
        for rc in RC:
            c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
            d = [c[(x - 1) % 5] ^ rot(c[(x + 1) % 5], 1) for x in range(5)]
            a = [[a[x][y] ^ d[x] for y in range(5)] for x in range(5)]
            x, y, cur = 1, 0, a[1][0]
            for t in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                cur, a[x][y] = a[x][y], rot(cur, (t + 1) * (t + 2) // 2 % 64)
            for y in range(5):
                T = [a[x][y] for x in range(5)]
                for x in range(5):
                    a[x][y] = T[x] ^ (~T[(x + 1) % 5] & M64 & T[(x + 2) % 5])
            a[0][0] ^= rc
    return b"".join(a[i % 5][i // 5].to_bytes(8, "little") for i in range(4))


assert keccak256(b"abc").hex() == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
mac = lambda k, d: hmac.new(k, d, hashlib.sha256).digest()


def rfc6979(k, z):
    x = k.to_bytes(32, "big") + z
    V, K = b"\1" * 32, bytes(32)
    K = mac(K, V + b"\0" + x); V = mac(K, V)
    K = mac(K, V + b"\1" + x); V = mac(K, V)
    return int.from_bytes(mac(K, V), "big")


out, count = [], {}
for net in (BTC, ETH):
    seed = hashlib.sha512(b"sig%d" % net).digest()
    h = hm(b"Bitcoin seed", seed)
    k, c = int.from_bytes(h[:32], "big"), h[32:]
    for i in (H + 44, net, H, 0, 0):
        k, c, _ = child(k, c, i)
    for i in range(3000):
        m = b"message %d" % i
        z = keccak256(m)
        n = rfc6979(k, z)
        R = mul(n)
        r = R[0] % N
        s0 = pow(n, -1, N) * (int.from_bytes(z, "big") + r * k) % N
        s = min(s0, N - s0)
        kinds = [x for x, f in [("r0", r < 2**248), ("s0", s < 2**247), ("z0", z[0] == 0), ("r00", r < 2**240), ("s00", s < 2**240), ("n0", n < 2**248),
                                ("low%d" % (R[1] % 2), s == s0), ("high%d" % (R[1] % 2), s != s0), ("rt", r % 256 == 0), ("st", s % 256 == 0)] if f]
        for x in kinds:
            if count.get((x, net), 0) < 2:
                count[(x, net)] = count.get((x, net), 0) + 1
                out.append({"kind": x, "seed": seed.hex(), "net": "%08x" % net, "p": ["%08x" % y for y in (H + 44, net, H, 0, 0)], "m": m.hex()})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "edge-sigs.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(x) for x in out) + "\n]\n")
print(len(out), sorted(count))

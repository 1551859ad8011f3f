"""Model checking per property, and the behaviours it gives to replay."""
import collections, json, random, re
import fixtures, gen, lib
from gen import BTC, ETH, ADA, LANGS, G, phrase, tx
from lib import Script, ToolError


class Checked:
    def __init__(self):
        self.scripts, self.states, self.transitions, self.report = [], 0, 0, []


def mc(res, module, cfg=None, env=None, work=None, concrete=False, timeout=700, heap="6g"):
    """Model checks; returns the lines printed by the model's Emit (after the tag EDGE)."""
    rc, o = lib.tlc(module, cfg or module + ".cfg", env=env, work=work, workers=str(lib.WORKERS), concrete=concrete,
                    timeout=timeout, heap=heap, gc="Parallel")
    if rc:
        raise ToolError(f"{module}: " + lib.brief_tlc(re.sub(r'(?m)^"EDGE.*\n', "", o)))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", o)
    if not m:
        raise ToolError(f"{module}: no result\n" + lib.brief_tlc(o))
    gen_, dist = int(m.group(1)), int(m.group(2))
    res.states += dist
    res.transitions += gen_
    d = re.search(r"depth of the complete state graph search is (\d+)", o)
    res.report.append({"model": module, "states": dist, "transitions": gen_, "depth": int(d.group(1)) if d else 0, "complete": True})
    return [json.loads(json.loads(l)[5:]) for l in o.splitlines() if l.startswith('"EDGE ')]


# ---------------------------------------------------------------------------------------- the vault
MGRS = {"all": [(BTC, 128, "std"), (ETH, 128, "std"), (ADA, 96, "std")], "be": [(BTC, 128, "std"), (ETH, 128, "std")], "a": [(ADA, 96, "std")],
        "e": [(ETH, 128, "std")], "bx": [(BTC, 128, "std"), ("X", 96, "echo")], "x": [("X", 160, "echo")], "ax": [(ADA, 96, "std"), ("X", 96, "echo")],
        "ek": [(ETH, 128, "std"), ("X", 96, "badkey")], "el": [(ETH, 128, "std"), ("X", 96, "badload")]}
WANT = {  # which transitions a property replays: predicate on (from, call, to)
    "C01": lambda f, a, t: a["op"] in ("open", "keys", "retr", "chpw", "add") and (f["st"] != "sealed" or f["pw"] != a["args"]["pw"]) or a["op"] == "open" and f["pw"] == a["args"]["pw"] and a["args"]["m"] == "x",
    "C04": lambda f, a, t: a["op"] in ("seed", "mnem"),
    "C05": lambda f, a, t: a["op"] == "chpw",
    "C06": lambda f, a, t: a["op"] == "add",
    "C07": lambda f, a, t: a["op"] in ("open", "keys", "retr"),
}


def vault(res, prop, thorough, seed, work):
    edges = mc(res, "VaultMC", work=work)
    g = G("vault" + prop, seed, thorough)
    X, U = g.pick([("0000beef", "8000beee"), ("8000beef", "0000beee"), ("0000beef", "00001eee")])
    net = {"B": BTC, "E": ETH, "A": ADA, "X": X, "U": U}
    l1 = LANGS[(seed + int(prop[1:])) % 8]
    while True:
        l2 = g.lang()
        if l2[:7] != l1[:7]:
            break
    words = lambda n: phrase(l1, g.ent(n))
    ph = {"P12": words(16), "P9": words(12), "P15": words(20)}
    bad = words(16).split(" ")
    bad[g.r.randrange(12)] = "?"
    ph["Pbad"] = " ".join(bad)
    ph["Podd"] = " ".join(words(16).split(" ")[:11])
    own = set(gen.DICT[l2])
    for p in ph.values():
        assert sum(w not in own for w in p.split(" ")) > 0
    pws = dict(zip("uv", g.two_pws()))
    seeds = {"s1": g.b(64), "s2": g.b(64), "short": g.b(63)}
    key = lambda st: json.dumps(st, sort_keys=True)
    # the graph
    states, out = {}, collections.defaultdict(list)
    for f, a, t in edges:
        a["op"] == "damage" or states.setdefault(key(f), f)
        out[key(f)].append((a, t))
    parent, order = {}, []
    start = next(k for k in states if states[k]["st"] == "none")
    todo = collections.deque([start])
    seen = {start}
    while todo:
        k = todo.popleft()
        order.append(k)
        for a, t in out[k]:
            kt = key(t)
            if not a["errs"] and kt not in seen and t["st"] != "none":
                seen.add(kt)
                parent[kt] = (k, a)
                todo.append(kt)
    sel = [(k, a, t) for k in order for a, t in out[k] if WANT[prop](states.get(k) or {}, a, t)]
    total = len(sel)
    most = {"C04": 130, "C06": 300}.get(prop, 200)
    if not thorough and len(sel) > most:
        # of every kind of call and outcome some
        groups = collections.defaultdict(list)
        for k, a, t in sel:
            st, kept = states.get(k) or {}, ()
            if a["op"] in ("add", "open") and not a["errs"]:
                # what is stored besides, known to the manager or not
                d = st["doc"]
                have = set(d["keys"]) if isinstance(d["keys"], dict) else set()
                known = {n for n, _, _ in MGRS[a["args"]["m"]]}
                kept = (d["seed"][0], d["mnem"][0], bool(have & known), tuple(sorted(have - known)))
            groups[(a["op"], a["args"].get("m") if not kept else None, a["args"].get("n"), tuple(sorted(a["errs"])), kept)].append((k, a, t))
        sel = []
        for v in groups.values():
            g.r.shuffle(v)
        while len(sel) < most and groups:
            for n in sorted(groups, key=str):
                sel.append(groups[n].pop())
                if not groups[n]:
                    del groups[n]
    elif len(sel) > 6000:
        sel = g.r.sample(sel, 6000)
    # documents from elsewhere are sealed by the specification
    crafted = []
    for f, a, t in edges:
        if a["op"] == "craft":
            crafted.append(t)
    some = lambda v, m: "none" if v[0] == "none" else m(v[1])
    items = []
    for t in crafted:
        d, pw = t["doc"], pws[t["pw"]]
        x = {"set": "vault", "kind": "vault", "pw": pw, "salt": g.b(32), "nonce": g.b(12)}
        if d["ok"]:
            keys = d["keys"] if isinstance(d["keys"], dict) else {}
            x.update(ver=d["ver"], seed=some(d["seed"], seeds.get), mnem=some(d["mnem"], lambda p: tx(ph[p])), dict=some(d["dict"], {"L1": l1, "L2": l2}.get),
                     keys=[{"n": net[n], "of": net[k], "b": seeds[s]} for n, (k, s) in keys.items()])
        else:
            x["pt"] = g.pick([tx('{"version":3,"data":"e30="}'), tx("not a document"), "", tx('{"version":2,"data":"e30="}')])
        items.append(x)
    sealed = dict(zip(map(key, crafted), fixtures.seal(items, work)))
    mgr = lambda m: {"op": "mgr.new", "id": m, "how": "facts", "f": [{"net": net.get(n, n), "min": mn, "max": 256, "kind": k} for n, mn, k in MGRS[m]]}

    def call(a, h, o):
        r = a["args"]
        e = {"sym": sorted(a["errs"])}
        if a["op"] == "seed":
            e.update(op="mgr.seed", id=r["m"], seed=seeds[r["s"]], pw=pws[r["pw"]], out=o)
        elif a["op"] == "mnem":
            e.update(op="mgr.mnem", id=r["m"], t=tx(ph[r["t"]]), lang={"L1": l1, "L2": l2}[r["l"]], pw=pws[r["pw"]], out=o)
        elif a["op"] == "craft":
            e = {"op": "put", "out": o, "b": sealed[key({"st": "sealed", "pw": r["pw"], "doc": r["doc"]})]["b"]}
        elif a["op"] == "damage":
            tr = {"flip": [{"flip": g.r.randrange(480 + 8)}, {"flip": g.r.randrange(2000)}], "cut": [{"cut": 1}, {"cutl": 1}, {"len": 60}], "short": [{"len": 59}, {"len": 0}, {"len": g.r.randrange(60)}], "grow": [{"app": "00"}, {"pre": "00"}, {"app": g.b(16)}]}
            e = {"op": "put", "out": o, "b": dict(g.pick(tr[r["how"]]), ref=h)}
        elif a["op"] == "chpw":
            e.update(op="mgr.chpw", id=r["m"], pw=pws[r["pw"]], npw=pws[r["npw"]], out=o, **{"in": h})
        elif a["op"] == "add":
            e.update(op="mgr.add", id=r["m"], pw=pws[r["pw"]], net=net[r["n"]], out=o, **{"in": h})
        elif a["op"] == "open":
            e.update(op="mgr.open", id=r["m"], pw=pws[r["pw"]], kc=o, **{"in": h})
        else:
            e.update(op="mgr." + a["op"], id=r["m"], pw=pws[r["pw"]], **{"in": h})
        return e

    # scripts: states in the order of the search tree, each with the calls chosen on it
    on = collections.defaultdict(list)
    for k, a, t in sel:
        on[k].append((a, t))
    n = 7 if not thorough else 24
    parts = [[] for _ in range(n)]
    load = [0] * n
    for k in sorted(on, key=lambda k: -len(on[k])):
        if k == start:
            for i, x in enumerate(on[k]):
                parts[i % n].append((k, [x]))
            continue
        i = load.index(min(load))
        parts[i].append((k, on[k]))
        load[i] += len(on[k]) + 2
    for i, p in enumerate(parts):
        ops, have = [mgr(m) for m in MGRS], {start: None}

        def reach(k):
            if k not in have:
                pk, a = parent[k]
                h = reach(pk)
                have[k] = f"i{len(have)}"
                ops.append(call(a, h, have[k]))
            return have[k]
        for k, xs in p:
            h = reach(k)
            for a, t in xs:
                o = g.new("r")
                ops.append(call(a, h, o))
                if not a["errs"] and prop in ("C04", "C05", "C06"):
                    pw = pws[t["pw"]]
                    if g.r.random() < (0.25 if not thorough else 0.1):
                        ops.append({"op": "mgr.open", "id": "all", "in": o, "pw": pw, "kc": g.new("k")})
                    if prop == "C05":       # the old one is still there
                        ops.append({"op": "mgr.keys", "id": "x", "in": h, "pw": pws[a["args"]["pw"]]})
                elif a["op"] == "open" and not a["errs"]:
                    ops.append({"op": "kc.nets", "kc": o})
                    ks = states[k]["doc"]["keys"]
                    for nn in ks if isinstance(ks, dict) else ():
                        if g.r.random() < 0.5:
                            pt = [gen.P44, net[nn], "80000000", "00000000", "00000007"]
                            ops.append({"op": "kc.pub", "kc": o, "net": net[nn], "p": pt})
        if len(ops) > len(MGRS):
            res.scripts.append(Script(f"vault-{i}", ops, timeout=600))
    res.report[-1].update(replayed=len(sel), relevant=total)


class Walker:
    """walks a state graph along edges not taken yet"""
    def __init__(self, g, edges):
        self.g, self.done = g, 0
        self.out, self.moves = collections.defaultdict(list), collections.defaultdict(list)
        for f, a, t in edges:
            self.out[f].append((a, t))
            if f != t:
                self.moves[f].append((a, t))
        for v in self.out.values():
            g.r.shuffle(v)

    def walk(self, at, budget, cost=lambda a: 1):
        while budget > 0:
            if self.out[at] and self.g.r.random() < 0.9:
                way = [self.out[at].pop()]
                self.done += 1
            else:      # on to where edges are left
                back, todo, way = {at: None}, collections.deque([at]), []
                while todo:
                    s = todo.popleft()
                    if s != at and self.out[s] and self.g.r.random() < 0.5:
                        while back[s]:
                            way.insert(0, back[s][1])
                            s = back[s][0]
                        break
                    self.g.r.shuffle(self.moves[s])
                    for a, t in self.moves[s]:
                        if t not in back:
                            back[t] = (s, (a, t))
                            todo.append(t)
                if not way:
                    if not any(self.out[s] for s in back):
                        return
                    continue
            for a, at in way:
                yield a, at
                budget -= cost(a)


# ---------------------------------------------------------------------------------------- key paths
def some_of(g, xs, quick):
    return xs if g.t or len(xs) <= quick else g.r.sample(xs, quick)


def plan(ok):
    return "ok" if ok else "err"


def paths(res, prop, thorough, seed, work):
    """C10: the paths of PathMC, asked of every network"""
    g = G("paths" + prop, seed, thorough)
    cases = [(e["p"], n, n in e["ok"]) for e in mc(res, "PathMC", work=work, concrete=True) for n in gen.NETS]
    good, off = [c for c in cases if c[2]], [c for c in cases if not c[2]]
    off = some_of(g, off, 6000)
    g.r.shuffle(off)
    n = 4 if not thorough else 8
    for i in range(n):
        ops = gen.keychain(g.b(64))
        for p, net, ok in good[i::n] + off[i::n]:
            e = {"kc": "k", "net": net, "p": p, "plan": plan(ok)}
            ops.append(dict(e, op="kc.pub"))
            if ok or g.r.random() < (0.5 if thorough else 0.1):
                m, x = g.b(4), g.new("s")
                ops.append(dict(e, op="kc.sign", m=m, **{"as": x}))
                ops.append(dict(e, op="kc.verify", m=m, s={"ref": x, "len": 64}))
        res.scripts.append(Script(f"path-{i}", ops))
    res.report[-1].update(replayed=len(good) + len(off), relevant=len(cases))


def make(res, prop, thorough, seed, work):
    """C13: the calls of MakeMC; the network they are meant for serves the paths"""
    g = G("make" + prop, seed, thorough)
    es = mc(res, "MakeMC", work=work, concrete=True)
    n = 3
    for i in range(n):
        ops = gen.keychain(g.b(64))
        for e in es[i::n]:
            ops.append(dict({k: e[k] for k in ("fn", "testnet", "a", "c", "d")}, op="kp.make", plan=plan(e["ok"])))
            if e["ok"] and g.r.random() < (1 if thorough else 0.1):
                ops.append({"op": "kc.pub", "kc": "k", "net": e["net"], "p": e["p"], "plan": plan(e["p"][1] == e["net"])})
        res.scripts.append(Script(f"maker-{i}", ops))
    res.report[-1].update(replayed=len(es), relevant=len(es))


def kptext(res, prop, thorough, seed, work):
    """C12: the texts of KpTextMC"""
    es = mc(res, "KpTextMC", cfg="KpTextMC4.cfg" if thorough else None, work=work, concrete=True)
    res.scripts += gen.split("texts", [{"op": "kp.parse", "t": e["t"], "plan": plan(e["ok"])} for e in es], 3 if not thorough else 16, timeout=300)
    res.report[-1].update(replayed=len(es), relevant=len(es))


def bits(res, prop, thorough, seed, work):
    """C17: the value sequences of BitsMC, written and read"""
    g = G("bits" + prop, seed, thorough)
    for cfg, q in [("BitsMC.cfg", 2500), ("BitsMC2.cfg", 800)]:
        es = mc(res, "BitsMC", cfg=cfg, work=work)
        xs = some_of(g, es, q)
        ops = []
        for e in xs:
            ops += [{"op": "bits.write", "v": e["v"], "plan": "ok"}, {"op": "bits.read", "b": e["b"], "plan": "ok"}]
        res.scripts += gen.split(cfg[:-4], ops, 2 if not thorough else 4)
        res.report[-1].update(replayed=len(xs), relevant=len(es))


def hexes(res, prop, thorough, seed, work):
    """C24: the texts of HexMC"""
    g = G("hex" + prop, seed, thorough)
    es = mc(res, "HexMC", cfg="HexMC4.cfg" if thorough else None, work=work, concrete=True)
    ops = []
    for e in es:
        ops += [{"op": "hex.dec", "t": e["t"], "plan": plan(e["ok"])}, {"op": "hex.enc", "b": e["t"], "plan": "ok"}]
    res.scripts += gen.split("hexes", ops, 1 if not thorough else 4)
    res.report[-1].update(replayed=len(es), relevant=len(es))


def managers(res, prop, thorough, seed, work):
    """C22: the factory lists of ManagersMC"""
    g = G("managers" + prop, seed, thorough)
    es = mc(res, "ManagersMC", cfg="ManagersMC4.cfg" if thorough else None, work=work, concrete=True)
    xs = some_of(g, es, 900)
    ops = []
    for e in xs:
        m = g.new("q")
        # the harness's own factories stand in for the built-in networks as well
        ops.append({"op": "mgr.new", "id": m, "how": "facts", "f": e["f"], "plan": plan(e["ok"])})
        if e["ok"]:
            nets = sorted({f["net"] for f in e["f"]})
            for n in ("8000003c", "80000717", "0000beef"):
                ops.append({"op": "mgr.has", "id": m, "net": n})
                ops.append({"op": "mgr.fac", "id": m, "net": n})
            ops.append({"op": "mgr.gen", "id": m, "lang": g.lang()})
            if g.r.random() < 0.1:
                d, k = g.new("d"), g.new("k")
                ops += [{"op": "mgr.seed", "id": m, "seed": g.b(64), "pw": "61", "out": d}, {"op": "mgr.open", "id": m, "in": d, "pw": "61", "kc": k}, {"op": "kc.nets", "kc": k}]
                ops += [{"op": "kc.pub", "kc": k, "net": n, "p": [gen.P44, n, "80000000", "00000000", "00000000"]} for n in nets]
    for i, c in enumerate(gen.grouped_by(ops, "mgr.new", 3 if not thorough else 8)):
        res.scripts.append(Script(f"lists-{i}", c))
    res.report[-1].update(replayed=len(xs), relevant=len(es))


# ---------------------------------------------------------------------------------------- bip39
def bip39(res, prop, thorough, seed, work):
    """C14: the word sequences of Bip39MC, with and without their checksum"""
    g = G("bip39" + prop, seed, thorough)
    es = mc(res, "Bip39MC", cfg="Bip39MC2.cfg" if thorough else None, work=work, concrete=True)
    ops = []
    for e in es:
        ops.append({"op": "words.ent", "w": e["w"], "plan": plan(e["ok"])})
        if e["ok"] and g.r.random() < 0.4:
            l = g.lang()
            ops += [{"op": "ent.from", "b": e["b"], "plan": "ok"}, {"op": "phrase.make", "lang": l, "b": e["b"], "plan": "ok"},
                    {"op": "phrase.parse", "lang": l, "t": tx(" ".join(gen.DICT[l][i] for i in e["w"])), "plan": "ok"}]
    res.scripts += gen.split("words", ops, 2 if not thorough else 8, timeout=300)
    res.report[-1].update(replayed=len(es), relevant=len(es))


def phrases(res, prop, thorough, seed, work):
    """C15: the phrases of PhraseMC, typed with slips"""
    g = G("phrases" + prop, seed, thorough)
    for cfg, q in [("PhraseMC.cfg", 8000)] + ([("PhraseMC2.cfg", 60000)] if thorough else []):
        es = mc(res, "PhraseMC", cfg=cfg, work=work, concrete=True, timeout=1500)
        good, bad = [e for e in es if e["ok"]], [e for e in es if not e["ok"]]
        xs = good + (g.r.sample(bad, q - len(good)) if len(bad) > q else bad)
        g.r.shuffle(xs)
        n = 4 if not thorough else 8
        for i in range(n):
            ops = [{"op": "mgr.new", "id": f"q{m}", "how": "facts", "f": [{"net": "0000beef", "min": m, "max": 512, "kind": "echo"}]} for m in gen.SIZES_BITS]
            for e in xs[i::n]:
                c = {"lang": e["l"], "t": e["t"], "plan": plan(e["ok"])}
                ops.append(dict(c, op="phrase.parse"))
                if e["ok"] or g.r.random() < 0.02:
                    ops.append(dict(c, op="phrase.seed", **{"pass": g.pick(["", "61", g.b(20)])}))
                    for m in gen.SIZES_BITS if e["ok"] else [g.pick(gen.SIZES_BITS)]:
                        ok = e["ok"] and m // 32 * 3 == e["n"]
                        ops.append(dict(c, op="mgr.mnem", id=f"q{m}", pw="61", out="d", plan=plan(ok)))
                        if ok:
                            ops.append({"op": "mgr.retr", "id": f"q{m}", "in": "d", "pw": "61"})
            res.scripts.append(Script(f"{cfg[:-4]}-{i}", ops, timeout=300))
        res.report[-1].update(replayed=len(xs), relevant=len(es))


# ---------------------------------------------------------------------------------------- keys
def seeds_for(g, n, nets):
    """random ones, extremes, and seeds on whose ways something unusual happens"""
    odd = sorted({e["seed"] for e in gen.corpus("edge-seeds.json") if e["net"] in nets})
    xs = ["00" * 64, "ff" * 64] + g.r.sample(odd, min(len(odd), n // 3))
    return xs + [g.b(64) for _ in range(n - len(xs))]


def keychains(g, seeds):
    ops, at = [dict(gen.ALL)], {}
    for i, sd in enumerate(seeds):
        at[sd] = f"k{i}"
        ops += gen.keychain(sd, at[sd], mgr=False)
    return ops, at


def secp_paths(res, prop, thorough, seed, work):
    """C08: the paths of SecpMC, as keychains and as single keys serve them"""
    g = G("secp" + prop, seed, thorough)
    seeds = seeds_for(g, 12 if not thorough else 60, [BTC, ETH])
    es = mc(res, "SecpMC", cfg="SecpMC2.cfg", env={"SEEDS": "".join(seeds)}, work=work, concrete=True)
    n = 4 if not thorough else 8
    of = {}
    for i in range(n):
        ops, at = keychains(g, seeds[i::n])
        for sd in seeds[i::n]:
            ops.append({"op": "xprv.seed", "seed": sd, "plan": "ok"})
        mine = [e for e in es if e["seed"] in at]
        for e in mine:
            if len(e["path"]) == 5:
                for net in (BTC, ETH):
                    ok = e["path"][1] == net and (net == BTC or e["path"][0] == gen.P44)
                    if ok or g.r.random() < 0.1:
                        ops.append({"op": "kc.pub", "kc": at[e["seed"]], "net": net, "p": e["path"], "plan": plan(ok)})
            if g.r.random() < (0.1 if not thorough else 0.4):
                ops.append({"op": "xprv.derive", "d": e["top"], "path": e["path"], "plan": "ok"})
        res.scripts.append(Script(f"tree-{i}", ops))
    res.report[-1].update(replayed=len(es), relevant=len(es))


def ada_paths(res, prop, thorough, seed, work):
    """C09: the paths of CardanoMC"""
    g = G("ada" + prop, seed, thorough)
    seeds = seeds_for(g, 20 if not thorough else 80, [ADA])
    es = mc(res, "CardanoMC", env={"SEEDS": "".join(seeds)}, work=work, concrete=True)
    n = 4 if not thorough else 8
    for i in range(n):
        ops, at = keychains(g, seeds[i::n])
        for e in es:
            if e["seed"] in at and len(e["path"]) == 5:
                ops.append({"op": "kc.pub", "kc": at[e["seed"]], "net": ADA, "p": e["path"], "plan": plan(e["path"][:2] == [gen.P44, ADA])})
        res.scripts.append(Script(f"tree-{i}", ops))
    res.report[-1].update(replayed=len(es), relevant=len(es))


def signing(res, prop, thorough, seed, work):
    """C11: signatures by the keys of SecpMC and CardanoMC"""
    g = G("signing" + prop, seed, thorough)
    q = 5 if not thorough else 24
    for name, cfg, nets in [("SecpMC", "SecpMC3.cfg", (BTC, ETH)), ("CardanoMC", "CardanoMC2.cfg", (ADA,))]:
        seeds = seeds_for(g, q, nets)
        es = mc(res, name, cfg=cfg, env={"SEEDS": "".join(seeds)}, work=work, concrete=True)
        n = 3 if not thorough else 8
        k = 0
        for i in range(n):
            ops, at = keychains(g, seeds[i::n])
            for e in es:
                if e["seed"] in at and len(e["path"]) == 5 and g.r.random() < (0.4 if not thorough else 1):
                    for net in nets:
                        if e["path"][1] != net or net != BTC and e["path"][0] != gen.P44:
                            continue
                        x, c = g.new("s"), {"kc": at[e["seed"]], "net": net, "p": e["path"], "m": e["m"], "plan": "ok"}
                        k += 1
                        ops.append(dict(c, op="kc.sign", **{"as": x}))
                        V = lambda **kw: ops.append(dict(c, op="kc.verify", **kw))
                        V(s={"ref": x})
                        V(s={"ref": x}, m=e["m"] + "00")
                        if net == ADA:
                            V(s={"ref": x, "plusl": 1})
                        else:
                            V(s={"ref": x, "len": 64})
                            V(s={"ref": x, "twin": 1, "len": 64})
                            V(s={"ref": x, "xorlast": g.pick([1, 2, 3])})
            res.scripts.append(Script(f"{name}-{i}", ops))
        res.report[-1].update(replayed=k, relevant=len(es))


def serials(res, prop, thorough, seed, work):
    """C21: the serialised keys of SecpMC: loaded, derived from, damaged"""
    g = G("serials" + prop, seed, thorough)
    seeds = seeds_for(g, 4 if not thorough else 16, [BTC, ETH])
    es = mc(res, "SecpMC", env={"SEEDS": "".join(seeds)}, work=work, concrete=True)
    ops = []
    for e in es:
        ops.append({"op": "xprv.load", "d": e["d"], "plan": "ok"})
        ops.append({"op": "xprv.derive", "d": e["top"], "path": e["path"], "plan": "ok"})
        if e["d"][:2] == "ff":
            ops.append({"op": "xprv.derive", "d": e["d"], "path": [g.pick(["00000000", "80000000"])], "plan": "err"})
        for _ in range(2 if not thorough else 10):
            b = bytearray(bytes.fromhex(e["d"]))
            b[g.r.randrange(77)] ^= 1 << g.r.randrange(8)
            ops.append({"op": "xprv.load", "d": b.hex(), "plan": "err"})
    res.scripts += gen.split("serials", ops, 4 if not thorough else 8)
    res.report[-1].update(replayed=len(es), relevant=len(es))


# ---------------------------------------------------------------------------------------- the C interface
def client(res, prop, thorough, seed, work):
    """C18, C19: walks of ClientMC's client over as many of its calls as the budget allows, in every state of its heap"""
    g = G("client" + prop, seed, thorough)
    l, l2 = g.lang(), g.lang()
    sd, pw = g.b(64), g.pick(["61", "", tx("é"), tx("correct horse")])
    ent = g.ent(16)
    item = lambda **kw: dict({"set": "client", "kind": "vault", "pw": pw, "salt": g.b(32), "nonce": g.b(12)}, **kw)
    one = lambda n: {"n": n, "of": n, "b": sd}
    have = [one(ETH), one(ADA)]
    base = dict(ver=2, seed="none", mnem=tx(phrase(l, ent)), dict=l, keys=have)
    items = [item(**base), item(**dict(base, seed=sd, mnem="none", dict="none", keys=[one(BTC), one(ETH)])), item(**dict(base, mnem="none", dict="none")),
             item(pt=tx("not a document")), item(**dict(base, keys=have + [{"n": BTC, "of": ADA, "b": sd}]))]
    FULL, SEED, BARE, UNREAD, WRONG = [dict(f, name=n) for f, n in zip(fixtures.seal(items, work), ["full", "seed", "bare", "unread", "wrong"])]
    short = {"name": "short", "b": FULL["b"][:118]}
    stored = [FULL, SEED, BARE, UNREAD, WRONG, short]
    path = lambda n, bad=False: [gen.P44, n, "80000000", "00000002" if bad else "00000001", "00000003"]

    def args(do, code, on):
        if do == "mgr.new":
            return {"how": "all"}
        if do == "mgr.has":
            return {"net": g.pick(gen.NETS + ["00000001"])}
        if do == "mgr.gen":
            return {"lang": g.lang()}
        if do == "mgr.seed":
            return {"seed": sd if code == "ok" else g.b(g.pick([0, 16, 63, 65, 128])), "pw": pw, "out": g.new("z")}
        if do == "mgr.mnem":
            t = phrase(l2, g.ent(16)) if code == "ok" else g.pick([phrase(l2, g.ent(20)), phrase(l2, g.ent(16)) + " ", "", "é"])
            return {"t": tx(t), "lang": l2, "pw": pw, "out": g.new("z")}
        if do == "kp.parse":
            return {"t": tx(g.pick(["m/44'/0'/0'/0/0", " m / 1' / 2 / 3 / 4 / 4294967295"]) if code == "ok" else g.pick(["", "m", "m/é/0/0/0/0", "m/44'/2147483648'/0/0/0", "44'/0'/0'/0/0/0"]))}
        if do == "kp.make":
            return {"fn": g.pick(gen.FNS), "testnet": g.r.random() < 0.5, "a": gen.u(7 if code == "ok" else gen.H), "c": "00000001", "d": "00000009"}
        if do.startswith("kc."):
            if do == "kc.nets":
                return {}
            n = BTC if code == "KeyDoesNotExist" else g.pick([ETH, ADA])
            a = {"net": n, "p": path(n, code == "KeyError")}
            if do != "kc.pub":
                a["m"] = g.pick(["", g.b(5)])
            if do == "kc.verify":
                a["s"] = g.b(64)[:-2] + "0f" if n == ADA else "01" * 64
            return a
        d = {"WrongPassword": FULL, "NotEnoughData": short, "DataError": UNREAD, "SeedIsNotSaved": SEED if do == "mgr.retr" else BARE, "KeyError": WRONG,
             "KeyAlreadyExist": FULL, "NetworkIsNotSupported": FULL, "ok": FULL}[code]
        a = {"in": d["name"], "pw": pw + ("7a" if code == "WrongPassword" else "")}
        if do == "mgr.chpw":
            a.update(npw=g.pick(["", "62"]), out=g.new("z"))
        if do == "mgr.add":
            a.update(net={"KeyAlreadyExist": ETH, "NetworkIsNotSupported": "00000001"}.get(code, BTC), out=g.new("z"))
        return a

    def op(a):
        if a["do"] == "null":
            return {"op": "c.null", "kind": a["to"]}
        if a["do"] == "del":
            s = a["to"]
            return {"op": "c.del", "obj": {"m": "m:", "k": "k:"}.get(s[0], "") + s}
        if a["do"] == "bad":
            return {"op": "c.bad", "call": a["call"], "how": a["how"], "id": a["on"] or "m", "in": "full", "pw": pw, "h": a["to"]}
        o = {"op": a["do"], "viac": True}
        if a["on"]:
            o["id" if a["on"][0] == "m" else "kc"] = a["on"]
        if a["code"] == "ok" and a["to"] and a["to"][0] == "m":
            o["id"] = a["to"]
        elif a["code"] == "ok" and a["to"] and a["to"][0] == "k":
            o["kc"] = a["to"]
        elif a["to"]:
            o["h"] = a["to"]
        if a["do"] == "mgr.open" and a["code"] != "ok":
            o["kc"] = g.new("z")
        o.update(args(a["do"], a["code"], a["on"]))
        if a["do"].startswith("kp."):
            o["plan"] = plan(a["code"] == "ok")
        else:
            o["sym"] = [] if a["code"] == "ok" else [a["code"]]
        return o
    slow = {"mgr.seed", "mgr.mnem", "mgr.chpw", "mgr.add", "mgr.open", "mgr.keys", "mgr.retr"}
    cost = lambda a: 1.0 if a["do"] in slow and a["code"] not in ("NotEnoughData", "InvalidSeedSize") else 0.1
    for cfg in ["ClientMC.cfg"] + (["ClientMC2.cfg"] if thorough else []):
        es = mc(res, "ClientMC", cfg=cfg, work=work)
        w = Walker(g, [(frozenset(e["f"]), e["a"], frozenset(e["t"])) for e in es if e["a"]["do"] != "null" or thorough or g.r.random() < 0.4])
        n = 6 if not thorough else 16
        for i in range(n):
            ops = [{"op": "put", "out": f["name"], "b": f["b"]} for f in stored]
            if i % 2:
                ops.insert(0, {"op": "c.hide"})
            at = frozenset()
            for a, at in w.walk(at, 55 if not thorough else 400, cost):
                ops.append(op(a))
            for s in sorted(at, key=lambda _: g.r.random()):
                ops.append(op({"do": "del", "to": s}))
            ops.append({"op": "c.end"})
            res.scripts.append(Script(f"{cfg[:-4]}-{i}", ops, ledger=True, timeout=600))
        res.report[-1].update(replayed=w.done, relevant=len(es))


def wiping(res, prop, thorough, seed, work):
    """C20: every history of WipeMC's copies, for each kind of secret, unoptimised and optimised"""
    g = G("wiping", seed, thorough)
    es = mc(res, "WipeMC", work=work)
    done = 0
    for prof in ["debug", "release"]:
        for kind, size, hows in [("ent", k, ["slice", "gen", "words", "lit"]) for k in gen.SIZES] + [("seed", 64, ["bytes", "slice", "phrase"])]:
            w = Walker(g, [(tuple(e["f"]), e["a"], tuple(e["t"])) for e in es])
            ops, names, at = [], {}, ("none",) * 3
            for a, at in w.walk(at, 10 ** 6):
                o = {"op": "wipe." + a["do"], "o": names.get(a["o"])}
                if a["do"] in ("new", "clone"):
                    o["o"] = names[a["o"]] = g.new("w")
                    o["place"] = a["place"]
                if a["do"] == "new":
                    o.update(kind=kind, b=g.b(size), how=g.pick(hows))
                elif a["do"] == "clone":
                    o["from"] = names[a["from"]]
                ops.append(o)
            done += w.done
            res.scripts.append(Script(f"copies-{prof}-{size}", ops, profile=prof, ledger=True))
    res.report[-1].update(replayed=done, relevant=14 * len(es))


def threads(res, prop, thorough, seed, work):
    """C23: the interleavings of ConcMC, imposed on calls that share managers and keychains"""
    g = G("threads", seed, thorough)
    X = "0000beef"
    for cfg, n in [("ConcMC.cfg", 2), ("ConcMC3.cfg", 3)]:
        orders = [list(x) for x in sorted({tuple(e) for e in mc(res, "ConcMC", cfg=cfg, work=work)})]
        xs = some_of(g, orders, 252)
        k = 4 if not thorough else 8
        f = [{"net": x, "min": 128, "max": 256, "kind": "std"} for x in gen.NETS] + [{"net": X, "min": 128, "max": 256, "kind": "echo"}]
        for i in range(k):
            l = g.lang()
            ph = tx(phrase(l, g.ent(16)))
            ops = [{"op": "mgr.new", "id": "m", "how": "facts", "f": f}, {"op": "mgr.new", "id": "q", "how": "nets", "nets": [ETH]}, {"op": "mgr.mnem", "id": "q", "t": ph, "lang": l, "pw": "61", "out": "b"}]
            for j in range(2):
                ops += [{"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": "61", "out": f"d{j}"}, {"op": "mgr.open", "id": "m", "in": f"d{j}", "pw": "61", "kc": f"k{j}"}]

            def light(net):
                p = g.path(net) if net != X else [gen.u(g.r.getrandbits(32)) for _ in range(5)]
                if g.r.random() < 0.15:
                    p[g.r.randrange(5)] = gen.u(g.r.getrandbits(32))
                c = {"kc": g.pick(["k0", "k0", "k1"]), "net": net, "p": p}
                r = g.r.random()
                return dict(c, op="kc.pub") if r < 0.5 else dict(c, op="kc.sign", m=g.msg()) if r < 0.85 else dict(c, op="kc.verify", m="00", s="01" * 64)

            def heavy():
                d, pw = g.pick(["d0", "d0", "d1"]), g.pick(["61", "61", "61", "62"])
                return g.pick([{"op": "mgr.gen", "id": "m", "lang": g.lang()}, {"op": "mgr.open", "id": "m", "in": d, "pw": pw, "kc": g.new("k")},
                               {"op": "mgr.seed", "id": "m", "seed": g.b(64), "pw": g.pick(["61", g.pw()]), "out": g.new("d")},
                               {"op": "mgr.chpw", "id": "m", "in": d, "pw": pw, "npw": g.pw(), "out": g.new("d")},
                               {"op": "mgr.add", "id": "m", "in": "b", "pw": "61", "net": g.pick(gen.NETS + [X]), "out": g.new("d")},
                               {"op": "mgr.mnem", "id": "m", "t": ph, "lang": l, "pw": g.pw(), "out": g.new("d")}])
            for j, o in enumerate(xs[i::k]):
                st = g.pick([1, 1, 2, 3])
                order = [t for t in o for _ in range(st)]
                if j % 8 == 0:
                    ths = [[heavy()] for _ in range(n)]
                else:
                    net = g.pick(gen.NETS + [X])
                    ths = [[light(net if g.r.random() < 0.8 else g.pick(gen.NETS))] for _ in range(n)]
                ops.append({"op": "sched", "order": order, "threads": ths})
            res.scripts.append(Script(f"{cfg[:-4]}-{i}", ops, timeout=400))
        res.report[-1].update(replayed=len(xs), relevant=len(orders))


def randomness(res, prop, thorough, seed, work):
    """C02: walks over RandomMC's calls: every kind of call after every other, on one manager and on several, with refusals"""
    g = G("randomness", seed, thorough)
    es = mc(res, "RandomMC", cfg="RandomMC4.cfg" if thorough else None, work=work)
    edges = sorted({json.dumps([e["f"], e["a"], e["t"]], sort_keys=True) for e in es})
    edges = [json.loads(e) for e in edges]
    key = lambda x: json.dumps([sorted(x[0]), x[1]])
    done, n = 0, 4 if not thorough else 10
    sd, l = g.b(64), g.lang()
    ph = tx(phrase(l, g.ent(16)))
    for i in range(n):
        # a manager of the model lives for one walk
        w = Walker(g, [(key(f), a, key(t)) for f, a, t in g.r.sample(edges, len(edges))])
        ops = [{"op": "mgr.new", "id": "z", "how": "nets", "nets": [BTC]}, {"op": "mgr.mnem", "id": "z", "t": ph, "lang": l, "pw": "61", "out": "d"}]
        for _ in range(6 if not thorough else 20):
            at, name = key([[], ["none"]]), {}
            for a, at in w.walk(at, 12 if not thorough else 20):
                m = a["m"]
                if a["do"] == "new":
                    name[m] = g.new(m)
                    ops.append({"op": "mgr.new", "id": name[m], "how": "all"})
                    continue
                m = name[m]
                o = {"seed": {"op": "mgr.seed", "id": m, "seed": sd, "pw": "61", "out": "o"}, "mnem": {"op": "mgr.mnem", "id": m, "t": ph, "lang": l, "pw": "61", "out": "o"},
                     "chpw": {"op": "mgr.chpw", "id": m, "in": "d", "pw": "61", "npw": "61", "out": "o"}, "add": {"op": "mgr.add", "id": m, "in": "d", "pw": "61", "net": ETH, "out": "o"},
                     "seal": {"op": "seal", "pw": "61", "pt": "", "custom": False, "start": 0}, "gen": {"op": "mgr.gen", "id": m, "lang": l}}[a["do"]]
                if a.get("refused"):
                    o["rf"] = 1 if a["do"] == "gen" else g.pick([1, 2])
                ops.append(o)
        done += w.done
        res.scripts.append(Script(f"draws-{i}", ops, timeout=300))
    res.report[-1].update(replayed=done, relevant=n * len(edges))


def documents(res, prop, thorough, seed, work):
    """C03: the documents of FormatMC, read by the library"""
    g = G("documents", seed, thorough)
    es = mc(res, "FormatMC", cfg="FormatMC4.cfg" if thorough else None, work=work, concrete=True)
    good, bad = [e for e in es if e["ok"]], [e for e in es if not e["ok"]]
    q = 190 if not thorough else 2500
    xs = some_of(G("documents", seed, False), good, q) + some_of(G("documents", seed, False), bad, q)
    g.r.shuffle(xs)
    salt, nonce = g.b(32), int(g.b(12), 16)
    fx = fixtures.seal([{"set": "format", "kind": "format", "pw": "61", "salt": salt, "nonce": f"{nonce ^ i:024x}", "pt": e["pt"]} for i, e in enumerate(xs)], work)
    n = 4 if not thorough else 16
    for i in range(n):
        ops = [dict(gen.ALL)]
        for e, f in list(zip(xs, fx))[i::n]:
            assert f["good"] == e["ok"]
            c = {"id": "m", "in": "d", "pw": "61"}
            ops.append({"op": "put", "out": "d", "b": f["b"]})
            for o in g.r.sample([dict(c, op="mgr.open", kc="k", plan=plan(e["ok"])), dict(c, op="mgr.keys", plan=plan(e["ok"])), dict(c, op="mgr.retr"), dict(c, op="mgr.add", net=g.pick(gen.NETS), out="w")], 2):
                ops.append(o)
        res.scripts.append(Script(f"doc-{i}", ops, timeout=600))
    res.report[-1].update(replayed=len(xs), relevant=len(es))


def dicts(res, prop, thorough, seed, work):
    """C16: the words of DictMC and the texts that resemble them, looked up in every list"""
    g = G("dicts", seed, thorough)
    es = mc(res, "DictMC", cfg="DictMC1.cfg" if thorough else None, env={"PHASE": str(seed % 16)}, work=work, concrete=True)
    ops = []
    for e in es:
        ops.append({"op": "dict.index", "lang": e["l"], "t": e["t"], "plan": plan(e["at"] >= 0)})
        if e["k"] == "word":
            ops.append({"op": "dict.word", "lang": e["l"], "i": e["i"], "plan": "ok"})
        elif g.r.random() < 0.05:
            # as a word of a phrase
            w = phrase(e["l"], g.ent(16)).split(" ")
            w[g.r.randrange(12)] = bytes.fromhex(e["t"]).decode()
            if e["k"] not in ("space", "before", "two"):
                ops.append({"op": "phrase.parse", "lang": e["l"], "t": tx(" ".join(w)), "plan": plan(e["at"] >= 0)})
    res.scripts += gen.split("lookups", ops, 4 if not thorough else 16, timeout=300)
    res.report[-1].update(replayed=len(es), relevant=len(es))


def total(*fs):
    """C25: the behaviours of these models, of which only that they come to an end matters"""
    def all_of(res, prop, thorough, seed, work):
        for f in fs:
            n = len(res.scripts)
            f(res, prop, thorough, seed, work)
            for x in res.scripts[n:]:
                x.mode, x.name = "total", f.__name__ + "-" + x.name
    return all_of


def anchors(res, prop, thorough, seed, work):
    """the specification against published vectors"""
    mc(res, "Anchors", work=work, concrete=True)


MODELS = {p: [vault] for p in WANT}
MODELS.update(C10=[paths], C13=[make], C12=[kptext], C17=[bits], C24=[hexes], C22=[managers], C14=[bip39], C15=[phrases],
              C08=[secp_paths], C09=[ada_paths], C11=[signing], C21=[serials], C18=[client], C19=[client], C20=[wiping], C23=[threads], C02=[randomness], C03=[documents], C16=[dicts], C25=[total(paths, make, kptext, bits, hexes, managers, bip39, phrases, serials)])


for _p in ("C03", "C08", "C09", "C11", "C15", "C16", "C21"):
    MODELS.setdefault(_p, []).append(anchors)


def run(prop, thorough, seed, work):
    gen.FX = fixtures.make(prop, thorough, seed, work)
    res = Checked()
    for f in MODELS.get(prop, []):
        f(res, prop, thorough, seed, work)
    return res

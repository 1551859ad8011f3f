#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property for /repo's working tree."""
import argparse, collections, json, os, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import Script, ToolError


def brief(v, n=240):
    s = json.dumps(v, ensure_ascii=True)
    return s if len(s) <= n else s[:n] + "..."


def run_script(s, work):
    t0 = time.time()
    tp, how, msg = lib.drive(s, work)
    t1 = time.time()
    v = lib.validate(tp, s.mode, work)
    if v.ok and how == "script":
        raise ToolError(f"script {s.name}: {msg}")
    if v.ok and how:
        raise ToolError(f"script {s.name}: {how} was not noticed")
    if os.environ.get("TIMES"):
        print(f"  {s.name}: {len(s.ops)} calls driven in {t1 - t0:.1f} s, validated in {time.time() - t1:.1f} s", file=sys.stderr)
    return s, tp, v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    work = os.path.join(lib.BUILD, "work", f"{a.prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 2
    try:
        rc = check(a, work, t0)
    except ToolError as e:
        print(f"ERROR {a.prop}: {e}", file=sys.stderr)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, work, t0):
    import gen, models
    thorough = a.tier == "thorough"
    lib.prepare(gen.PROFILES.get(a.prop, ["debug"]))
    mc = models.run(a.prop, thorough, a.seed, work)          # model checking and the behaviours it gave
    scripts = mc.scripts + gen.GENS[a.prop](thorough, a.seed)
    if a.only:
        scripts = [s for s in scripts if s.name == a.only]
    names = [s.name for s in scripts]
    assert len(set(names)) == len(names), names
    ops, events, samples, distinct = collections.Counter(), 0, [], set()
    bad, proof = [], None
    states = mc.states
    transitions = mc.transitions
    with ThreadPoolExecutor(lib.WORKERS) as ex:
        todo = [ex.submit(run_script, s, work) for s in scripts]
        for f in as_completed(todo):
            s, tp, v = f.result()
            evs = [json.loads(l) for l in open(tp)]
            events += v.matched
            for e in evs[: v.matched]:
                k = e["r"]["k"]
                ops[e["op"] + (":" + k if k != "ok" else "")] += 1
                distinct.add(hash(json.dumps({x: y for x, y in e.items() if x not in ("r", "cx", "os", "rm")}, sort_keys=True)))
            states += v.matched + 1
            transitions += v.matched
            if not v.ok:
                bad.append((s, evs, v))
            elif proof is None and v.matched and not a.only:
                # the binding itself: the same history with one outcome altered is not a behaviour
                n = max((i for i, e in enumerate(evs) if e["op"] not in ("reset", "put")), default=None)
                if n is not None:
                    p2 = tp + ".bad"
                    alt = lib.corrupt(evs[n]) if s.mode == "full" else dict(evs[n], r={"k": "panic"})
                    with open(p2, "w") as o:
                        for i, e in enumerate(evs[: n + 1]):
                            o.write(json.dumps(alt if i == n else e) + "\n")
                    w = lib.validate(p2, s.mode, work)
                    if w.ok or w.matched != n:
                        raise ToolError(f"altered trace of {s.name} accepted: {brief(alt)}")
                    proof = {"altered_event": n + 1, "rejected_after": w.matched, "op": alt["op"]}
            if len(samples) < 3 and evs:
                e = evs[min(len(evs) - 1, 2 + len(samples) * 3)]
                samples.append(brief(e, 400))
    bad.sort(key=lambda x: (names.index(x[0].name), x[2].matched))
    cov = {
        "states": states, "transitions": transitions,
        "traces_validated_against_impl": len(scripts), "samples": samples,
        "events_admitted": events, "distinct_calls": len(distinct), "calls": dict(sorted(ops.items())),
        "models": mc.report,
    }
    if proof:
        cov["binding"] = proof
    os.makedirs(os.path.join(lib.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(lib.ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
                   "assumptions": gen.ASSUMPTIONS.get(a.prop, gen.COMMON), "wall_s": round(time.time() - t0, 2),
                   "violations": len(bad)}, f, indent=1)
    if not bad:
        print(f"{a.prop}: held; {len(scripts)} traces, {events} events, {states} states, {time.time() - t0:.1f} s")
        return 0
    for s, evs, v in bad[:10]:
        d = os.path.join(lib.BUILD, "replay", a.prop, s.name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        e = evs[v.matched] if v.matched < len(evs) else {"op": "none"}
        with open(os.path.join(d, "script.ndj"), "w") as f:
            f.writelines(json.dumps(o) + "\n" for o in s.ops)
        with open(os.path.join(d, "trace.ndj"), "w") as f:
            f.writelines(json.dumps(o) + "\n" for o in evs[: v.matched + 1])
        with open(os.path.join(d, "README"), "w") as f:
            f.write(f"{lib.driver(s.profile)} script.ndj out.ndj{' --ledger' if s.ledger else ''} repeats the calls.\n"
                    f"The specification (spec/Trace.tla, MODE={s.mode}) admits the first {v.matched} events of\n"
                    f"trace.ndj and refuses the last one:\n{json.dumps(e)}\n{v.note}\n")
        print(f"VIOLATION property={a.prop} replay={d}")
        print(f"  event {v.matched + 1} of {s.name} is not admitted: {brief(e, 600)} {v.note}")
    return 1


if __name__ == "__main__":
    main()

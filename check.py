#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property on /repo's current working tree
   check.py replay <file>                    re-validate the events of a reported violation
"""
import copy, importlib, json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "VERIF_CHILD": "1"}

if __name__ == "__main__" and os.environ.get("VERIF_CHILD") != "1":
    e = dict(os.environ)
    e.update(ENV)
    e.setdefault("MPLCONFIGDIR", "/tmp/verif_mpl")
    e["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo") + ":" + os.path.join(VERIF, "harness")
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.join(VERIF, "harness"))
import vlib  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.json")


def known(prop):
    k = json.load(open(KNOWN))
    return [x for x in k["findings"] if x["property"] == prop]


def matches(finding, ev, clause):
    return finding["op"] == ev["op"] and finding["key"] == ev["key"] and clause in finding["clauses"]


def corrupt(rng, v):
    """One leaf of a recorded result, changed."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        try:
            return repr(float(v) * 1.01 + 0.01)
        except ValueError:
            return v + "x"
    if isinstance(v, list):
        if not v:
            return None
        i = rng.randrange(len(v))
        c = corrupt(rng, v[i])
        return None if c is None else v[:i] + [c] + v[i + 1:]
    if isinstance(v, dict):
        if not v:
            return None
        k = rng.choice(sorted(v))
        c = corrupt(rng, v[k])
        return None if c is None else {**v, k: c}
    return None


def binding(rec, fails):
    """Corrupt recorded results and count how many the specification rejects (the trace specification is not vacuous)."""
    bad = {(s, e["op"], e["key"]) for s, e, _ in fails}
    rng = rec.rng.__class__(f"corrupt-{rec.seed}")
    by, tried = {}, 0
    for s in rec.streams:
        for i, e in enumerate(s.events):
            if e.get("out", {}).get("ok") and e["out"].get("v", "none") != "none":
                by.setdefault((s.spec, e["op"]), []).append((s, i))
    traces = {}
    expect = {}
    for (spec, op), lst in sorted(by.items()):
        for s, i in rng.sample(lst, min(3, len(lst))):
            if i > 400:
                continue
            e = copy.deepcopy(s.events[i])
            c = corrupt(rng, e["out"]["v"])
            if c is None or (spec, e["op"], e["key"]) in bad:
                continue
            e["out"]["v"] = c
            tr = traces.setdefault(spec, [])
            tr.append({"op": "begin", "key": "begin"})
            tr += s.events[:i]
            tr.append(e)
            expect.setdefault(spec, []).append((len(tr) - 1, op))
    rejected = 0
    per = {}
    for spec, tr in traces.items():
        fl, _, _, _, stop = vlib.validate(spec, tr)
        for idx, op in expect[spec]:
            if stop is not None and idx >= stop:
                continue
            tried += 1
            a = per.setdefault(op, [0, 0])
            a[1] += 1
            if idx in fl:
                rejected += 1
                a[0] += 1
    return tried, rejected, per


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        fl, *_ = vlib.validate(r["spec"], r["events"])
        print(json.dumps({str(k): v for k, v in fl.items()}))
        for k in sorted(fl):
            print(json.dumps(r["events"][k])[:3000])
        sys.exit(1 if fl else 0)
    if sys.argv[1:] == ["setup"]:
        vlib.classes()
        rc, out = vlib.tlc("MCSetup", "MCSetup.cfg")
        print("setup ok" if "No error has been found" in out else out)
        sys.exit(0 if "No error has been found" in out else 1)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evfile = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    replaydir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replaydir, exist_ok=True)
    rec = vlib.Recorder(prop, tier, seed)
    broken = None
    try:
        mod = importlib.import_module("props." + prop.lower())
        vlib.watchdog(420 if tier == "quick" else 4 * 3600)
        mod.run(rec)
        vlib.watchdog(0)
    except vlib.Machinery:
        raise
    except Exception as x:
        vlib.watchdog(0)
        tb = traceback.format_exc()
        repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/fixedIncome"
        public = isinstance(x, AttributeError) and not str(x.name).startswith("_") and \
            (type(x.obj).__module__ + getattr(x.obj, "__module__", "")).startswith("fixedIncome")      # a public attribute is gone
        if repo in tb or public or "several calls did not return" in tb or "Can't instantiate abstract class" in tb:      # the code under test failed where the driver needs it to work
            path = os.path.join(replaydir, f"{prop}_crash.txt")
            open(path, "w").write(tb)
            print(tb)
            print(f"VIOLATION property={prop} replay={path}")
            write_evidence(evfile, prop, tier, seed, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                                      "samples": [tb[-500:]]}, time.time() - t0, 1)
            sys.exit(1)
        broken = tb         # the driver could not go on; what it recorded so far is judged
    t1 = time.time()
    # specification-level runs, beside the validation
    vlib.classes()
    pool = vlib.ThreadPoolExecutor(2)
    runs = [pool.submit(vlib.model_check, module, cfg, const, 780) for _, module, cfg, const in (rec.mc if vlib.SCALE is None else [])]
    res = vlib.validate_all(rec.streams, jobs=7 if vlib.SCALE is None else 2)
    t2 = time.time()
    mcs = []
    mst, mtr = rec.gen
    for (name, module, cfg, _), run in zip(rec.mc, runs):
        ok, s, t, out = run.result()
        mst += s
        mtr += t
        mcs.append({"model": name, "states": s, "transitions": t, "ok": ok})
        if not ok:
            raise vlib.Machinery(f"specification-level property fails in {module}/{cfg}:\n" + out[-3000:])
    t3 = time.time()
    # verdicts
    kf = known(prop)
    kf_seen = set()
    viol = []
    for spec, evs, i, clauses in res["fails"]:
        rest = []
        for c in clauses:
            hit = next((n for n, k in enumerate(kf) if matches(k, evs[i], c)), None)
            if hit is None:
                rest.append(c)
            else:
                kf_seen.add(hit)
        if rest:
            viol.append((spec, evs, i, rest))
    allf = [(spec, evs[i], c) for spec, evs, i, c in res["fails"]]
    tried, rejected, per = (0, 0, {}) if viol or vlib.SCALE is not None else binding(rec, allf)
    for n in sorted(kf_seen):
        print(f"KNOWN-FINDING: property={prop} {kf[n]['what']}")
    seen = {}
    shown = 0
    for spec, evs, i, clauses in viol:
        e = evs[i]
        k = (e["op"], tuple(clauses))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2 or shown >= 8:
            continue
        shown += 1
        b = max((j for j in range(i + 1) if evs[j]["op"] == "begin"), default=0)
        path = os.path.join(replaydir, f"{prop}_{shown}.json")
        json.dump({"spec": spec, "property": prop, "clauses": clauses, "events": evs[b:i + 1]}, open(path, "w"))
        print(f"  {e['op']} [{e['key']}] violates {','.join(clauses)}: {json.dumps(e)[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    for k, n in seen.items():
        print(f"  {n} event(s) of {k[0]} violate {','.join(k[1])}")
    samples = []
    for s in rec.streams:
        for e in s.events:
            if len(samples) < 6 and e["op"] not in {x["op"] for x in samples}:
                x = json.loads(json.dumps(e))
                if len(json.dumps(x)) < 3000:
                    samples.append(x)
    cov = {"states": res["states"] + mst, "transitions": res["transitions"] + mtr,
           "traces_validated_against_impl": res["histories"], "samples": samples,
           "events_by_operation": rec.counts, "events": sum(rec.counts.values()),
           "specification_models": mcs, "corrupted_results_tried": tried, "corrupted_results_rejected": rejected,
           "corruptions_by_operation": {k: f"{a}/{b}" for k, (a, b) in per.items()},
           "notes": rec.notes,
           "seconds": {"drive": round(t1 - t0, 1), "validate": round(t2 - t1, 1), "model": round(t3 - t2, 1)}}
    write_evidence(evfile, prop, tier, seed, cov, time.time() - t0, len(viol))
    if broken and not viol:
        raise vlib.Machinery("the driver failed:\n" + broken)
    if not viol and tried and not rejected:
        raise vlib.Machinery("no corrupted trace was rejected: the binding is vacuous")
    print(f"{prop} {tier}: {cov['events']} events in {res['histories']} histories, {cov['states']} states, "
          f"{len(viol)} violations, {len(kf_seen)} known findings, corrupted {rejected}/{tried} rejected, {cov['seconds']}")
    sys.exit(1 if viol else 0)


def write_evidence(path, prop, tier, seed, cov, wall, viols):
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "assumptions": ["The events recorded are those of the driver; inputs outside its generators are not judged.",
                               "TLC and the arithmetic of java/DecOps.java evaluate the specification correctly."],
               "wall_s": round(wall, 2), "violations": viols}, open(path, "w"), indent=1)


if __name__ == "__main__":
    try:
        main()
    except vlib.Machinery as x:
        print("MACHINERY ERROR:", x)
        sys.exit(3)

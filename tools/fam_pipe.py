"""P04: the parallel slicing pipeline, every interleaving on the model, schedules enforced on the real code."""
import copy, glob, json, os
import vlib, fam_slice

MUTS = ("smallqueues", "noclose", "alias", "sharedbuffer", "peek", "short", "nosort")


def consts(ns, ws, muts=("none",), emit=False):
    return "Nset = {%s} Wset = {%s} Muts = {%s} Emit = %s" % (",".join(map(str, ns)), ",".join(map(str, ws)), ",".join('"%s"' % m for m in muts), "TRUE" if emit else "FALSE")


def cpus():
    return sorted(os.sched_getaffinity(0))


def run(ctx):
    n = (range(0, 5), (1, 2, 3)) if ctx.quick else (range(0, 6), (1, 2, 3, 4))
    at, g, d = ctx.tlc("Pipeline", consts(*n), ("Sound", "Distinct"), ("Terminates",), spec="FairSpec", timeout=800, heap="12g")
    ctx.log("design model: every interleaving ends with the sequential result, %d states" % d)
    seen = set()
    for ns, ws in (((3,), (2,)), ((4,), (1,))):
        at, g, d = ctx.tlc("Pipeline", consts(ns, ws, MUTS), ("Noticed",), extra_cfg="CONSTRAINT Bounded")
        seen |= {l[4:] for l in at if l.startswith("MUT|")}
    if set(MUTS) - seen:
        raise vlib.CheckError("the model does not notice %s" % (set(MUTS) - seen))
    have = cpus()
    cases = {}
    for ns, ws in (((1, 4, 5), (2, 3)), ((6,), (2,))) if ctx.quick else (((1, 4, 5, 6), (2, 3)), ((5,), (4,)), ((7,), (2,))):
        at, g, d = ctx.tlc("Pipeline", consts(ns, ws, emit=True), ("Sound",), heap="12g")
        for l in at:
            if l.startswith("CASE"):
                c = json.loads(l[4:])
                if c["w"] <= len(have):
                    cases.setdefault(c["w"], {})[(c["n"], tuple(c["order"]))] = c
    total = sum(map(len, cases.values()))
    ctx.log("%d schedules from the model" % total)
    pin = lambda k: ["taskset", "-c", ",".join(map(str, have[:k]))]
    refs, recs = {}, []

    def ref(k):
        if k not in refs:
            refs[k] = ctx.vh("pipe", [{"id": 0, "in": {"kind": "sched", "n": k, "order": []}}], wrap=pin(1))[0]
        return refs[k]
    for w, cs in sorted(cases.items()):
        rs = ctx.vh("pipe", [{"id": "w%d-%d" % (w, i), "in": dict(c, kind="sched")} for i, c in enumerate(cs.values())], wrap=pin(w), procs=6)
        for r in rs:
            if not r["panic"] and not r["hang"]:
                f = ref(r["in"]["n"])
                r["ref"] = (f.get("got") or [[]])[0]
        recs += rs
    ctx.log("%d schedules enforced on the real workers" % len(recs))
    # free running, on solids, against one processor
    ws = []
    at, g, d = ctx.tlc("Sweep", fam_slice.consts(True, (222, 331, 323, 412), range(1, 12), range(1, 10), (2, 3, 4), range(0, 9), sweeping=False), ("Sound",),
                       simulate=40 if ctx.quick else 400, depth=8, seed=ctx.seed, workers=1)
    ws = [json.loads(l) for l in sorted({l[4:] for l in at if l.startswith("CASE")})][:30 if ctx.quick else 300]
    free = [{"id": "f%d" % i, "in": {"kind": "free", "n": 0, "world": x, "reps": 6}} for i, x in enumerate(ws)]
    one = ctx.vh("pipe", [dict(c, **{"in": dict(c["in"], reps=1)}) for c in free], wrap=pin(1))
    sets = [len(have), 3] if ctx.quick else range(2, len(have) + 1)
    for k in sets:
        rs = ctx.vh("pipe", free, wrap=pin(k))
        for r, o in zip(rs, one):
            r["ref"] = (o.get("got") or [[]])[0]
        recs += rs
    # parallel loops
    loops = [{"id": "l%d" % i, "in": {"kind": "loop", "n": i}} for i in range(4)]
    for kind in ("copy", "load"):
        loops += [{"id": "%s%d" % (kind, i), "in": {"kind": kind, "n": i}} for i in list(range(0 if kind == "copy" else 1, 20)) + [97, 1000, 1001]]
    for k in sets:
        recs += ctx.vh("pipe", loops, wrap=pin(k))
    # the race detector
    racy = [{"id": "r", "in": dict(c, kind="sched")} for c in list(cases[max(cases)].values())[:12]] + free[:12] + loops
    rr = ctx.vh("pipe", racy, race=True, env={"GORACE": "exitcode=0 log_path=%s" % ctx.path("race")})
    for r in rr:
        for o in one:
            if o["id"] == r["id"]:
                r["ref"] = (o.get("got") or [[]])[0]
        if r["id"] == "r":
            r["ref"] = (ref(r["in"]["n"]).get("got") or [[]])[0]
    recs += rr
    ctx.log("free runs, loops and race detector done")
    for f in glob.glob(ctx.path("race") + ".*"):
        t = open(f).read()
        if "DATA RACE" in t:
            ctx.violation("P04 data race: " + " ".join(t.split())[:300], {"race": t[:4000], "cases": [c["id"] for c in racy]})
            break
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    for r in recs:
        if r["panic"] or r["hang"]:
            ctx.violation("P04 %s: %s" % (r["id"], r["panic"] or "the slicer does not end"), r)
    can = []
    sched = [r for r in good if r["kind"] == "sched" and len(r["got"][0]) > 2]
    for i, r in enumerate(sched[:6]):
        r = copy.deepcopy(r)
        gl = r["got"][0]
        if i == 0:
            gl[0], gl[1] = gl[1], gl[0]
        elif i == 1:
            gl.pop()
        elif i == 2:
            gl[1][1] ^= 1
        elif i == 3:
            r["leak"] = 1
        elif i == 4 and r["events"]:
            r["events"].append(["take", 0])
        elif i == 5 and r["events"]:
            r["events"] = [e for e in r["events"] if e[1] != 1]
        else:
            continue
        can.append(r)
    for r in good:
        if r["kind"] == "copy" and r["in"]["n"] == 5:
            r = copy.deepcopy(r)
            r["ids"][3] = 0
            can.append(r)
            break
    verdict = ctx.judge("PipelineTrace", good + can)
    for k, r in enumerate(good):
        flags = sorted(f for f in verdict[k] if f.startswith("P04"))
        if flags:
            ctx.violation("%s on %d processors: %s" % (r["id"], r["cpus"], "; ".join(flags)), r)
    if not ctx.violations:
        asleep = [k for k in range(len(can)) if not any(f.startswith("P04") for f in verdict[len(good) + k])]
        if asleep or len(can) < 4:
            raise vlib.CheckError("corrupted recording accepted: %s" % vlib.shrink_text(can[asleep[0]] if asleep else "too few"))
    off = sum(1 for k, r in enumerate(good) if r["kind"] == "sched" and "note schedule not followed" in verdict[k])
    ctx.traces = len(good)
    ctx.notes.update(corrupted_recordings_rejected=len(can), schedules_enforced=total, schedules_not_followed=off,
                     runs_under_race_detector=len(rr), model_deviations_noticed=len(MUTS))
    ctx.samples = [{k: v for k, v in r.items() if k != "world"} for r in good[:2]]
    ctx.assumptions = ["the scheduling points of the verif build are the only order imposed on the workers; the race detector sees what ran",
                       "the number of workers is set through the processor affinity of the process"]

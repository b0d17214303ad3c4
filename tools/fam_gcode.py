"""P11..P16: the generated program, executed by the machine model under the monitor."""
import copy, json
import vlib

SMALL = 'Wide = FALSE MaxCmds = %d MaxLayers = %d MaxPaths = %d Muts = {"none"}'
MUTS = ["relretract", "stalefeed", "stalepos", "noregrestore", "t1zero", "t2stale", "skipword", "nolift", "groupspeed", "fanlate"]


def gen(ctx):
    cases, seen = [], set()

    def add(lines):
        for l in lines:
            if l.startswith("CASE") and l not in seen:
                seen.add(l)
                cases.append(json.loads(l[4:]))
    if ctx.quick:
        at, g, d = ctx.tlc("Job", SMALL % (3, 1, 1), ["NoFlag", "TypeOK"])
        add(at)
        ctx.log("design model: every small job, %d states" % d)
        at, g, d = ctx.tlc("Job", 'Wide = TRUE MaxCmds = 7 MaxLayers = 6 MaxPaths = 9 Muts = {"none"}', ["NoFlag"],
                           simulate=400, depth=900, seed=ctx.seed, workers=1)
        add(at)
        at, g, d = ctx.tlc("Job", 'Wide = TRUE MaxCmds = 4 MaxLayers = 8 MaxPaths = 10 Muts = {"none"}', ["NoFlag"],
                           simulate=150, depth=900, seed=ctx.seed, workers=1)
        add(at)
    else:
        at, g, d = ctx.tlc("Job", SMALL % (3, 2, 2), ["NoFlag", "TypeOK"])
        add(at)
        at, g, d = ctx.tlc("Job", SMALL % (4, 1, 1), ["NoFlag", "TypeOK"])
        add(at)
        ctx.log("design model: every small job, %d states" % ctx.states)
        # deviating emitters must all be noticed by the monitor
        at, g, d = ctx.tlc("Job", 'Wide = FALSE MaxCmds = 3 MaxLayers = 2 MaxPaths = 2 Muts = {%s}' %
                           ",".join('"%s"' % m for m in MUTS), ["NoFlag"])
        missed = set(MUTS) - {l[4:] for l in at if l.startswith("MUT|")}
        if missed:
            raise vlib.CheckError("model does not notice the deviating emitters %s" % missed)
        ctx.notes["deviating_emitters_noticed"] = len(MUTS)
        for k in range(5):
            at, g, d = ctx.tlc("Job", 'Wide = TRUE MaxCmds = %d MaxLayers = %d MaxPaths = %d Muts = {"none"}' %
                               [(7, 6, 9), (10, 10, 20), (5, 8, 12), (14, 6, 10), (4, 8, 10)][k], ["NoFlag"],
                               simulate=1500, depth=1500, seed=ctx.seed * 10 + k, workers=1)
            add(at)
    ctx.log("%d jobs generated by TLC" % len(cases))
    return [{"id": k, "in": c} for k, c in enumerate(cases)]


def canaries(ctx, recs):
    """corrupted recordings that must be rejected with a flag of this property"""
    want = {"P11": ("x", 40), "P12": ("e", 40), "P13": ("f", 77)}
    out = []
    for r in recs:
        if len(out) >= 6:
            break
        r = copy.deepcopy(r)
        L = r["lines"]
        if ctx.prop in want:
            w, d = want[ctx.prop]
            ks = [k for k, l in enumerate(L) if l["op"] in ("G0", "G1") and w in l and ("e" in l or ctx.prop == "P13") and
                  (ctx.prop == "P13" or "x" in l or "y" in l)]
            if ctx.prop == "P13":
                # the speed line just before a printing move
                ks = [k for k in ks if any("e" in l and ("x" in l or "y" in l) for l in L[k:k + 3]) and "e" not in L[k]]
            if not ks:
                continue
            L[ks[len(ks) // 2]][w] += d
        elif ctx.prop == "P14":
            ks = [k for k, l in enumerate(L) if l["op"] == "LAYER"]
            if not ks:
                continue
            L[ks[-1]]["n"] += 1
        elif ctx.prop == "P15":
            if any(c["k"] != "layers" for c in r["in"]["cmds"]):
                continue
            ks = [k for k, l in enumerate(L) if l["op"] == "G0" and set(l) == {"op", "z"} and k + 2 < len(L)
                  and any(q["op"] == "G0" and "x" in q and "z" in q for q in L[k + 1:k + 3])]
            if not ks:
                continue
            del L[ks[len(ks) // 2]]
        elif ctx.prop == "P16":
            ks = [k for k, l in enumerate(L) if l["op"] == "T" and l["n"] != 0]
            if not ks:
                continue
            L[ks[0] + 2]["e"] = L[ks[0] + 2].get("e", 0) + 777
        out.append(r)
    return out


def run(ctx):
    cases = gen(ctx)
    recs = ctx.vh("gcode", cases, procs=4)
    ctx.log("replayed %d jobs through gcode.ToOutput" % len(recs))
    crashed = [r for r in recs if r["panic"] or r["hang"]]
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    can = canaries(ctx, [r for r in good if len(r["lines"]) > 10])
    verdict = ctx.judge("GcodeTrace", good + can)
    ctx.traces = len(recs)
    for k, r in enumerate(good):
        flags = {f for f in verdict[k] if f.startswith(ctx.prop)}
        if flags:
            ctx.violation("job %s: %s" % (r["id"], "; ".join(sorted(flags))), {"in": r["in"], "lines": r["lines"], "flags": sorted(verdict[k])})
    for r in crashed:
        ctx.violation("job %s: no program (%s)" % (r["id"], r["panic"] or "hang"), r)
    if not ctx.violations:
        if len(can) < 3:
            raise vlib.CheckError("too few corrupted recordings to prove the monitor awake")
        asleep = [k for k in range(len(can)) if not any(f.startswith(ctx.prop) for f in verdict[len(good) + k])]
        if asleep:
            raise vlib.CheckError("corrupted recording accepted: %s" % vlib.shrink_text(can[asleep[0]]))
    ctx.notes["corrupted_recordings_rejected"] = len(can)
    ctx.notes["program_lines_executed"] = sum(len(r["lines"]) for r in good)
    ctx.samples = [{"job": r["in"], "program": r["lines"][:12]} for r in good[len(good) // 2:len(good) // 2 + 2]]
    ctx.assumptions = ["absolute positioning and absolute extrusion, as the shipped header selects",
                       "pi = 355/113 and fixed-point tolerances of half the last printed digit"]

"""P05, P06: joining fragments and merging collinear lines."""
import copy, json
import vlib

C = 'Kind = "%s" Wide = %s MaxFrags = %d NPts = %d MaxPts = %d Muts = {%s}'


def run(ctx):
    kind = "join" if ctx.prop == "P05" else "merge"
    cases, seen = [], set()

    def tlc(wide, mf, np, mp, muts=("none",), inv="Sound", **kw):
        at, g, d = ctx.tlc("Join", C % (kind, "TRUE" if wide else "FALSE", mf, np, mp, ",".join('"%s"' % m for m in muts)), [inv], **kw)
        if inv == "Sound":
            for l in at:
                if l.startswith("CASE") and l not in seen:
                    seen.add(l)
                    cases.append(json.loads(l[4:]))
        return at, d

    if kind == "join":
        tlc(False, 3, 3 if ctx.quick else 4, 0)
        if not ctx.quick:
            tlc(False, 4, 3, 0)
    else:
        tlc(False, 0, 0, 4 if ctx.quick else 5)
    ctx.log("design model, exhaustive: %d states, %d cases" % (ctx.states, len(cases)))
    for k in range(1 if ctx.quick else 5):
        if kind == "join":
            tlc(True, 5, 5, 0, simulate=800 if ctx.quick else 2500, depth=20, seed=ctx.seed * 10 + k, workers=1)
            tlc(True, 12, 7, 0, simulate=800 if ctx.quick else 2500, depth=30, seed=ctx.seed * 10 + k, workers=1)
            tlc(True, 40, 8, 0, simulate=150 if ctx.quick else 600, depth=45, seed=ctx.seed * 10 + k, workers=1)
        else:
            tlc(True, 0, 0, 10, simulate=600 if ctx.quick else 5000, depth=30, seed=ctx.seed * 10 + k, workers=1)
    muts = ("apart", "reverse", "early") if kind == "join" else ("nodir", "noseam")
    at, _ = tlc(False, 3, 3, 4, muts, "Noticed")
    missed = set(muts) - {l[4:] for l in at if l.startswith("MUT|")}
    if missed:
        raise vlib.CheckError("model does not notice %s" % missed)
    ctx.log("%d cases; deviations %s noticed on the model" % (len(cases), ", ".join(muts)))
    if kind == "join":   # the order must not matter: also the same fragments the other way round
        cases += [dict(c, frags=c["frags"][::-1]) for c in cases if len(c["frags"]) > 2]
    recs = ctx.vh("join", [{"id": k, "in": c} for k, c in enumerate(cases)], procs=4)
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    can = []
    for r in good[::11]:
        if len(can) >= 8:
            break
        r = copy.deepcopy(r)
        if kind == "join":
            big = [p for p in r["out"] if len(p) >= 3 and p[0] != p[-1] and p[1] != p[-1]]
            if not big:
                continue
            p = big[0]
            if len(can) % 3 == 0:
                r["out"].append(p[1:])
                del p[2:]
            elif len(can) % 3 == 1:
                r["out"].append(p[:2])
            else:
                del p[1]
        else:
            if len(r["out"]) < 4 or len({tuple(x) for x in r["out"]}) < 4:
                continue
            if len(can) % 2:
                r["out"].pop()
            else:
                del r["out"][1]
        can.append(r)
    verdict = ctx.judge("JoinTrace", good + can)
    ctx.traces = len(recs)
    for k, r in enumerate(good):
        if verdict[k]:
            ctx.violation("%s -> %s: %s" % (json.dumps(r["in"]), json.dumps(r["out"]), "; ".join(sorted(verdict[k]))), r)
    for r in recs:
        if r["panic"] or r["hang"]:
            ctx.violation("%s: failed (%s)" % (json.dumps(r["in"]), r["panic"] or "hang"), r)
    if not ctx.violations:
        asleep = [k for k in range(len(can)) if not verdict[len(good) + k]]
        if asleep or len(can) < 3:
            raise vlib.CheckError("corrupted recording accepted: %s" % vlib.shrink_text(can[asleep[0]] if asleep else "too few"))
    ctx.notes["corrupted_recordings_rejected"] = len(can)
    ctx.samples = good[-2:]
    ctx.assumptions = ["ends within 1e-6 mm are the same point, distinct points are at least 1e-4 mm apart"] if kind == "join" else \
        ["points on a grid of 0.01 mm or coarser, so that corners are clear of the tolerance"]

"""P09, P10: walls inside the contours, skirts outside."""
import copy, json
import vlib

C = 'Wide = %s Muts = {%s} Nx = %d Ny = %d Ds = {%s} Sts = {%s}'


def tlc(ctx, wide, nx, ny, ds, sts, muts=("none",), inv="Sound", **kw):
    at, g, d = ctx.tlc("Walls", C % ("TRUE" if wide else "FALSE", ",".join('"%s"' % m for m in muts), nx, ny, ",".join(map(str, ds)), ",".join(map(str, sts))), [inv], **kw)
    return at, d


def canaries(ctx, good):
    out = []
    for r in good[::3]:
        if len(out) >= 9:
            break
        if (r["in"]["op"] == "skirt") != (ctx.prop == "P10"):
            continue
        r = copy.deepcopy(r)
        L, kind = r["layers"][0], len(out) % 3
        if ctx.prop == "P10":
            if r["in"]["skirt"] < 2 or len(L["paths"]) < 3:
                continue
            if kind == 0:
                L["paths"][0], L["paths"][1] = L["paths"][1], L["paths"][0]
            elif kind == 1:
                p = L["paths"][0]
                p[0] = [p[0][0] + 170, p[0][1] - 110, p[0][2]]
                p[-1] = p[0]
            else:
                del L["paths"][-1]
        else:
            if not L["middle"]:
                continue
            if kind == 0:
                L["middle"], L["inner"] = L["inner"], L["middle"]
            elif kind == 1:
                del L["middle"][0]
            else:
                p = L["inner"][0]
                p[0] = [p[0][0] + 170, p[0][1] - 110, p[0][2]]
                p[-1] = p[0]
        out.append(r)
    return out


def run(ctx):
    at, d = tlc(ctx, False, 3, 2 if ctx.quick else 3, (1, 2, 3), (4, 6))
    lines = list(at)
    ctx.log("design model: walls of every region of cells, %d states" % d)
    muts = ("lostcorner", "noreverse", "outside")
    at, _ = tlc(ctx, False, 2, 2, (1, 2, 3), (4,), muts, "Noticed")
    missed = set(muts) - {l[4:] for l in at if l.startswith("MUT|")}
    if missed:
        raise vlib.CheckError("model does not notice %s" % missed)
    for k in range(1 if ctx.quick else 5):
        at, _ = tlc(ctx, True, 3, 3, (1,), (4,), simulate=1800 if ctx.quick else 6000, depth=3, seed=ctx.seed * 10 + k, workers=1)
        lines += at
    cases, seen = [], set()
    for l in lines:
        if l.startswith("CASE") and l not in seen:
            seen.add(l)
            c = json.loads(l[4:])
            if ctx.prop == "P10" and c["op"] == "walls":
                c["op"] = "skirt"
            cases.append(c)
    recs = ctx.vh("wall", [{"id": k, "in": c} for k, c in enumerate(cases)], procs=4)
    ctx.log("%d cases replayed" % len(recs))
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    can = canaries(ctx, good[::-1])
    verdict = ctx.judge("WallTrace", good + can)
    ctx.traces = len(recs)
    for k, r in enumerate(good):
        flags = {f for f in verdict[k] if f.startswith(ctx.prop)}
        if flags:
            ctx.violation("%s: %s" % (vlib.shrink_text(r["in"], 700), "; ".join(sorted(flags)[:4])), r)
    for r in recs:
        if r["panic"] or r["hang"]:
            ctx.violation("%s: failed (%s)" % (vlib.shrink_text(r["in"], 700), r["panic"] or "hang"), r)
    if not ctx.violations:
        asleep = [k for k in range(len(can)) if not any(f.startswith(ctx.prop) for f in verdict[len(good) + k])]
        if asleep or len(can) < 3:
            raise vlib.CheckError("corrupted recording accepted: %s" % (vlib.shrink_text(can[asleep[0]]) if asleep else "too few"))
    ctx.notes["corrupted_recordings_rejected"] = len(can)
    ctx.samples = good[-1:]
    ctx.assumptions = ["contours whose sides keep clear of each other and, unless convex, do not vanish; a corner that would run ahead by 2 mm or more may be cut off outside the wall's distance",
                       "where a convex contour runs out of room within 0.1 mm a wall may or may not be there"]

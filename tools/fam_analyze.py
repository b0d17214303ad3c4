"""P30: planes proposed for a part with overhangs."""
import copy
import generic

C = 'Wide = %s Cap = %d Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        if not r["planes"] or r["count"] > 5:
            continue
        p = r["planes"][-1]
        if k == 0:
            r["planes"], r["count"], r["faces"] = r["planes"][:-1], r["count"] - 1, r["faces"][:-1]
        elif k == 1:
            p["p"][2] += 900
        elif k == 2:
            p["rot"] += 20000
        elif k == 3:
            p["tilted"] = not p["tilted"]
        elif k == 4:
            p["rn"][0] += 300
        elif k == 5:
            r["touched"] = True
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", 2 if ctx.quick else 3, '"none"'), ["Sound", "Replay"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", 3, '"none"'), [], dict(simulate=400 if ctx.quick else 3000, depth=2, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("whole", "seat", "upper", "right", "tilted", "behind")
    lines = generic.models(ctx, "Analyze", runs, (C % ("FALSE", 2, ",".join('"%s"' % m for m in muts)), muts))
    cases = generic.cases_of(lines)
    drawn = [c for c in cases if c["at"] != [0, 0, 0]]
    fixed = sorted((c for c in cases if c["at"] == [0, 0, 0]), key=lambda c: str(c["tris"]))
    if ctx.quick:
        fixed = fixed[ctx.seed % 29::29]
    generic.conform(ctx, "analyze", drawn + fixed, "AnalyzeTrace", canaries, procs=6)

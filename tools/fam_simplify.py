"""P22: simplification of polylines."""
import copy
import generic

C = 'Wide = %s Muts = {%s} NPts = %d Gx = %d Gy = %d'


def canaries(good):
    out = []
    for r in good[::7]:
        if len(out) >= 9:
            break
        r = copy.deepcopy(r)
        k = len(out) % 4
        if len(r["out"]) < 4 or len(set(map(tuple, r["in"]["ps"]))) < len(r["in"]["ps"]):
            continue
        if k == 0:
            del r["out"][2]
        elif k == 1:
            r["out"][1], r["out"][2] = r["out"][2], r["out"][1]
        elif k == 2:
            r["out"][-1] = r["out"][-2]
        else:
            r["in"]["eps4"] = 400
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"', 4, 2, 2), ["Sound"], {}), (C % ("FALSE", '"none"', 5, 2, 1), ["Sound"], {})]
    if not ctx.quick:
        runs.append((C % ("FALSE", '"none"', 6, 2, 1), ["Sound"], {}))
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"', 3, 2, 2), [], dict(simulate=6000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("first", "half", "left")
    lines = generic.models(ctx, "Simplify", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts), 4, 2, 2), muts))
    generic.conform(ctx, "simplify", generic.cases_of(lines), "SimplifyTrace", canaries)
    ctx.assumptions = ["at least two points", "points exactly at the tolerance of a slanted line, and equally far points, may go either way"]

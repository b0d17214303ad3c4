"""P23: making meshes smaller."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        i = r["in"]
        n, w = len(i["tris"]), i["want"]
        if k == 0 and n > w > 24 and i["box"]:
            r["ids"] = [[a, c, b] for a, b, c in r["ids"]]
        elif k == 1 and n > w and len(r["ids"]) > 3:
            r["ids"].pop()
        elif k == 2 and 0 < n <= w:
            r["same"] = False
        elif k == 3 and n > w > 24 and i["box"]:
            r["at"][0] = [x + 90000 for x in r["at"][0]]
        elif k == 4 and n > w > 12:
            r["ids"] = r["ids"] + [r["ids"][0], r["ids"][0][::-1]] * 3
        elif k == 5:
            r["untouched"] = False
        else:
            continue
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=1500 if ctx.quick else 4000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("leak", "bare", "early", "turnover")
    lines = generic.models(ctx, "Reduce", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "reduce", generic.cases_of(lines), "ReduceTrace", canaries)
    ctx.assumptions = ["what is merged when corners have to move is left to the simplification library"]

"""P20: classification of overhanging triangles."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good[::5]:
        if len(out) >= 8:
            break
        r = copy.deepcopy(r)
        if r["in"]["sn"]["sg"] != 0 or True not in r["res"] or len(r["out"]) < 2:
            continue
        k = len(out) % 4
        if k == 0:
            r["res"] = [False] * len(r["res"])
            r["out"] = []
        elif k == 1:
            r["res"].pop()
        elif k == 2:
            r["out"][0], r["out"][1] = r["out"][1], r["out"][0]
        else:
            r["touched"] = True
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=3000 if ctx.quick else 8000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("unsigned", "unscaled", "facing", "order")
    lines = generic.models(ctx, "Overhang", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "overhang", generic.cases_of(lines), "OverhangTrace", canaries)
    ctx.assumptions = ["triangles with an area", "an angle exactly at the limit may go either way"]

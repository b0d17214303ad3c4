"""P25: planes files."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good[::3]:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        if len(r["planes"]) < 2:
            continue
        p = r["planes"][-1]
        if k == 0:
            p["p"][1] += 5
        elif k == 1:
            p["n"] = [x + 2000 for x in p["n"]]
        elif k == 2:
            r["planes"].pop()
        elif k == 3:
            p["again"]["rot"] += 1
        elif k == 4:
            p["again"]["tilted"] = not p["again"]["tilted"]
        else:
            r["same"] = False
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=2500 if ctx.quick else 8000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("blank", "spelling", "back")
    lines = generic.models(ctx, "ReadPlanes", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "planes", generic.cases_of(lines), "PlanesTrace", canaries)
    ctx.assumptions = ["well-formed lines or blank ones", "single precision of the numbers"]

"""P28: whole slicing runs end, repeat, and leave their input alone."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        if k < 3:
            r[("meshkept", "settingskept", "same")[k]] = False
        elif k == 3 and not r["in"]["tris"]:
            r["layers"] = 1
        elif k == 4 and r["in"]["tris"]:
            r["layers"] = 0
        elif k == 5:
            r["clean"] = False
        else:
            continue
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=1200 if ctx.quick else 4000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("greedy", "late", "sorts", "waits")
    lines = generic.models(ctx, "Endure", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "endure", generic.cases_of(lines), "EndureTrace", canaries)

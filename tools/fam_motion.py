"""P24: moving and turning meshes."""
import copy
import generic

C = 'Wide = %s Muts = {%s} Depth = %d'


def canaries(good):
    out = []
    for r in good[::3]:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        if r["in"]["kind"] == "about":
            r["vs"][3][1] += 900
        elif not r["steps"] or len(r["steps"][-1]["ts"]) < 2:
            continue
        else:
            s = r["steps"][-1]
            if k == 0:
                s["ts"][1][2][0] += 9
            elif k == 1:
                s["ts"].pop()
                s["ns"].pop()
            elif k == 2:
                s["ns"][0] = [x + 50 for x in s["ns"][0]]
            elif k == 3:
                s["kept"] = False
            elif k == 4:
                s["mm"][1] -= 400
            else:
                s["copied"] = False
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"', 2 if ctx.quick else 3), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"', 1), [], dict(simulate=2500 if ctx.quick else 8000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("ccw", "centre", "mirror", "squash")
    lines = generic.models(ctx, "Motion", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts), 1), muts))
    generic.conform(ctx, "motion", generic.cases_of(lines), "MotionTrace", canaries)

"""P26: inside, winding, centroid and containment of contours."""
import copy
import generic

C = 'Wide = %s Muts = {%s} NPts = %d G = %d'


def canaries(good):
    out = []
    for r in good[::5]:
        if len(out) >= 9:
            break
        r = copy.deepcopy(r)
        k = len(out) % 4
        if r["in"]["op"] == "pair":
            if not (r["ab"] or r["ba"]):
                continue
            r["ab"], r["ba"] = r["ba"], r["ab"]
        elif k == 0:
            if not r["inside"]:
                continue
            r["inside"][0] = not r["inside"][0]
        elif k == 1:
            if r["in"]["w"] != [0, 0, 1]:
                continue
            r["in"]["loop"].reverse()
        else:
            r["centroid"][1] += 5
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"', 4 if ctx.quick else 5, 2), ["Sound"], {})]
    for k in range(1 if ctx.quick else 6):
        runs.append((C % ("TRUE", '"none"', 3, 2), [], dict(simulate=5000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("twice", "flatdir")
    lines = generic.models(ctx, "Contour", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts), 4, 2), muts))
    generic.conform(ctx, "contour", generic.cases_of(lines), "ContourTrace", canaries)
    ctx.assumptions = ["points off the contour, contours without common points", "winding in the XY plane only (as the code says)"]

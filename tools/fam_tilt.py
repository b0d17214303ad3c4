"""P29: overhangs between layers, the middle of their directions, and the turn of the bed for them."""
import copy
import generic

C = 'Wide = %s N = %d Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        i, k = r["in"], len(out) % 4
        if k == 0 and i["kind"] == "ring":
            r["mid"] = (r["mid"] + 90) % 360
        elif k == 1 and i["kind"] == "turn":
            r["vol"] *= 2
        elif k == 2 and i["kind"] == "turn" and i["mode"] != "profile" and len(r["turns"]) and r["found"]:
            if len(out) > 4 and 0 in i["sh"]:
                r["over"] += r["lh"]
            else:
                r["turns"][0][0] += 45000
        elif k == 3 and i["kind"] == "pair" and r["found"] and max(map(abs, i["mv"])) <= 1:
            r["found"] = False
            if i["high"]["a"] < i["low"]["a"] + 2 or i["high"]["b"] < i["low"]["b"] + 2 or i["h"] > 1:
                continue
        else:
            continue
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", 12 if ctx.quick else 36, '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", 12, '"none"'), [], dict(simulate=1500 if ctx.quick else 6000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("inward", "linear", "unsigned", "mirror")
    lines = generic.models(ctx, "Tilt", runs, (C % ("FALSE", 12, ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "tilt", generic.cases_of(lines), "TiltTrace", canaries)

"""P31: elementary geometry."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out, had = [], {}
    for r in good:
        op = r["in"]["op"]
        if had.get(op, 0) >= 2 or not r["res"]:
            continue
        r = copy.deepcopy(r)
        k = next((k for k, x in enumerate(r["res"]) if x.get("hit", True)), None)
        if k is None:
            continue
        x = r["res"][k]
        two = had.get(op, 0)
        if op == "segs":
            if two:
                x["hit3"] = not x["hit3"]
            else:
                x["p"][0] += 900
        elif op == "plane":
            x["front" if two else "on"] = not x["front" if two else "on"]
        elif op == "tri":
            if two:
                x["p"], x["q"] = x["q"], x["p"]
                q = r["in"]["items"][k]
                side = [sum((p[i] - q[3][i]) * q[4][i] for i in range(3)) for p in q[:3]]
                if min(side) >= 0 or max(side) <= 0:
                    continue
            else:
                x["q"][1] += 700
        elif op == "tris":
            x["p"][2] += 900
        elif op == "in":
            x["in"] = not x["in"]
        elif op == "line":
            if two:
                x["same"] = not x["same"]
            else:
                x["foot"][0] += 300
        else:
            if two:
                x["angle"] += 3000 if x["angle"] < 90000 else -3000
            else:
                x["onto"][1] += 40
        had[op] = two + 1
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(2 if ctx.quick else 10):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=800 if ctx.quick else 1200, depth=2, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("oneway", "proper", "half", "strict", "unturned", "twosides")
    lines = generic.models(ctx, "Elem", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "elem", generic.cases_of(lines), "ElemTrace", canaries, mincan=10, text=300)
    ctx.assumptions = ["segments, triangles and planes with a length, an area and a direction; where two things only touch, triangles may be told to meet or not"]

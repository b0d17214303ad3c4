"""P17: slicing by planes."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 10:
            break
        r = copy.deepcopy(r)
        k = len(out) % 5
        parts = [e for e in r["events"] if e["k"] == "layers"]
        beds = [e for e in r["events"] if e["k"] == "bed"]
        full = [e for e in parts[1:] if len(e["ls"]) > 3 and all(len(p) > 3 for p in e["ls"][2]["paths"])]
        if len(parts) < 2 or not r["in"]["strict"] or not full or not beds:
            continue
        if k == 0:
            beds[0]["deg"] += 7000
        elif k == 1:
            r["events"].remove(full[0])
        elif k == 2:
            for L in full[0]["ls"]:
                for p in L["paths"]:
                    p.reverse()
        elif k == 3:
            for L in full[0]["ls"]:
                for p in L["paths"]:
                    for q in p:
                        q[0], q[1] = q[0] + 150, q[1] - 150
        else:
            for L in full[0]["ls"]:
                L["z"] += 30
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=160 if ctx.quick else 1200, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("forward", "noback", "adds", "wrongway")
    lines = generic.models(ctx, "ByPlanes", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "byplanes", generic.cases_of(lines), "ByPlanesTrace", canaries)
    ctx.assumptions = ["solids made of cells", "membership is tested at sample points at least 0.08 mm from any border"]

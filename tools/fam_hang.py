"""P21: supports."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        if (k < 3) != (r["in"]["kind"] == "lines"):
            continue
        if k == 0 and r["once"]:
            r["once"].pop()
            r["again"].pop()
            r["down"].pop()
        elif k == 1 and r["rest"] and len(r["rest"]) == len(r["once"]):
            r["rest"].append(r["rest"][0])
        elif k == 2 and r["down"]:
            r["down"][0][1] = [x + 40 for x in r["down"][0][1]]
        elif k == 3 and sum(1 for L in r["layers"] if L["paths"]) > 2:
            for L in r["layers"]:
                L["paths"] = []
        elif k == 4 and sum(1 for L in r["layers"] if L["paths"]) > 2:
            d = r["in"]["d"]
            for L in r["layers"]:
                for p in L["paths"][:1]:
                    p.append([x + (0 if d[j] else 33777) for j, x in enumerate(p[-1])])
        elif k == 5:
            r["untouched"] = False
        else:
            continue
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=1000 if ctx.quick else 4000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("oneway", "keep", "behind", "upside")
    lines = generic.models(ctx, "Hang", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "hang", generic.cases_of(lines), "HangTrace", canaries)

"""P32: bridges and round parts."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out, had = [], {}
    for r in good:
        cmds = r["cmds"]
        t = next((k for k, x in enumerate(cmds) if x["op"] == "incline"), None)
        key = (r["in"]["kind"], t is not None)
        n = had.get(key, 0)
        if n >= 5 or not cmds:
            continue
        r = copy.deepcopy(r)
        cmds = r["cmds"]
        lay = [x for x in cmds if x["op"] == "layers" and any(x["pts"])]
        if n == 0:
            lay[-1]["vol"] = lay[-1]["vol"] * 2 + 200000
        elif n == 1:
            p = next(p for p in lay[0]["pts"] if p)
            p[0][0] += 30000
        elif n == 4:
            x = next((x for x in cmds[::-1] if x.get("xs")), None)
            if x is None:
                continue
            x["xs"][0][0] += 777
        elif t is None:
            cmds.insert(1, {"op": "incline"})
            cmds.append({"op": "back"})
            if r["in"]["kind"] == "vase":
                g = r["in"]["rings"]
                if any(b[0] > a[0] for a, b in zip(g, g[1:])):
                    continue
            elif any(g["m"] >= 7 and g["tall"] for g in r["in"]["legs"]):
                continue
        elif n == 2:
            r["cmds"] = [x for x in cmds if x["op"] != "back"]
        elif r["in"]["kind"] == "legs":
            if "a" not in cmds[t - 1]:
                continue
            cmds[t - 1]["a"] += 40000
        else:
            r["cmds"] = cmds[:t] + cmds[t + 1:]
        had[key] = n + 1
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=300 if ctx.quick else 400, depth=2, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("short", "again", "lost", "stay", "inner")
    lines = generic.models(ctx, "Ways", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "ways", generic.cases_of(lines), "WaysTrace", canaries, mincan=10, text=300)
    ctx.assumptions = ["two legs leaning towards each other or not at all; round parts on a ring of twenty corners"]

"""P18: cutting a solid by a plane."""
import copy
import generic


def C(wide, n3, muts, jits):
    st = lambda s: "{%s}" % ",".join(str(x) for x in s)
    return "Wide = %s N3 = %s Muts = {%s} Jits = %s" % ("TRUE" if wide else "FALSE", st(n3), ",".join('"%s"' % m for m in muts), st(jits))


def big(ts):
    def area2(t):
        a, b = ([t[k][j] - t[0][j] for j in range(3)] for k in (1, 2))
        c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        return sum(x * x for x in c)
    return max(range(len(ts)), key=lambda i: area2(ts[i]))


def canaries(good):
    out = []
    for r in good[::3]:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        if len(r["up"]) < 6 or len(r["down"]) < 6:
            continue
        if k == 0:
            del r["up"][big(r["up"])]
        elif k == 1:
            r["up"], r["down"] = r["down"], r["up"]
        elif k == 2:
            b = big(r["down"])
            r["down"][b][1], r["down"][b][2] = r["down"][b][2], r["down"][b][1]
        elif k == 3:
            b = big(r["down"])
            r["down"][b][0] = [x + 300 for x in r["down"][b][0]]
        elif k == 4:
            r["touched"] = True
        else:
            del r["down"][big(r["down"])]
        out.append(r)
    return out


def run(ctx):
    runs = [(C(False, (221,), ("none",), (0,)), ["Sound"], {})]
    if not ctx.quick:
        runs.append((C(False, (222,), ("none",), (0,)), ["Sound"], {}))
    for k in range(1 if ctx.quick else 8):
        runs.append((C(True, (111, 221, 222, 331, 323, 133), ("none",), range(0, 9)), [], dict(simulate=400 if ctx.quick else 2000, depth=4, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("drop", "flip", "mixed")
    lines = generic.models(ctx, "Cut", runs, (C(False, (221,), muts, (0,)), muts))
    cases = generic.cases_of(lines)
    ctx.log("%d cases" % len(cases))
    if ctx.quick:
        cases = cases[ctx.seed % 4:-400:4] + cases[-400:]
    generic.conform(ctx, "cut", cases, "CutTrace", canaries)

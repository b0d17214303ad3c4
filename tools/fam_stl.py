"""P19: STL files."""
import copy
import generic

C = 'Wide = %s Muts = {%s}'


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 12:
            break
        r = copy.deepcopy(r)
        k = len(out) % 6
        i = r["in"]
        done = i["extra"] == 0 and not i["half"] and r["err"] == "" and len(r["tris"]) > 1
        if k in (0, 1, 2) and done:
            t = r["tris"]
            if k == 0:
                t[0] = [t[0][0], t[0][2], t[0][1]]
                if t[0][1] == t[0][2]:
                    continue
            elif k == 1:
                t[-1][0][0] += 1
            else:
                t.pop()
        elif k == 3 and i["what"] == "bin" and r["err"] and not i["extra"]:
            r["err"] = ""
        elif k == 4 and i["what"] == "save":
            r["full"] = ""
        elif k == 5 and i["what"] == "save":
            r["size"] -= 50
        else:
            continue
        out.append(r)
    return out


def run(ctx):
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=1200 if ctx.quick else 4000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("lenient", "nosize", "append", "flip", "first", "noflush")
    lines = generic.models(ctx, "Stl", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    cases = generic.cases_of(lines)
    n = len(cases) // 3
    generic.conform(ctx, "stl", cases[n:], "StlTrace", canaries)
    # again on one and on three processors: the workers share the file differently
    generic.conform(ctx, "stl", cases[:n // 2], "StlTrace", canaries, wrap=["taskset", "-c", "0"])
    generic.conform(ctx, "stl", cases[n // 2:n], "StlTrace", canaries, wrap=["taskset", "-c", "0-2"])
    ctx.assumptions = ["well-formed text files", "coordinates within single precision", "a text file cut behind a whole solid may be taken for the solids it holds"]

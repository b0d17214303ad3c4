"""P01..P03: slicing solids that TLC builds, judged against their exact sections."""
import copy, json
import vlib


def consts(wide, n3, dset, hset, steps, jits, muts=("none",), sweeping=True):
    st = lambda s: "{%s}" % ",".join(str(x) for x in s)
    return "Wide = %s N3 = %s Muts = {%s} Dset = %s Hset = %s Steps = %s Jits = %s Sweeping = %s" % (
        "TRUE" if wide else "FALSE", st(n3), ",".join('"%s"' % m for m in muts), st(dset), st(hset), st(steps), st(jits), "TRUE" if sweeping else "FALSE")


def worlds(ctx, invariants=("Sound",)):
    cases, seen = [], set()

    def add(lines):
        for l in lines:
            if l.startswith("CASE") and l not in seen:
                seen.add(l)
                cases.append(json.loads(l[4:]))

    small = [("221", (1, 6), (1, 3), (2,), (0, 3))] if ctx.quick else \
        [("221", range(1, 12), (1, 2, 3, 4, 5, 7), (2, 4), (0, 3, 4)), ("222", (1, 6), (1, 4), (2,), (0, 3))]
    for n3, ds, hs, st, ji in small:
        at, g, d = ctx.tlc("Sweep", consts(False, (n3,), ds, hs, st, ji), invariants)
        add(at)
        ctx.log("design model: every solid of %s cells, %d states, %d worlds" % (n3, d, len(cases)))
    runs = [(300, 8, False)] if ctx.quick else [(2500, 8, False)] * 4 + [(300, 200, True)]
    wide = []
    for k, (num, depth, sw) in enumerate(runs):
        at, g, d = ctx.tlc("Sweep", consts(True, (222, 331, 323, 333, 412, 133), range(1, 12), range(1, 10), (2, 3, 4), range(0, 9), sweeping=sw),
                           invariants, simulate=num, depth=depth, seed=ctx.seed * 10 + k, workers=1)
        wide += at
    add(wide)
    if not ctx.quick:
        muts = ("nosort", "dropearly")
        at, g, d = ctx.tlc("Sweep", consts(False, ("221",), (1,), (3,), (2,), (0,), muts), ("Noticed",))
        missed = set(muts) - {l[4:] for l in at if l.startswith("MUT|")}
        if missed:
            raise vlib.CheckError("model does not notice the deviating sweeps %s" % missed)
    return cases


def canaries(ctx, recs):
    out = []
    for r in recs[::7]:
        if sum(1 for x in r["in"]["d"] if x) > 1:
            continue
        if len(out) >= 6:
            break
        r = copy.deepcopy(r)
        L = [l for l in r["layers"] if l["paths"]]
        if len(r["layers"]) < 3 or len(L) < 2:
            continue
        p = L[1]["paths"][0]
        kind = len(out) % 3
        if ctx.prop == "P01":
            if kind == 0:
                del r["layers"][1]
            elif kind == 1:
                r["layers"][0], r["layers"][1] = r["layers"][1], r["layers"][0]
            else:
                L[1]["norm"] = [10000 - abs(x) for x in L[1]["norm"]]
        elif ctx.prop == "P02":
            if kind == 0:
                L[1]["paths"].append(copy.deepcopy(p))
            elif kind == 1:
                p[1] = [p[1][0] + 9, p[1][1] - 7, p[1][2] + 8]
            else:
                L[1]["paths"].pop()
        else:
            if kind == 0:
                p.pop()
            else:
                p.reverse()
        out.append(r)
    return out


def run(ctx):
    ws = worlds(ctx)
    ctx.log("%d worlds generated by TLC" % len(ws))
    recs = ctx.vh("slice", [{"id": k, "in": w} for k, w in enumerate(ws)], procs=4)
    ctx.log("sliced by the real code")
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    can = canaries(ctx, good)
    verdict = ctx.judge("SliceTrace", good + can)
    ctx.traces = len(recs)
    for k, r in enumerate(good):
        flags = {f for f in verdict[k] if f.startswith(ctx.prop)}
        if flags:
            ctx.violation("world %s: %s" % (r["id"], "; ".join(sorted(flags)[:4])), {"in": r["in"], "layers": r["layers"], "flags": sorted(verdict[k])})
    for r in recs:
        if r["panic"] or r["hang"]:
            ctx.violation("world %s: slicing failed (%s)" % (r["id"], r["panic"] or "hang"), r)
    if not ctx.violations:
        asleep = [k for k in range(len(can)) if not any(f.startswith(ctx.prop) for f in verdict[len(good) + k])]
        if asleep or len(can) < 3:
            raise vlib.CheckError("corrupted recording accepted: %s" % vlib.shrink_text(can[asleep[0]] if asleep else "too few"))
    ctx.notes["corrupted_recordings_rejected"] = len(can)
    ctx.notes["layers_judged"] = sum(len(r["layers"]) for r in good)
    ctx.samples = [{"world": r["in"], "layers": r["layers"][:2]} for r in good[-2:]]
    ctx.assumptions = ["solids are cell complexes with displaced vertices, up to 16 mm, compared to 3 micrometres",
                       "a plane through a vertex may give the section just below or just above it"]

"""P07, P08: infill lines and fill patterns."""
import copy, json
import vlib

C = 'Kind = "%s" Wide = %s Muts = {%s} Nx = %d Ny = %d'


def tlc(ctx, kind, wide, nx, ny, muts=("none",), inv="Sound", **kw):
    at, g, d = ctx.tlc("Fill", C % (kind, "TRUE" if wide else "FALSE", ",".join('"%s"' % m for m in muts), nx, ny), [inv], **kw)
    return at, d


def canaries(ctx, good):
    out = []
    for r in good[::5]:
        if len(out) >= 9:
            break
        r = copy.deepcopy(r)
        kind = len(out) % 3
        if "loops" in r["in"]:
            if ctx.prop == "P08":
                if len(r["layers"]) < 3 or r["in"]["bottom"] + r["in"]["top"] + 1 != len(r["layers"]) or len(r["layers"][0]["fill"]) < 5:
                    continue
                r["in"]["bottom"] += 1
                out.append(r)
                continue
            L = [l for l in r["layers"] if len(l["fill"]) >= 2]
            if not L:
                continue
            f = [p for p in L[0]["fill"] if abs(p[0][0] - p[1][0]) + abs(p[0][1] - p[1][1]) > 500]
            if not f:
                continue
            if kind == 0:
                L[0]["fill"].remove(f[0])
            elif kind == 1:
                L[0]["fill"].append(f[0])
            else:
                f[0][1] = [x + 8 for x in f[0][1]]
        elif ctx.prop == "P07":
            continue
        elif "parts" in r:
            L = [l for p in r["parts"] for l in p if len(l["lines"]) > 6]
            if not L:
                continue
            del L[0]["lines"][3]
        else:
            if len(r["planes"]) < 8 or r["in"]["w"] < 4:
                continue
            if kind == 0:
                del r["planes"][len(r["planes"]) // 4]
            elif kind == 1:
                r["full"] = r["full"][:2]
            else:
                for p in r["planes"]:
                    p["off"] = p["off"] * 21 // 20
        out.append(r)
    return out


def run(ctx):
    lines = []
    if ctx.prop == "P07":
        at, d = tlc(ctx, "scan", False, 3 if ctx.quick else 3, 2 if ctx.quick else 3, timeout=1500)
        lines += at
        ctx.log("design model: every region of %s cells and every line across it, %d states" % ("3x2" if ctx.quick else "3x3", d))
        muts = ("closed", "nosort", "perloop", "ends")
        at, _ = tlc(ctx, "scan", False, 3, 2 if ctx.quick else 3, muts, "Noticed", timeout=1500)
        need = {"closed", "nosort", "ends"} | (set() if ctx.quick else {"perloop"})
    else:
        at, d = tlc(ctx, "plan", False, 1, 1)
        ctx.log("design model: parts anywhere, %d states" % d)
        muts = ("xonly", "max", "half")
        at, _ = tlc(ctx, "plan", False, 1, 1, muts, "Noticed")
        need = set(muts)
    missed = need - {l[4:] for l in at if l.startswith("MUT|")}
    if missed:
        raise vlib.CheckError("model does not notice %s" % missed)
    n = 1 if ctx.quick else 5
    for k in range(n):
        at, _ = tlc(ctx, "scan", True, 4, 4, simulate=(400 if ctx.prop == "P07" else 120) * (1 if ctx.quick else 4), depth=5, seed=ctx.seed * 10 + k, workers=1)
        lines += at
        if ctx.prop == "P08":
            at, _ = tlc(ctx, "plan", True, 1, 1, simulate=300 if ctx.quick else 1500, depth=5, seed=ctx.seed * 10 + k, workers=1)
            lines += at
    cases, seen = [], set()
    for l in lines:
        if l.startswith("CASE") and l not in seen:
            seen.add(l)
            cases.append(json.loads(l[4:]))
    recs = ctx.vh("fill", [{"id": k, "in": c} for k, c in enumerate(cases)], procs=4)
    ctx.log("%d cases replayed" % len(recs))
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    can = canaries(ctx, good[::-1])
    verdict = ctx.judge("FillTrace", good + can)
    ctx.traces = len(recs)
    for k, r in enumerate(good):
        flags = {f for f in verdict[k] if f.startswith(ctx.prop)}
        if flags:
            ctx.violation("%s: %s" % (vlib.shrink_text(r["in"], 600), "; ".join(sorted(flags)[:4])), r)
    for r in recs:
        if r["panic"] or r["hang"]:
            ctx.violation("%s: failed (%s)" % (vlib.shrink_text(r["in"], 600), r["panic"] or "hang"), r)
    if not ctx.violations:
        asleep = [k for k in range(len(can)) if not any(f.startswith(ctx.prop) for f in verdict[len(good) + k])]
        if asleep or len(can) < 3:
            raise vlib.CheckError("corrupted recording accepted: %s" % (vlib.shrink_text(can[asleep[0]]) if asleep else "too few"))
    ctx.notes["corrupted_recordings_rejected"] = len(can)
    ctx.samples = [json.loads(json.dumps(r)) for r in good[-1:]]
    ctx.assumptions = ["fill lines through a corner may be taken just before or just after it", "regions of displaced grid cells, up to 16 mm, compared to 3 micrometres"]

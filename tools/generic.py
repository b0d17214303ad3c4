"""One property family: TLC design model -> cases -> real code -> TLC judges the records."""
import json
import vlib


def cases_of(lines):
    out, seen = [], set()
    for l in lines:
        if l.startswith("CASE") and l not in seen:
            seen.add(l)
            out.append(json.loads(l[4:]))
    return out


def models(ctx, module, runs, muts):
    """runs: list of (consts, invariants, kw); muts: (consts, names).  Returns the printed lines."""
    lines, total = [], 0
    for consts, inv, kw in runs:
        at, g, d = ctx.tlc(module, consts, inv, **kw)
        lines += at
        if not kw.get("simulate"):
            total += d
    ctx.log("design model %s: %d states" % (module, total))
    if muts:
        consts, names = muts
        at, _, _ = ctx.tlc(module, consts, ["Noticed"])
        missed = set(names) - {l[4:] for l in at if l.startswith("MUT|")}
        if missed:
            raise vlib.CheckError("model %s does not notice %s" % (module, sorted(missed)))
        ctx.notes["deviating_models_noticed"] = ctx.notes.get("deviating_models_noticed", 0) + len(names)
    return lines


def conform(ctx, family, cases, tracer, canaries, consts="", mincan=3, procs=4, text=600, ids=None, **kw):
    """replay, judge, check that corrupted records are rejected"""
    known = [k for k in ctx.known() if k.get("family") == family]
    cases = cases + [k["case"] for k in known]
    recs = ctx.vh(family, [{"id": k, "in": c} for k, c in enumerate(cases)], procs=procs, **kw)
    ctx.log("%d cases replayed" % len(recs))
    good = [r for r in recs if not (r["panic"] or r["hang"])]
    # records of broken code may be too odd to corrupt: what matters then is what is said about them
    odd = None
    try:
        can = canaries(good[::-1])
    except (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, StopIteration) as e:
        can, odd = [], e
    verdict = ctx.judge(tracer, good + can, consts=consts)
    ctx.traces += len(recs)
    before = len(ctx.violations)
    for k, r in enumerate(good):
        flags = {f for f in verdict[k] if f.startswith(ctx.prop)}
        if flags and not listed(ctx, known, r, flags):
            ctx.violation("%s: %s" % ("; ".join(sorted(flags)[:4]), vlib.shrink_text(r["in"], text)), r)
    for r in recs:
        if (r["panic"] or r["hang"]) and not listed(ctx, known, r, {"failed"}):
            ctx.violation("failed (%s): %s" % (r["panic"][:300] or "hang", vlib.shrink_text(r["in"], text)), r)
    if odd and len(ctx.violations) == before:
        raise odd
    if len(ctx.violations) == before:
        asleep = [k for k in range(len(can)) if not any(f.startswith(ctx.prop) for f in verdict[len(good) + k])]
        if asleep or len(can) < mincan:
            raise vlib.CheckError("corrupted recording accepted: %s" % (vlib.shrink_text(can[asleep[0]]) if asleep else "too few"))
    ctx.notes["corrupted_recordings_rejected"] = ctx.notes.get("corrupted_recordings_rejected", 0) + len(can)
    ctx.samples = (ctx.samples + good[-1:])[-3:]
    return recs


def listed(ctx, known, r, flags):
    """is this failure one of the known findings?"""
    for k in known:
        if k["case"] == r["in"] and flags <= set(k["flags"]):
            if k["text"] not in ctx.known_hit:
                ctx.known_hit.append(k["text"])
            return True
    return False

"""P27: runs of the command line tools."""
import copy, os, subprocess
import generic, vlib

C = 'Wide = %s Muts = {%s}'
TOOLS = ("goosli", "goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer")


def build(ctx):
    d = ctx.path("bin")
    os.makedirs(d, exist_ok=True)
    for t in TOOLS:
        r = subprocess.run(["go", "build", "-o", os.path.join(d, t), "./cmd/" + t], cwd=vlib.REPO, env=vlib.goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise vlib.CheckError("command %s does not build:\n%s" % (t, r.stderr[-2000:]))
    return d


def canaries(good):
    out = []
    for r in good:
        if len(out) >= 16:
            break
        r = copy.deepcopy(r)
        i, k = r["in"], len(out) % 8
        if k == 0 and i["kind"] == "slice" and r["body"] and len(r["header"]):
            r["header"][0] += "0"
        elif k == 1 and i["kind"] == "slice" and r["body"]:
            r["body"] = False
        elif k == 2 and i["kind"] == "slice" and r["exit"] == 0:
            r["files"].append("debug.txt")
        elif k == 3 and i["kind"] == "fail":
            r["exit"] = 0
        elif k == 4 and i["kind"] == "cut" and len(r["up"]):
            r["up"], r["down"] = r["down"], r["up"]
        elif k == 5 and i["kind"] == "color" and len(r["colors"]):
            r["colors"] = r["colors"][:-1]
        elif k == 6 and i["kind"] == "simplify" and r["lib"] and r["counts"][0] == r["counts"][1]:
            r["counts"][2] += 2
        elif k == 7 and i["kind"] == "analyze" and len(r["got"]):
            r["got"] = r["got"][:-1]
        else:
            continue
        out.append(r)
    return out


def run(ctx):
    bin = build(ctx)
    runs = [(C % ("FALSE", '"none"'), ["Sound"], {})]
    for k in range(1 if ctx.quick else 8):
        runs.append((C % ("TRUE", '"none"'), [], dict(simulate=960 if ctx.quick else 3000, depth=3, seed=ctx.seed * 10 + k, workers=1)))
    muts = ("raw", "still", "early", "uncounted", "once", "blind", "headonly", "over")
    lines = generic.models(ctx, "Cli", runs, (C % ("FALSE", ",".join('"%s"' % m for m in muts)), muts))
    generic.conform(ctx, "cli", generic.cases_of(lines), "CliTrace", canaries, env={"VERIF_BIN": bin}, procs=8, text=900)

#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree.
exit 0: held on everything explored; 1: violated (VIOLATION line); anything else: error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

FAMILY = {
    "P30": "fam_analyze", "P31": "fam_elem", "P32": "fam_ways",
    "P27": "fam_cli", "P29": "fam_tilt", "P21": "fam_hang", "P28": "fam_endure", "P23": "fam_reduce", "P19": "fam_stl", "P17": "fam_byplanes", "P18": "fam_cut", "P20": "fam_overhang", "P25": "fam_planes", "P24": "fam_motion", "P22": "fam_simplify",
    "P26": "fam_contour",
    "P07": "fam_fill", "P08": "fam_fill",
    "P09": "fam_wall", "P10": "fam_wall",
    "P04": "fam_pipe",
    "P05": "fam_join", "P06": "fam_join",
    "P01": "fam_slice", "P02": "fam_slice", "P03": "fam_slice",
    "P11": "fam_gcode", "P12": "fam_gcode", "P13": "fam_gcode", "P14": "fam_gcode", "P15": "fam_gcode", "P16": "fam_gcode",
}


def main():
    prop = sys.argv[1]
    ctx = vlib.Ctx(prop)
    try:
        importlib.import_module(FAMILY[prop]).run(ctx)
        code = ctx.finish()
    except vlib.CheckError as e:
        print("ERROR of the check %s: %s" % (prop, e))
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.dir)
        else:
            ctx.cleanup()
    sys.stdout.flush()
    os._exit(code)


main()

#!/bin/bash
# Checks that the tools the checks use are there and that the harness builds (the checks rebuild it themselves).
cd "$(dirname "$0")" || exit 2
python3 - <<'P'
import sys; sys.path.insert(0, "tools")
import vlib
c = vlib.Ctx("setup")
try:
    c.build()
finally:
    c.cleanup()
print("harness builds")
P
[ $? -eq 0 ] || exit 2
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
echo ok

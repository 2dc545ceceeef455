#!/bin/bash
# Warms the build cache; each check builds what it needs itself.
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
v=$(cd "$(dirname "$0")/.." && pwd)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" "$v"/java/*.java
python3 - "$v" > "$d/ov.json" <<'P'
import json, os, sys
drv = os.path.join(sys.argv[1], "driver")
print(json.dumps({"Replace": {"/repo/x/verifdrv/" + f: os.path.join(drv, f) for f in os.listdir(drv) if f.endswith(".go")}}))
P
. /opt/vp/env.sh
go test -vet=off -overlay "$d/ov.json" -c -o "$d/drv.test" ./x/verifdrv
echo ready

#!/bin/bash
# mkseed.sh ID PROPERTY 'needs' 'what it breaks' : takes the uncommitted change of /repo as the patch (and undoes it), demo.cpp from stdin
D=/verif/seeded/$1; mkdir -p "$D"; git -C /repo diff > "$D/patch.diff"; git -C /repo checkout -- .
[ -s "$D/patch.diff" ] || { echo "no change in /repo"; exit 1; }
cat > "$D/demo.cpp"; cp /verif/tools/demo.sh "$D/demo.sh"; cp /verif/tools/demo_util.hpp "$D/"
python3 - "$@" > "$D/meta.json" <<'PY'
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
PY

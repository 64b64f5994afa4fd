#!/bin/sh
# prof.sh PROP SUBSTR [max_paths]
cd /verif
m=$(echo $1 | tr A-Z a-z)
python3-vt -c "import json,importlib;print(json.dumps(importlib.import_module('props.$m').jobs('${TIER:-quick}')))" | timeout 150 python3-vt tools/prof.py "$@"

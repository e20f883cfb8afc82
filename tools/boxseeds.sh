#!/bin/bash
# boxseeds.sh ID...: each planted bug's own check, in a box.
for s in "$@"; do /verif/tools/box.sh /verif/seeded/$s/patch.diff $(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])"); done

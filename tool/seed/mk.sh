#!/bin/bash
# mk.sh ID PROPERTY MOD "needs" "what" : package the diff of the scratch worktree /tmp/wt and /tmp/demo.rs as a planted bug, after confirming it
set -e
ID=$1 PROP=$2 MOD=$3 NEEDS=$4 WHAT=$5
D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
cp /tmp/demo.rs $D/demo.rs
sed "s#@MOD@#$MOD#" /verif/tool/seed/demo.sh.in > $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
echo "--- clean"; (cd /repo && bash $D/demo.sh) && echo CLEAN-OK || { echo CLEAN-FAILS; exit 1; }
echo "--- patched"; if (cd /tmp/wt && bash $D/demo.sh); then echo PATCHED-PASSES; exit 1; else echo PATCHED-FAILS-OK; fi

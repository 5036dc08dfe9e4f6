#!/bin/bash
# try.sh DIR : run all rules against another copy of the repository (development aid)
cd "$(dirname "$0")/.."
export REPO=$1 VERIF_BUILD=${VB:-/tmp/vb}
mkdir -p $VERIF_BUILD; [ -d $VERIF_BUILD/target ] || cp -a build/target build/factdump $VERIF_BUILD/
bash tool/extract.sh $VERIF_BUILD/f.json 2>&1 | tail -5 && PYTHONHASHSEED=0 python3 sa/all.py $VERIF_BUILD/f.json

#!/bin/bash
# rundemo.sh DIR MOD : run /tmp/demo.rs as a test module of MOD on the tree in DIR
D=$(mktemp -d /tmp/rd.XXXX); cp /tmp/demo.rs $D/; sed "s#@MOD@#$2#" /verif/tool/seed/demo.sh.in > $D/demo.sh
(cd $1 && bash $D/demo.sh); rc=$?; rm -rf "$D"; echo rc=$rc

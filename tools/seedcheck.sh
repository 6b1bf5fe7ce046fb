#!/bin/bash
# seedcheck.sh ID [CHECK...] : confirm a planted bug in a scratch copy (builds, stable tests pass unless FAST=1, demo passes clean / fails patched), then run checks on the patched copy.
id=$1; shift
D=/tmp/seedrepo
rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
S=/tmp/seedfiles; rm -rf /tmp/seedfiles; mkdir /tmp/seedfiles; cp -a /verif/seeded/$id/. $S; rm -f $S/*.diff $S/meta.json
cd $D
mk() { make -j8 build OPT="-O2 -MP" >/tmp/seedbuild.log 2>&1 || { tail -20 /tmp/seedbuild.log; exit 1; }; }
mk
bash $S/demo.sh >/tmp/demo.clean 2>&1; echo "clean demo: $?"; 
git apply /verif/seeded/$id/patch.diff || exit 1
mk
bash $S/demo.sh >/tmp/demo.bug 2>&1; echo "patched demo: $?"; tail -3 /tmp/demo.bug
if [ -z "$FAST" ]; then bash /verif/tools/testcopy.sh; fi
for c in "$@"; do ISTATD_REPO=$D python3 /verif/analyzer/check.py $c | grep -v "rule:" | tail -6; done

#!/bin/bash
# tryseed.sh ID CHECKS...: runs checks against a scratch copy of the repository with one planted bug
I=$1; shift; W=/tmp/w/trepo
rm -rf /tmp/w/trepo; git clone -q /repo $W && git -C $W apply /verif/seeded/$I/patch.diff || exit 9
for c in "$@"; do SA_REPO=$W SA_EVID=/tmp/w/tev timeout 900 /verif/check $c 2>&1 | head -${L:-4}; done
rm -rf /tmp/w/trepo

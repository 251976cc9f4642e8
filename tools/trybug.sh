#!/bin/bash
# trybug.sh PROP...: run checks against /tmp/wt (scratch copy with a planted bug)
cd /verif; export DRJIT_REPO=/tmp/wt DRSIM_BUILD=/tmp/bwt VERIF_SEED=${VERIF_SEED:-1}
for p in "$@"; do s=$(date +%s); ./check $p > /tmp/try.$p 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(grep -a VIOLATION /tmp/try.$p | head -1) $(grep -a -m1 -i 'message\|violation:' /tmp/try.$p | cut -c1-200)"; done

#!/bin/bash
# tools/soak.sh FROM TO [checks...]: every check with every seed; prints what is not a quiet pass
cd "$(dirname "$(readlink -f "$0")")/.." || exit 3
from=$1; to=$2; shift 2
checks=${*:-$(seq -f 'C%02g' 1 33)}
for s in $(seq "$from" "$to"); do
  for p in $checks; do
    VERIF_SEED=$s ./check "$p" >/tmp/soak.$$ 2>&1 || { echo "=== seed $s $p exit $?"; tail -c 3000 /tmp/soak.$$; }
    grep "^note:" /tmp/soak.$$ && echo "   seed $s $p"
  done
  echo "seed $s done"
done
rm -f /tmp/soak.$$

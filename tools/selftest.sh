#!/bin/bash
# selftest.sh [PROP...]: the digest of every run must not depend on the number
# of workers, the hash seed or the occasion.
cd "$(dirname "$0")/.." || exit 1
T=$(mktemp -d /tmp/self.XXXXXX)
for p in ${@:-$(python3 -c "import json; print(*json.load(open('sim/budget.json'))['properties'])")}; do
  PYTHONHASHSEED=0 ./check $p --digests $T/a --chunks 4 --workers 1 >/dev/null 2>&1
  PYTHONHASHSEED=7 ./check $p --digests $T/b --chunks 4 --workers 4 >/dev/null 2>&1
  if [ -s $T/a ] && cmp -s $T/a $T/b; then echo "$p: $(wc -l < $T/a) digests agree"; else echo "$p: DIFFERENT"; diff $T/a $T/b | head -5; fi
done
rm -f $T/a $T/b; rmdir $T

#!/bin/bash
# sensitivity.sh [PROP...]: revert each repair listed in known_findings.txt in
# a scratch copy of /repo and see that the check of its property reports it.
cd "$(dirname "$0")/.." || exit 1
B=$(mktemp -d /tmp/sens.XXXXXX)
grep '^fixed:' known_findings.txt | while read -r _ p c rest; do
  p=${p#property=}
  [ $# -gt 0 ] && [[ " $* " != *" $p "* ]] && continue
  d=$B/$c
  cp -a /repo "$d"
  if ! git -C "$d" -c user.name=x -c user.email=x@x revert --no-edit "$c" >/dev/null 2>&1; then
    git -C "$d" revert --abort
    echo "$c $p: does not revert cleanly"
  else
    r=$(SIM_REPO=$d VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check "$p" 2>&1 </dev/null | grep -c '^VIOLATION')
    [ "$r" -gt 0 ] && echo "$c $p: detected" || echo "$c $p: NOT DETECTED"
  fi
  rm -rf "$d"
done
rmdir "$B"

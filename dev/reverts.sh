#!/bin/bash
# revert each fix commit alone in a scratch copy and run the check of its property
one() {
  id=$1; c=$2; d=/tmp/rev-$id-$c
  rm -rf "$d"; git clone -q /repo "$d" || exit
  cd "$d"; if git -c user.name=x -c user.email=x@x revert -n $c >/dev/null 2>&1; then
    VERIF_REPO=$d VERIF_EVIDENCE=$d/ev timeout 700 python3 /verif/check.py $id > $d.out 2>&1; echo "$id $c rc=$? $(grep -c VIOLATION $d.out)"
  else echo "$id $c conflict"; fi
  rm -rf "$d" $d.out
}
export -f one
grep ^fixed: /verif/known-findings.txt | sed 's/fixed: property=\(C..\) \([0-9a-f]*\).*/\1 \2/' | xargs -P 4 -L 1 bash -c 'one $0 $1'

#!/bin/bash
# tools/tryrefactor.sh SCRATCH [transform...]: every check on every rewritten copy of /repo
V=$(cd "$(dirname "$0")/.." && pwd)
S=$1; shift
T=${*:-$(python3 -W ignore $V/tools/refactor.py --list)}
P=${PROPS:-$(seq -w 1 33)}
for t in $T; do
  d=$S/$t; mkdir -p $d
  if [ ! -d $d/repo ]; then cp -a /repo $d/repo; python3 -W ignore $V/tools/refactor.py $d/repo $t 2>/dev/null; fi
  for k in $P; do
    VF_REPO=$d/repo timeout 900 $V/bin/check C$k $OPT > $d/C$k.out 2>&1
    rc=$?
    echo "$t C$k rc=$rc $(grep -c UNDECIDED $d/C$k.out) undecided; $(grep -E '^(VIOLATION|  violated)' $d/C$k.out | head -2 | tr '\n' ' ')"
  done
done

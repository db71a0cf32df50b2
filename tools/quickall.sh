#!/bin/bash
# quickall.sh [ID...]: every quick check against /repo, one line each (development aid).
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls checks | sed s/.json//)
for i in $ids; do
 s=$(date +%s); bin/gosym -verif /verif -repo /repo -check $i -tier quick -v > /tmp/qa.$i 2>&1; rc=$?
 echo "$i rc=$rc $(( $(date +%s)-s ))s $(grep -c 'VACUITY' /tmp/qa.$i) vac; $(grep -E 'paths=' /tmp/qa.$i | grep -Eo '(unexplored|unsupported|unknown|steplimit)=[1-9][0-9]*' | tr '\n' ' ') $(grep -m2 counterexample /tmp/qa.$i)"
done

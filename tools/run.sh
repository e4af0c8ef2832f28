#!/bin/bash
# run.sh <property> <regex> [flags]: explores matching harnesses and summarises what they found, one example per message.
p=$1; r=$2; shift 2
f=/tmp/run_$(echo "$r" | tr -c 'A-Za-z0-9_\n' _).txt
/verif/bin/symgo check -property $p -only "$r" -k -maxcand 60 "$@" > $f 2>&1
grep -v "^VIOLATION\|^    printed\|progress" $f | cut -c1-${W:-300} | head -${N:-40}

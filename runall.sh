#!/bin/bash
# runall.sh PATTERN TIME
for e in $(/verif/engine/target/release/rsx /verif/work/dev.ll --list | grep -E "$1" | sort); do
  s=$(date +%s.%N); ./dev.sh run $e --time ${2:-60} >/tmp/o.txt 2>&1; t=$(date +%s.%N)
  echo $e $(echo "$t - $s" | bc | cut -c1-5)s $(grep -E 'STAT.(paths|instrs)|COVER' work/dev.out | cut -f2- | tr '\n\t' ' :') max $(grep max_vars work/dev.out | cut -f3); grep -E 'VIOL|INCOMP' work/dev.out | cut -c1-${3:-400}|head -5
done

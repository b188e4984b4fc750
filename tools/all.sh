#!/bin/bash
# all.sh [ID...]: run the quick checks one after another, print those that are not quiet
ids="$@"; [ -z "$ids" ] && ids=$(seq -f 'C%02g' 1 99)
for i in $ids; do
  grep -q "\"id\": *\"$i\"" /verif/properties.jsonl || continue
  s=$(date +%s); out=$(cd /verif && timeout 900 /opt/venv/bin/python check.py $i 2>&1); rc=$?
  [ $rc -ne 0 ] && { echo "$i rc $rc"; echo "$out" | tail -5 | cut -c1-400; }
  d=$(( $(date +%s) - s )); [ $d -gt 120 ] && echo "$i took $d s"
done; echo done

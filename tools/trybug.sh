#!/bin/bash
# usage: trybug.sh ID...   like runbug.sh, in a scratch copy of /repo and of the simulator, leaving both alone
T=/tmp/trybug
mkdir -p $T/root
if [ ! -d $T/repo ]; then git clone -q /repo $T/repo; else git -C $T/repo checkout -q -- . ; git -C $T/repo pull -q; fi
mkdir -p $T/root/sim; (cd /verif/sim && tar --exclude=./target -cf - .) | tar -xf - -C $T/root/sim
cp /verif/known_findings.json /verif/properties.jsonl /verif/check.sh $T/root/
grep -rl '"/repo/' $T/root/sim --include=Cargo.toml --include=Cargo.lock --exclude-dir=target | xargs sed -i "s#\"/repo/#\"$T/repo/#"
for b in "$@"; do
  d=/verif/seeded/$b
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
  git -C $T/repo apply $d/patch.diff || { echo "$b does not apply"; continue; }
  s=$(date +%s)
  o=$(VSIM_ROOT=$T/root $T/root/check.sh $p quick 2>&1); rc=$?
  git -C $T/repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E '^(VIOLATION|  )' | head -2 | tr '\n' ' ' | cut -c1-260)"
  [ $rc -gt 1 ] && echo "$o" | tail -5
done

#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo: applies, builds,
# passes the stable tests, demo 0 without and nonzero with the patch.
# CHECK=1 also runs the property's check on /repo with the patch applied.
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never TERM=dumb
S=/tmp/seedcopy
[ -d $S ] || cp -a /repo $S
cd $S && git fetch -q /repo main 2>/dev/null; git checkout -q -- . ; git reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null || { rm -rf /tmp/seedcopy; cp -a /repo $S; cd $S; }
for id in "$@"; do
  d=/verif/seeded/$id
  cd $S
  bash $d/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.test 2>&1
  grep -v '^test tests/ui/' /tmp/seed.test > /tmp/seed.cases
  python3 - <<'P' >/tmp/seed.miss
import json,re
b=json.load(open('/opt/vp/BASELINE.json'))
def names(o):
    if isinstance(o,str): yield o
    elif isinstance(o,list):
        for x in o: yield from names(x)
    elif isinstance(o,dict):
        for k,v in o.items(): yield from names(v); yield k
P
  fails=$(grep -E '^test .* (FAILED|failed)$' /tmp/seed.cases | grep -v '^test tests/ui' | head -5)
  nok=$(grep -cE '^test .* ok$' /tmp/seed.cases)
  bash $d/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
  git checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  v=-
  if [ -n "$CHECK" ]; then
    git -C /repo apply $d/patch.diff && { python3 /verif/check.py $p > /tmp/seed.chk 2>&1; v=$?; git -C /repo checkout -q -- .; }
  fi
  echo "$id property=$p demo clean=$d0 patched=$d1 tests ok=$nok fails=[$fails] check=$v $([ -n "$CHECK" ] && grep -m1 -B1 VIOLATION /tmp/seed.chk | head -1 | cut -c1-160)"
done

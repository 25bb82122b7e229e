#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch.
for id in "$@"; do
  s=/verif/seeded/$id
  rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
  d=/tmp/seeddemo; rm -rf $d; mkdir $d; cp $s/* $d/; rm -f $d/*.diff $d/meta.json
  cd /tmp/seedrepo || exit 2
  bash $d/demo.sh > /tmp/seed.log 2>&1; a=$?
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh > /tmp/seed2.log 2>&1; b=$?
  export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
  timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed3.log 2>&1
  python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed3.log >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable'):
            if k in x and isinstance(x[k],list): return set(x[k])
        if 'results' in x: return {k for k,v in x['results'].items() if v in ('passed','pass')}
        if 'tests' in x: return {k for k,v in x['tests'].items() if v in ('passed','pass')}
    return set(x)
B,R=passed(b),passed(r)
print("tests ok (%d)"%len(B&R) if B and B<=R else "TESTS FAIL %s"%sorted(B-R)[:5])
P
)
  echo "$id: demo clean=$a patched=$b; $t; $(tail -1 /tmp/seed2.log | cut -c1-150)"
  [ $a != 0 ] && tail -5 /tmp/seed.log
done
rm -rf /tmp/seedrepo /tmp/seeddemo

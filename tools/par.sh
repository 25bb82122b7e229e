#!/bin/bash
# par.sh N FILE [NAMES...]: runs the mutants of FILE on N private copies of /verif and /repo under /tmp/par, in parallel.
N=$1; F=$(realpath $2); shift 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is changed" >&2; exit 2; }
mkdir -p /tmp/par
for i in $(seq 0 $((N-1))); do
  W=/tmp/par/w$i
  mkdir -p $W
  rsync -a --delete --exclude=target --exclude=.git /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; mkdir $W/repo; (cd /repo; tar c --exclude=./target --exclude=./.git .) | tar x -C $W/repo; }
  (cd $W/repo; rm -rf .git; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x)
  mkdir -p $W/verif
  (cd /verif; tar c --exclude=./.git --exclude=./seeded --exclude=./build --exclude=./evidence .) | tar x -C $W/verif
  [ -d $W/verif/build ] || cp -a /verif/build $W/verif/build
  mkdir -p $W/verif/evidence
  grep -rIlE '/repo|/verif' $W/verif --exclude-dir=build | xargs -r sed -i -E "s#(^|[^a-z0-9])/(repo|verif)\\b#\\1$W/\\2#g"
done
python3 - $N $F "$@" <<'P'
import sys, subprocess, os
n = int(sys.argv[1]); f = sys.argv[2]; names = sys.argv[3:]
g = {}; exec(open(f).read(), g)
M = [m for m in g["M"] if not names or any(x in m[0] for x in names)]
ps = []
for i in range(n):
    part = M[i::n]
    if not part: continue
    p = "/tmp/par/w%d/m.py" % i
    open(p, "w").write("M = %r\n" % (part,))
    ps.append(subprocess.Popen(["python3", "/tmp/par/w%d/verif/tools/mutate.py" % i, p], cwd="/tmp/par/w%d/verif" % i))
for p in ps: p.wait()
P

#!/bin/bash
# seedtest.sh [-n] ID...: tries planted bugs in a private view of /repo and /verif (mount namespace):
# applies, builds, runs the stable tests, the demo (with and without) and the property's check.
# -n: only the check. Needs /tmp/wt/repo (cp -a /repo) once.
if [ -z "$IN_NS" ]; then
  W=${WT:-/tmp/wt}; R=${R:-/repo}; V=${V:-/verif}
  mkdir -p $W/verif
  [ -d $W/repo ] || cp -a $R $W/repo
  git -C $W/repo fetch -q $R HEAD && git -C $W/repo checkout -q -- . && git -C $W/repo reset -q --hard FETCH_HEAD
  rm -rf $W/verif/harness $W/verif/tools $W/verif/seeded $W/verif/regress
  for f in $V/*.sh $V/harness $V/tools $V/regress $V/seeded $V/known-findings.txt; do [ -e $f ] && cp -a $f $W/verif/; done
  rm -rf $W/verif/drivers; cp -a $V/drivers $W/verif/
  exec env IN_NS=1 W=$W unshare -Urm bash -c 'mount --bind $W/repo /repo && mount --bind $W/verif /verif && exec bash /verif/tools/seedtest.sh "$@"' x "$@"
fi
. /opt/vp/env.sh
only=; [ "$1" = -n ] && { only=1; shift; }
cd /repo
base() { git checkout -q -- . ; }
tests() {
  bash /opt/vp/build.sh > $W/b.log 2>&1 || { tail -20 $W/b.log; echo "  DOES NOT BUILD"; return 1; }
  bash /opt/vp/test.sh $W/o.json > $W/t.log 2>&1
  python3 - $W/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]; print("  stable tests missing:",len(m),m[:6])
P
}
for id in "$@"; do
  d=/verif/seeded/$id
  echo "== $id"
  base
  git apply $d/patch.diff || { echo "  DOES NOT APPLY"; continue; }
  if [ -z "$only" ]; then
    tests
    bash /opt/vp/build.sh > $W/b.log 2>&1
    bash $d/demo.sh > $W/d.log 2>&1; echo "  demo with patch: $? (want nonzero)"; tail -2 $W/d.log
  fi
  for p in $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])") $EXTRA; do
    VERIF_SEED=1 /verif/check.sh $p quick > $W/c.log 2>&1; echo "  check $p: $?"; grep -E '^VIOL|cases' $W/c.log | head -3; grep -A1 -E '^VIOL' $W/c.log | head -2 | cut -c1-300
  done
  if [ -z "$only" ]; then
    base
    bash /opt/vp/build.sh > $W/b.log 2>&1
    bash $d/demo.sh > $W/d.log 2>&1; echo "  demo without: $? (want 0)"
  fi
done
base

#!/bin/bash
# plant.sh SLOT ID...: verify planted bugs in a private copy of /repo and /verif, bind-mounted
# over the real paths in a mount namespace of its own. Prints one line per bug.
slot=/tmp/slot$1; shift
mkdir -p $slot/repo $slot/verif $slot/overlay
sync_dir() { # src dst
    [ -d "$2/.git" ] || cp -a "$1/." "$2/"
    rsync -rlpc --delete --exclude=target --exclude=/.git --exclude=/evidence --exclude=/out "$1/" "$2/"
}
git -C $slot/repo checkout -q -- . 2>/dev/null
sync_dir /repo $slot/repo
rm -rf "$slot/repo/.git"; cp -a /repo/.git $slot/repo/.git
sync_dir /verif $slot/verif
[ -d $slot/overlay/src ] || cp -a /opt/vp/overlay/. $slot/overlay/
export SLOT=$slot
unshare -m bash -s "$@" <<'IN'
mount --bind $SLOT/repo /repo; mount --bind $SLOT/verif /verif; mount --bind $SLOT/overlay /opt/vp/overlay
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  L=$SLOT/$id; mkdir -p $L
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $prop:"
  t=$(mktemp -d); cp $d/* $t/; rm -f $t/*.diff $t/meta.json
  if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh >$L/build0 2>&1 || r="$r BASEBUILD-FAIL"
  timeout 300 bash $t/demo.sh >$L/demo0 2>&1; [ $? = 0 ] || r="$r DEMO-FAILS-CLEAN"
  fi
  if git apply --check $d/patch.diff 2>$L/apply; then git apply $d/patch.diff; else echo "$r PATCH-FAIL"; continue; fi
  if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh >$L/build1 2>&1 || r="$r BUILD-FAIL"
  timeout 300 bash $t/demo.sh >$L/demo1 2>&1; rc=$?; [ $rc != 0 ] && r="$r demo($rc)ok" || r="$r DEMO-PASSES-WITH-BUG"
  grep -q "error" $L/demo1 && [ $rc = 3 ] && r="$r DEMO-BUILD?"
  ts=$(bash /opt/vp/test.sh $L/t.json 2>&1 | tail -1); case "$ts" in "1512 passed"*) r="$r tests-ok";; *) r="$r TESTS[$ts]";; esac
  fi
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $prop >$L/check 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" $L/check; then r="$r CAUGHT"; else r="$r MISSED(rc=$rc)"; fi
  cd /repo; git checkout -q -- .
  rm -rf "$t"
  echo "$r"
done
IN

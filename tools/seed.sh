#!/bin/bash
# tools/seed.sh ID [check..]: confirm a planted bug in a scratch copy: builds, passes the stable tests, demo 0 on clean / nonzero on patched;
# then run the given checks against the patched copy.  Development helper, not used by any check.
set -u
ID=$1; shift; D=/verif/seeded/$ID; S=/tmp/seedwork; mkdir -p $S
if [ ! -d $S/clean ]; then rsync -a --exclude=_build /repo/ $S/clean/; fi
git -C $S/clean fetch -q ${SEEDSRC:-/repo} HEAD && git -C $S/clean checkout -qf FETCH_HEAD
rsync -a --delete --exclude=_build $S/clean/ $S/bug/
git -C $S/bug apply $D/patch.diff || { echo "APPLY FAILED"; exit 1; }
W() { python3 - "$1" "$2" <<'Y'
import sys,os
os.environ["VERIF_REPO"]=sys.argv[1]; os.environ["VERIF_WORK"]=sys.argv[2]
sys.path.insert(0,'/verif/lib')
import vlib
for v in ('fo','ho'):
    try: d=vlib.build(v)
    except vlib.CheckError as e: print("BUILD FAILED",str(e)[-800:]); sys.exit(1)
    os.makedirs(sys.argv[1]+"/_build",exist_ok=True)
    l=sys.argv[1]+"/_build/"+v
    if os.path.islink(l): os.unlink(l)
    os.symlink(d,l)
Y
}
W $S/clean $S/wclean >/dev/null 2>$S/log || { tail -5 $S/log; exit 1; }
W $S/bug $S/wbug >$S/log 2>&1 || { tail -5 $S/log; exit 1; }
if [ -z "${SKIPTEST:-}" ]; then sed "s#/repo#$S/bug#g" /opt/vp/benchrun.py > $S/benchrun.py; python3 $S/benchrun.py > $S/results.txt 2>/dev/null; python3 /opt/vp/results.py $S/out.json lines:$S/results.txt >$S/tlog 2>&1; python3 - <<'Y'
import json
o=json.load(open('/tmp/seedwork/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print("stable tests lost:",sorted(set(b['stable'])-set(o['passed'])))
Y
fi
(cd $S/clean; timeout 300 bash $D/demo.sh >/tmp/seedwork/d0 2>&1; echo "demo clean rc=$?")
(cd $S/bug; timeout 300 bash $D/demo.sh >/tmp/seedwork/d1 2>&1; echo "demo bug rc=$?"; tail -3 /tmp/seedwork/d1)
for c in "$@"; do (cd /verif; VERIF_REPO=$S/bug VERIF_WORK=$S/wbug timeout 900 python3 checks/${c,,}.py 2>$S/clog | grep -v "^   " | head -4 | cut -c1-200; echo "check $c rc=${PIPESTATUS[0]}"); done

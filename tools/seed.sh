#!/bin/bash
# seed.sh ID [check args]: confirms the planted bug /verif/seeded/ID in a scratch copy of /repo, then runs the property's quick check against it.
# Works in a private mount namespace: /tmp/seedrepo takes the place of /repo, /tmp/seedwork that of /verif/.work.
set -u
ID=$1; shift
D=/verif/seeded/$ID
PID=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/seedrepo /tmp/seedwork /tmp/seeddemo/$ID
[ -f /tmp/seedrepo/.prepared ] || { rsync -a --delete /repo/ /tmp/seedrepo/ && touch /tmp/seedrepo/.prepared; }
[ -d /tmp/seedwork/release ] || rsync -a --delete /verif/.work/ /tmp/seedwork/
# refresh the sources that differ from /repo, with new mtimes
rsync -rlpgoc --delete --exclude=/build --exclude=/install --exclude=/.prepared /repo/ /tmp/seedrepo/
rsync -a --delete --exclude='*.diff' --exclude=meta.json $D/ /tmp/seeddemo/$ID/
export ID PID D
unshare -m bash -c '
mount --bind /tmp/seedrepo /repo; mount --bind /tmp/seedwork /verif/.work
cd /repo
bash /opt/vp/build.sh >/tmp/seed.$ID.build0 2>&1 || { echo "BUILD0 FAILED"; exit 3; }
if [ -z "${SKIPDEMO:-}" ]; then
timeout 300 bash /tmp/seeddemo/$ID/demo.sh >/tmp/seed.$ID.demo0 2>&1; echo "demo without patch: $?"
fi
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 3; }
bash /opt/vp/build.sh >/tmp/seed.$ID.build1 2>&1 || { echo "BUILD1 FAILED"; tail -30 /tmp/seed.$ID.build1; git apply -R $D/patch.diff; exit 3; }
if [ -z "${SKIPDEMO:-}" ]; then
timeout 300 bash /tmp/seeddemo/$ID/demo.sh >/tmp/seed.$ID.demo1 2>&1; echo "demo with patch: $?"; tail -3 /tmp/seed.$ID.demo1
fi
if [ -z "${SKIPTEST:-}" ]; then
bash /opt/vp/test.sh /tmp/seed.$ID.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"/tmp/seed.$ID.json\"))
print(\"stable tests broken:\",sorted(set(b[\"stable\"])-set(o[\"passed\"])))"
fi
if [ -z "${SKIPCHECK:-}" ]; then
cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh $PID quick '"$*"' >/tmp/seed.$ID.check 2>&1; echo "check exit: $?"; grep -a VIOLATION /tmp/seed.$ID.check | head -5
fi
cd /repo; git apply -R $D/patch.diff
touch $(git apply --numstat $D/patch.diff | cut -f3)
'

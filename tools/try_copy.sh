#!/bin/bash
# try_copy.sh REPO_COPY [ID...] : run quick checks of (a copy of) /verif against a copy of
# /repo, in a mount namespace, and report what is not quiet. Used for behaviour-preserving edits.
R=$1; shift
rm -rf /tmp/tc; mkdir -p /tmp/tc
rsync -a --exclude seeded --exclude .git /verif/ /tmp/tc/verif/
IDS=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])" 2>/dev/null || seq -f 'C%02g' 1 35)}
export R IDS
unshare -Urm bash -c '
mount --bind $R /repo && mount --bind /tmp/tc/verif /verif && cd /verif || exit 9
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for id in $IDS; do
  s=$(date +%s); ./check.sh $id quick > /tmp/tc/$id.log 2>&1; rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep -a -m1 VIOLATION /tmp/tc/$id.log)"
done'
rm -rf /tmp/tc/verif

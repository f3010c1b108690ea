#!/bin/bash
# try_edit.sh FILE SED-EXPRESSION ID...: the quick checks of the given properties on a copy of /repo with one edit
D=${D:-/tmp/try}; f=$1; e=$2; shift 2
cd "$(dirname "$0")/.." || exit 2
mkdir -p $D/repo $D/verif
rsync -a --delete /repo/ $D/repo/; rsync -a --delete --exclude harness/target --exclude seeded /verif/ $D/verif/
sed -i -E "$e" $D/repo/$f; git -C $D/repo diff --stat | tail -1
for id in $@; do
unshare -Urm bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && ./check.sh $id quick 2>&1 | tail -2 | cut -c1-300"
done

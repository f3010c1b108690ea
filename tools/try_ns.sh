#!/bin/bash
# like try_seeds.sh, but on copies of /repo and /verif in a mount namespace, so that neither is touched
cd "$(dirname "$0")/.." || exit 2
D=${D:-/tmp/try}
mkdir -p $D/repo $D/verif
rsync -a --delete /repo/ $D/repo/; rsync -a --delete --exclude harness/target /verif/ $D/verif/
exec unshare -Urm bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && git config --global --get-all safe.directory >/dev/null; tools/try_seeds.sh $*"

#!/bin/bash
# trial.sh PATCH|none PROP...: the checks against /repo with a patch, in a mount namespace of its own
# (/repo and /verif themselves are not touched).  T=directory for the copies, SECS, SD=seed.
T=${T:-/tmp/trial}
mkdir -p "$T/repo" "$T/verif"
rsync -a --delete --exclude .git --exclude target /repo/ "$T/repo/"
rsync -a --exclude .git --exclude seeded --exclude /out /verif/ "$T/verif/"
mkdir -p "$T/verif/out"
[ "$1" = none ] || (cd "$T/repo" && git apply --unsafe-paths -p1 "$1") || exit 2
find "$T/repo/src" -name "*.rs" -exec touch {} +
shift
export T NSIM_SECS=${SECS:-70} VERIF_SEED=${SD:-1}
nice -n ${NI:-19} unshare -Urm bash -c '
mount --bind $T/repo /repo; mount --bind $T/verif /verif; cd /verif
for p in "$@"; do
  timeout 900 bash check.sh $p > $T/out.$p 2>&1; rc=$?
  echo "$p rc=$rc $(grep -E "^VIOLATION|harness" $T/out.$p | head -1) $(grep -v KNOWN $T/out.$p | tail -1 | cut -c1-260)"
done' trial "$@"

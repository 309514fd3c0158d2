#!/bin/bash
# check.sh PROPERTY: builds the simulator against /repo's working tree and runs one check.
# VERIF_SEED and VERIF_TIER (quick|thorough) as in the task; NSIM_SECS, NSIM_WORKERS override.
cd "$(dirname "$0")" || exit 2
here="$PWD"
mkdir -p target out evidence
# the call stack: debug frames, and those of the optimised build beside it
prof=fast; build=fast
[ "$1" = C12 ] && prof=debug && build="debug fast"
# where the text lies: the build without optimisation beside the optimised one
[ "$1" = C05 ] && build="debug fast"
if ! flock target/.build.lock bash ./build.sh $build >out/build.log 2>&1; then
  tail -40 out/build.log >&2
  echo "harness: the simulator does not build against /repo" >&2
  exit 2
fi
export NSIM_HOME="$here"
exec "$here/target/$prof/nsim" check "$1"

#!/bin/sh
# Decide one property: check.sh ID [--thorough]. Rebuilds the checker, which reads /repo's sources.
cd "$(dirname "$0")" || exit 2
(flock 9; cd mc && cargo build --release --offline >build.log 2>&1) 9>/tmp/.mc-build.lock || { echo "checker does not build"; tail -20 mc/build.log; exit 2; }
exec mc/target/release/mc check "$@" --out evidence

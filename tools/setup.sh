#!/bin/bash
# Prebuild every monitor so that checks only rebuild what changed.
cd /verif || exit 1
. /verif/tools/env.sh
mkdir -p /verif/.work /verif/evidence/replay
python3 /verif/tools/vendor.py /verif/.work/vendor || exit 1
python3 /verif/tools/bins.py --all | while read -r BIN FEATURES; do
  [ "$BIN" = macros ] && continue
  bash /verif/tools/cargo.sh build --manifest-path /verif/harness/sys/Cargo.toml --bin "$BIN" ${FEATURES:+--features "$FEATURES"} </dev/null || exit 1
done

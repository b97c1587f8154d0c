#!/bin/bash
# check.sh PROPERTY [TIER]   decide one property against /repo's working tree
# check.sh --replay FILE     re-run the recorded failing case
# exit 0 held, 1 violation, 2 no answer (build failure, nothing observed)
cd /verif || exit 2
. /verif/tools/env.sh
REPLAY=
if [ "$1" = --replay ]; then
  REPLAY=$2
  PROP=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$REPLAY") || exit 2
else
  PROP=$1
  [ -n "$2" ] && export VERIF_TIER=$2
fi
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} VERIF_ROOT=/verif
export RUST_BACKTRACE=0
read -r BIN FEATURES < <(python3 /verif/tools/bins.py "$PROP") || exit 2
mkdir -p /verif/.work /verif/evidence/replay
rm -f "/verif/evidence/$PROP.json" /verif/evidence/replay/"$PROP"-*.json.tmp
exec 9>/verif/.work/lock; flock 9
python3 /verif/tools/vendor.py /verif/.work/vendor >/verif/.work/vendor.log 2>&1 || { cat /verif/.work/vendor.log; echo "INCONCLUSIVE: vendoring failed"; exit 2; }
if [ "$BIN" = macros ]; then
  flock -u 9
  if [ -n "$REPLAY" ]; then exec python3 /verif/tools/macros_check.py --replay "$REPLAY"; fi
  exec python3 /verif/tools/macros_check.py "$PROP"
fi
if ! bash /verif/tools/cargo.sh build --manifest-path /verif/harness/sys/Cargo.toml --bin "$BIN" ${FEATURES:+--features "$FEATURES"} >/verif/.work/build-$BIN.log 2>&1; then
  tail -40 "/verif/.work/build-$BIN.log"; echo "INCONCLUSIVE: harness did not build"; exit 2
fi
flock -u 9
LIMIT=$([ "$VERIF_TIER" = thorough ] && echo 3000 || echo 600)
if [ -n "$REPLAY" ]; then
  timeout $LIMIT "$CARGO_TARGET_DIR/debug/$BIN" --replay "$REPLAY"; rc=$?
else
  timeout $LIMIT "$CARGO_TARGET_DIR/debug/$BIN" "$PROP"; rc=$?
fi
# the process died inside the code under test (stack overflow, abort, bad memory access)
case $rc in 132|134|135|136|139)
  python3 - "$PROP" $rc <<'P'
import json, os, sys
prop, rc = sys.argv[1:]
tier, seed = os.environ["VERIF_TIER"], int(os.environ["VERIF_SEED"])
open(f"/verif/evidence/replay/{prop}-died.json", "w").write(json.dumps(
    {"property": prop, "tier": tier, "seed": seed, "signature": "process-died", "detail": f"exit status {rc}"}))
open(f"/verif/evidence/{prop}.json", "w").write(json.dumps(
    {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
     "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped: the process died in the code under test",
                  "samples": [{"case": 0, "text": f"exit status {rc}"}]},
     "wall_s": 0, "violations": 1, "assumptions": []}))
P
  echo "VIOLATION property=$PROP replay=/verif/evidence/replay/$PROP-died.json"; exit 1 ;;
esac
case $rc in 0|1) exit $rc ;; *) echo "INCONCLUSIVE: monitor ended with $rc"; exit 2 ;; esac

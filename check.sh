#!/bin/bash
# usage: check.sh ID [quick|thorough]   (VERIF_SEED selects the workload)
# exit 0: held on everything observed; exit 1: VIOLATION line(s); anything else: error of the check.
id=${1:?usage: check.sh ID [quick|thorough]}
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
. ./env.sh

case $id in
    C06|C08|C09) bin=zoo ;;
    *) bin=vh ;;
esac

build "$bin" > "$VERIF_DIR/out/build-$bin.log" 2>&1
status=$?
if [ $status -ne 0 ]; then
    if [ $bin = zoo ] && build repo > "$VERIF_DIR/out/build-repo.log" 2>&1; then
        # The library builds, but code which uses its derive macros no longer does.
        mkdir -p "$VERIF_DIR/evidence"
        replay=$VERIF_DIR/out/build-$bin.log
        echo "VIOLATION property=$id replay=$replay"
        echo "the types of the zoo, which only use the documented derive macros, no longer compile:"
        grep -E -A6 '^error' "$replay" | head -40
        python3 - "$id" "$VERIF_TIER" "$VERIF_SEED" "$VERIF_DIR/evidence/$id.json" <<'P'
import json, sys
i, t, s, p = sys.argv[1:]
json.dump({"property": i, "tier": t, "seed": int(s), "level": "exploration",
  "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the zoo did not compile",
  "samples": ["compilation of the zoo"]}, "wall_s": 0.0, "violations": 1}, open(p, "w"))
P
        exit 1
    fi
    cat "$VERIF_DIR/out/build-$bin.log" >&2
    echo "cannot build $bin: error of the check" >&2
    exit 2
fi
case $id in
    C22|C23|C24)
        if ! build cli > "$VERIF_DIR/out/build-cli.log" 2>&1; then
            cat "$VERIF_DIR/out/build-cli.log" >&2
            echo "cannot build the command line tools: error of the check" >&2
            exit 2
        fi ;;
esac
exec "$CARGO_TARGET_DIR/debug/$bin" check "$id"

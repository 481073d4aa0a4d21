#!/bin/bash
# replay.sh ID: rebuild the harness from /repo's working tree and re-run the case named in work/replay/ID.json
V=$(cd "$(dirname "$0")/.." && pwd); R=$V/work/replay/$1.json
W=$(python3 -c "import json;print(json.load(open('$V/harness/props.json'))['$1'])")
A=$(python3 -c "import json;w=json.load(open('$R'))['witness'];print(w['seed'],w['case'],w['index'])") || { echo "no failing input recorded"; exit 2; }
set -- "$1" $A
cp /repo/Cargo.lock "$V/harness/$W/Cargo.lock"
(cd "$V/harness/$W" && CARGO_TARGET_DIR=$V/harness/target cargo +nightly-2023-12-06 build --offline --quiet) || exit 2
"$V/harness/target/debug/$W" "$1" quick "$2" /dev/null 60 "$3" "$4"

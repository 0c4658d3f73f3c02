#!/bin/bash
# The last part of the thorough check of C19: a few concurrent histories (and hostile decodings)
# under the Miri interpreter, which watches for undefined behaviour and data races, with several
# of its scheduling seeds. Exit as check.sh.
set -u
home=$(cd "$(dirname "$0")" && pwd)
seed=${VERIF_SEED:-1}
ev=${VERIF_EVIDENCE:-$home/evidence}
mkdir -p "$ev/replay"
log=$ev/replay/C19-miri-$seed.log
cd "$home/monitor" || exit 2
start=$(date +%s)
CARGO_TARGET_DIR=$home/target/miri MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..16" \
	timeout -k 10 1500 cargo +nightly miri run --offline -- miri "$seed" "${MIRI_CASES:-4}" >"$log" 2>&1
rc=$?
n=$(grep -c '^interpreted C19' "$log")
echo "C19: Miri: $n schedules in $(($(date +%s) - start)) s, exit $rc"
if grep -q -e 'Undefined Behavior' -e '^C[0-9]* case ' "$log"; then
	grep -m 5 -e 'Undefined Behavior' -e '^C[0-9]* case ' "$log"
	echo "VIOLATION property=C19 replay=$log"
	verdict=1
elif [ $rc -ne 0 ] || [ "$n" -lt 16 ]; then
	tail -n 20 "$log" >&2
	verdict=2
else
	verdict=0
fi
python3 - "$ev/C19.json" "$n" "$verdict" "$log" <<'PY'
import json, sys
path, n, verdict, log = sys.argv[1:]
e = json.load(open(path))
lines = [l.strip() for l in open(log, errors="replace") if l.startswith("interpreted")]
e["coverage"]["interpreter"] = {"tool": "Miri", "schedules": int(n), "observed": lines[:2]}
if verdict == "1":
    e["violations"] = e.get("violations", 0) + 1
json.dump(e, open(path, "w"), indent=2)
PY
exit $verdict

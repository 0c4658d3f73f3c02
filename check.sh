#!/bin/bash
# check.sh <property>      decides one property on the current tree of /repo
# check.sh replay <file>   runs the one case of a replay file again
# check.sh setup           builds what the quick checks need
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
# Exit: 0 held, 1 violated, 2 no verdict (something does not build, or the run was inconclusive).
set -u
home=$(cd "$(dirname "$0")" && pwd)
export MON_HOME=$home
export MON_FINDINGS=$home/known-findings.txt
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$home/evidence}
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
T=$home/target
tier=${VERIF_TIER:-quick}
target=x86_64-unknown-linux-gnu

build() { # what, directory, command...
	local what=$1 dir=$2 log
	shift 2
	log=$(mktemp)
	if ! (cd "$dir" && "$@") >"$log" 2>&1; then
		echo "the $what does not build:" >&2
		tail -n 40 "$log" >&2
		rm -f "$log"
		exit 2
	fi
	rm -f "$log"
}
monitor() { build "monitor" "$home/monitor" env CARGO_TARGET_DIR="$T" cargo build --release --offline; }
tool() {
	build "command line tool" "$home/cli-bin" env CARGO_TARGET_DIR="$T/cli" cargo build --release --offline
	export MON_CLI=$T/cli/release/ethabi
}
asan() {
	build "monitor with AddressSanitizer" "$home/monitor" env CARGO_TARGET_DIR="$T/asan" \
		RUSTFLAGS="-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer" \
		cargo +nightly build --release --offline --target $target
	export MON_SANITIZED_BUILDS="AddressSanitizer=$T/asan/$target/release/monitor=$1"
}
tsan() {
	build "monitor with ThreadSanitizer" "$home/monitor" env CARGO_TARGET_DIR="$T/tsan" \
		RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" \
		cargo +nightly build --release --offline -Zbuild-std --target $target
	export MON_SANITIZED_BUILDS="ThreadSanitizer=$T/tsan/$target/release/monitor=$1"
}
needs() { # property
	case $1 in
		C03) asan 0.15 ;;
		C17) tool ;;
		C19) tsan 0.12 ;;
	esac
}

case ${1:-} in
	setup)
		monitor
		tool
		asan 0.15
		tsan 0.12
		exit 0
		;;
	replay)
		id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1)
		monitor
		needs "$id"
		exec "$T/release/monitor" replay "$2"
		;;
	C[0-9][0-9])
		monitor
		needs "$1"
		"$T/release/monitor" check "$1"
		rc=$?
		if [ "$rc" = 0 ] && [ "$1" = C19 ] && [ "$tier" = thorough ]; then
			exec "$home/miri.sh"
		fi
		exit $rc
		;;
	*)
		sed -n '2,6s/^# //p' "$0" >&2
		exit 2
		;;
esac

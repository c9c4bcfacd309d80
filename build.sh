#!/bin/bash
# Builds the simulators against /repo's current working tree (offline), under /verif/target.
#   build.sh lib   the library simulator (instrumented)
#   build.sh cli   the command-line tool and its I/O simulator
set -u
V="$(cd "$(dirname "$0")" && pwd)"
what="${1:-lib}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_PROFILE_DEV_OPT_LEVEL
T="$V/target/$what"
mkdir -p "$T" || exit 2
exec 9>"$T/.lock"; flock 9
# cargo goes by modification times; the contents decide here
stamp="$( (cd /repo && find . \( -path ./target -o -path ./macros/target -o -path ./.git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.txt' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum "$V/sim/wrap.sh" "$V/build.sh"; rustc -vV) | sha256sum | cut -d' ' -f1)"
fail() { echo "build of $what failed:" >&2; tail -60 "$T/build.log" >&2; exit 2; }
if [ "$what" = lib ]; then
	export CARGO_TARGET_DIR="$T" RUSTC_WRAPPER="$V/sim/wrap.sh"
	cd "$V/sim" || exit 2
	if [ "$(cat "$T/.stamp" 2>/dev/null)" != "$stamp" ]; then
		rm -f "$T/.stamp"
		[ -d "$T/debug" ] && cargo clean --offline -p sneturfahi -p macros >/dev/null 2>&1
	fi
	cargo build --offline >"$T/build.log" 2>&1 || fail
	echo "$stamp" >"$T/.stamp"
else
	export CARGO_TARGET_DIR="$T/driver"
	cd "$V/cli" || exit 2
	cargo build --offline >"$T/build.log" 2>&1 || fail
	export CARGO_TARGET_DIR="$T" CARGO_PROFILE_DEV_OPT_LEVEL=1
	cd /repo || exit 2
	if [ "$(cat "$T/.stamp" 2>/dev/null)" != "$stamp" ]; then
		rm -f "$T/.stamp"
		[ -d "$T/debug" ] && cargo clean --offline -p sneturfahi -p macros >/dev/null 2>&1
	fi
	cargo build --offline --locked --example main >"$T/build.log" 2>&1 || fail
	gcc -O2 -Wall -Wextra -Werror -shared -fPIC -o "$T/shim.so" "$V/cli/shim.c" -ldl >"$T/shim.log" 2>&1 || { cat "$T/shim.log" >&2; exit 2; }
	echo "$stamp" >"$T/.stamp"
fi

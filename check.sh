#!/bin/bash
# check.sh PROPERTY      decides one property on /repo's current working tree (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   repeats a reported violation
# check.sh build         builds everything
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
export SNSIM_OUT="${SNSIM_OUT:-$V}" SNSIM_SELF="$V/check.sh" SNCLI_TARGET="$V/target/cli"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
lib() { "$V/build.sh" lib || exit 2; exec "$V/target/lib/debug/snsim" "$@"; }
cli() { "$V/build.sh" cli || exit 2; exec "$V/target/cli/driver/debug/sncli" "$@"; }
case "$1" in
build) "$V/build.sh" lib && "$V/build.sh" cli ;;
replay) if grep -q '"kind": *"cli"' "$2"; then cli replay "$2"; else lib replay "$2"; fi ;;
C08|C09) cli check "$1" ;;
C[0-9][0-9]) lib check "$1" ;;
determinism) lib determinism "${2:-40}" ;;
*) echo "usage: check.sh PROPERTY | replay FILE | build | determinism [N]" >&2; exit 2 ;;
esac

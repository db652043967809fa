#!/bin/bash
# check.sh <ID> [replay <file>]: rebuilds from /repo's working tree and runs one property's check.
V=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
case $id in
	C24) need="harness bins clock" ;;
	C14|C15|C18|C19|C2[0-8]) need="harness bins" ;;
	*) need="harness" ;;
esac
bash "$V/tools/build.sh" $need || exit 3
cd "$V" || exit 3
export VERIF_ROOT=$V VERIF_BIN=$V/.build/bins/debug
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset RUST_LOG RUST_BACKTRACE
if [ "$1" = replay ]; then exec "$V/.build/target/release/verif" replay "$id" "$2"; fi
"$V/.build/target/release/verif" run "$id" || exit $?
# As a second engine, libFuzzer.
if [ "$id $VERIF_TIER" = "C05 thorough" ]; then bash "$V/tools/fuzz.sh"; fi

#!/bin/bash
# Builds what a check needs from /repo's working tree: build.sh harness|bins|clock ...
# Everything goes to /verif/.build (git-ignored). Safe to run concurrently.
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
log=$B/build.log

# What decides the build: the content of the sources, not their time stamps.
stamp() {
	( cd /repo && find Cargo.toml Cargo.lock core cli web rust-toolchain.toml -type f -not -path '*/target/*' -print0 2>/dev/null \
		| LC_ALL=C sort -z | xargs -0 sha256sum; git -C /repo rev-parse HEAD 2>/dev/null ) | sha256sum | cut -c1-64
}
NOW=$(stamp)

harness() {
	python3 "$V/tools/vendor.py" "$V/harness/Cargo.lock" "$B/vendor" || return 1
	local T=$B/target
	local C=(--offline --manifest-path "$V/harness/Cargo.toml" --target-dir "$T"
		--config 'source.crates-io.replace-with="verif-vendor"' --config "source.verif-vendor.directory=\"$B/vendor\"")
	export RUSTUP_TOOLCHAIN=stable
	if [ "$(cat "$T/stamp" 2>/dev/null)" != "$NOW" ] && [ -d "$T/release" ]; then
		cargo clean -q -p subweight-core --release "${C[@]}" >>"$log" 2>&1
	fi
	rm -f "$T/stamp"
	RUSTFLAGS="--cap-lints=warn -Awarnings" cargo build -q --release "${C[@]}" >>"$log" 2>&1 || return 1
	echo "$NOW" >"$T/stamp"
}

bins() {
	local T=$B/bins
	export RUSTUP_TOOLCHAIN=1.80.0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
	if [ "$(cat "$T/stamp" 2>/dev/null)" != "$NOW" ] && [ -d "$T/debug" ]; then
		cargo clean -q --offline --manifest-path /repo/Cargo.toml --target-dir "$T" -p subweight-core -p subweight -p subweight-web >>"$log" 2>&1
	fi
	rm -f "$T/stamp"
	cargo build -q --offline --manifest-path /repo/Cargo.toml --target-dir "$T" -p subweight -p subweight-web >>"$log" 2>&1 || return 1
	echo "$NOW" >"$T/stamp"
}

clock() {
	gcc -O1 -shared -fPIC -o "$B/clock.so.new" "$V/tools/clock.c" >>"$log" 2>&1 && mv "$B/clock.so.new" "$B/clock.so"
}

: >"$log"
for what; do
	$what || { echo "build of $what failed:"; tail -n 40 "$log"; exit 3; }
done

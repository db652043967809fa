#!/bin/bash
# Coverage-guided part of C05 (thorough tier): builds fuzz/ against /repo, runs libFuzzer for VERIF_FUZZ_SECONDS, and
# has what it finds judged by the harness, whose replay file is what gets reported. Exit 1: a confirmed violation.
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=nightly
secs=${VERIF_FUZZ_SECONDS:-1200}
python3 "$V/tools/vendor.py" "$V/fuzz/Cargo.lock" "$B/vendor" || exit 3
rm -rf "$B/fuzz/x86_64-unknown-linux-gnu/release/deps/"*subweight*
RUSTFLAGS="--cap-lints=warn -Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Ccodegen-units=1" \
	cargo build -q --release --target x86_64-unknown-linux-gnu --manifest-path "$V/fuzz/Cargo.toml" --target-dir "$B/fuzz" \
	--config 'source.crates-io.replace-with="verif-vendor"' --config "source.verif-vendor.directory=\"$B/vendor\"" || exit 3
W=$(mktemp -d /tmp/verif-fuzz-XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir "$W/corpus" "$W/art"
# Seeds: small real files, and single functions of big ones.
python3 - "$W/corpus" <<'P'
import glob, re, sys
out, n = sys.argv[1], 0
def put(t):
    global n
    open(f'{out}/{n}', 'w').write(t); n += 1
for f in sorted(glob.glob('/repo/test_data/**/*.txt', recursive=True)):
    t = open(f, errors='replace').read()
    if len(t) < 6000:
        put(t)
    for m in list(re.finditer(r'((?:\t///[^\n]*\n)*\t(?:// [^\n]*\n\t)*fn \w+\([^)]*\) -> Weight \{.*?\n\t\})', t, re.S))[:25]:
        put('impl WeightInfo for () {\n' + m[1] + '\n}\n')
P
"$B/fuzz/x86_64-unknown-linux-gnu/release/parse" "$W/corpus" -dict="$V/fuzz/dict" -fork=8 -seed="${VERIF_SEED:-1}" \
	-ignore_timeouts=1 -ignore_ooms=1 -ignore_crashes=1 -timeout=10 -max_len=1200 -rss_limit_mb=3000 \
	-artifact_prefix="$W/art/" -max_total_time="$secs" >"$W/log" 2>&1
grep -a '^#' "$W/log" | tail -1
python3 - "$V" "$W" "$secs" <<'P'
import glob, json, os, re, subprocess, sys
V, W, secs = sys.argv[1:]
found = sorted(glob.glob(W + '/art/crash-*') + glob.glob(W + '/art/timeout-*'), key=os.path.getsize)
bad = 0
for f in found[:40]:
    try:
        text = open(f, encoding='utf8').read()
    except UnicodeDecodeError:
        continue
    r = f'{V}/replays/C05-fuzz-{os.path.basename(f)[-16:]}.json'
    os.makedirs(V + '/replays', exist_ok=True)
    json.dump({'property': 'C05', 'relation': 'token soup', 'message': 'found by coverage-guided fuzzing', 'input': {'text': text}}, open(r, 'w'))
    try:
        p = subprocess.run([V + '/.build/target/release/verif', 'replay', 'C05', r], capture_output=True, text=True, timeout=300)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
    # A crash of the process that replays (a negative status) is one, too.
    if rc is not None and (rc == 1 or rc < 0):
        bad += 1
        print(f'VIOLATION property=C05 replay={r}')
        break
    os.remove(r)
last = [l for l in open(W + '/log', errors='replace') if l.startswith('#')]
m = re.match(r'#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)', last[-1]) if last else None
ev = V + '/evidence/C05.json'
if m and os.path.exists(ev):
    e = json.load(open(ev))
    e['coverage'].setdefault('coverage_guided', {}).update(seconds=int(secs), executions=int(m[1]), edges=int(m[2]), features=int(m[3]), corpus=int(m[4]), artifacts=len(found), confirmed=bad)
    json.dump(e, open(ev, 'w'), indent=1)
sys.exit(1 if bad else 0 if m else 3)
P

#!/bin/bash
# fuzz.sh ID   coverage-guided stage of the thorough tier (called by check.sh)
#
# libFuzzer mutates the byte string that the generators read their choices
# from, guided by coverage of the library, its grammar and the harness; the
# property itself decides. VFUZZ_SECONDS: length of the campaign.
# Exit codes as check.sh. Work files live in a directory removed at the end.
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="$1"
SECS="${VFUZZ_SECONDS:-300}"
SEED="${VERIF_SEED:-1}"
JOBS="${VFUZZ_JOBS:-8}"
export VERIF_DIR CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
HBIN="$VERIF_DIR/harness/target/release/vharness"
export CARGO_TARGET_DIR="$VERIF_DIR/fuzz/target"
"$VERIF_DIR/check.sh" build || exit 2
mkdir -p "$CARGO_TARGET_DIR"
stamp="$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)"
exec 9>"$CARGO_TARGET_DIR/.fuzz.lock"
flock 9
if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$stamp" ]; then
  rm -f "$CARGO_TARGET_DIR/repo.stamp"
  [ -d "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu" ] &&
    cargo +nightly clean --release --offline --target x86_64-unknown-linux-gnu -p dockerfile-parser --manifest-path "$VERIF_DIR/fuzz/Cargo.toml" >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/build.log"
if ! cargo +nightly fuzz build -s none --fuzz-dir "$VERIF_DIR/fuzz" prop >"$log" 2>&1; then
  echo "ERROR: the fuzz target does not build" >&2
  grep -E -A8 '^error' "$log" | head -40 >&2
  exit 2
fi
echo "$stamp" >"$CARGO_TARGET_DIR/repo.stamp"
flock -u 9
exec 9>&-
BIN="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/prop"

W="$(mktemp -d "${TMPDIR:-/tmp}/vfuzz-$ID-XXXXXX")"
trap 'rm -rf "$W"' EXIT
mkdir "$W/corpus" "$W/art" "$W/scratch"
# random byte strings: what the random tier would draw
python3 - "$W/corpus" "$SEED" <<'P'
import random, sys
r = random.Random(int(sys.argv[2]))
for i in range(200):
    open(f"{sys.argv[1]}/s{i}", "wb").write(r.randbytes(r.choice([40, 120, 300, 800])))
P
cd "$W"
ulimit -c 0
VFUZZ_PROP="$ID" "$BIN" -fork="$JOBS" -ignore_crashes=0 -ignore_timeouts=1 -ignore_ooms=1 -timeout=120 -rss_limit_mb=3500 \
  -max_total_time="$SECS" -max_len=4096 -seed="$((SEED + 1))" -artifact_prefix="$W/art/" "$W/corpus" >"$W/log" 2>&1 9>&-
runs="$(grep -oE '^#[0-9]+: cov: [0-9]+ ft: [0-9]+ corp: [0-9]+' "$W/log" | tail -1)"
cov="$(echo "$runs" | grep -oE 'cov: [0-9]+' | grep -oE '[0-9]+')"
n="$(echo "$runs" | grep -oE '^#[0-9]+' | tr -d '#')"
corp="$(echo "$runs" | grep -oE 'corp: [0-9]+' | grep -oE '[0-9]+')"
slow="$(find "$W/art" -name 'timeout-*' -o -name 'oom-*' | wc -l)"
python3 - "$VERIF_DIR/evidence/$ID.json" "${n:-0}" "${cov:-0}" "${corp:-0}" "$SECS" "$slow" <<'P'
import json, sys
f = sys.argv[1]
try:
    e = json.load(open(f))
except Exception:
    sys.exit(0)
e["coverage"]["fuzz_executions"] = int(sys.argv[2])
e["coverage"]["fuzz_edges_covered"] = int(sys.argv[3])
e["coverage"]["fuzz_corpus"] = int(sys.argv[4])
e["coverage"]["fuzz_seconds"] = int(sys.argv[5])
e["coverage"]["fuzz_inconclusive"] = int(sys.argv[6])
json.dump(e, open(f, "w"), indent=1, ensure_ascii=False)
P
for a in "$W"/art/crash-*; do
  [ -e "$a" ] || continue
  # C31 looks for answers that vary between runs: give the case several
  tries=1
  [ "$ID" = C31 ] && tries=20
  for ((t = 0; t < tries; t++)); do
    VHARNESS_SCRATCH="$W/scratch" "$HBIN" bytes "$ID" "$a" >"$W/rep" 2>&1
    rc=$?
    [ $rc -eq 2 ] || break
  done
  if [ $rc -eq 1 ]; then
    cat "$W/rep"
    exit 1
  elif { [ $rc -gt 128 ] || [ "$ID" = C31 ]; } && [ -s "$W/scratch/dump" ]; then
    # the process dies, or the answer did vary: keep the choices drawn until then
    r="$VERIF_DIR/replays/$ID-fuzz-$SEED.replay"
    mkdir -p "$VERIF_DIR/replays"
    { echo "property=$ID"; echo "tier=thorough"; echo "choices=$(paste -sd, "$W/scratch/dump")"; grep -a -A6 VFUZZ-FAILED "$W/log" | head -8 | cut -c1-300 | sed 's/^/# /'; } >"$r"
    echo "VIOLATION property=$ID replay=$r"
    exit 1
  fi
  # a measured CPU time that does not repeat is no violation
  case "$ID" in C02 | C20 | C35) slow=$((slow + 1)); continue ;; esac
  cat "$W/rep" >&2
  echo "ERROR property=$ID: a fuzzer artifact does not reproduce" >&2
  grep -a -A6 VFUZZ-FAILED "$W/log" | cut -c1-300 >&2
  exit 2
done
if [ -z "$runs" ]; then
  tail -20 "$W/log" >&2
  echo "ERROR property=$ID: the fuzzer did not run" >&2
  exit 2
fi
echo "OK property=$ID fuzzed executions=$n edges=$cov corpus=$corp seconds=$SECS inconclusive=$slow"

#!/bin/bash
# confirm_seed.sh ID...: confirms planted changes in a scratch copy of /repo: the patch applies, builds, keeps the stable
# tests passing, and its demonstration passes without it & fails with it. Not used by any check.
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true \
       CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only RUST_BACKTRACE=0
seeded=/verif/seeded
scratch=$(mktemp -d /tmp/confirm.XXXXXX)
trap '/bin/rm -rf "$scratch"' EXIT
for id in "$@"; do
    dir=$scratch/$id; mkdir "$dir"
    cp -a /repo "$dir/repo"; mkdir "$dir/demo"
    cp "$seeded/$id"/* "$dir/demo/"; /bin/rm -f "$dir/demo/patch.diff" "$dir/demo/meta.json"
    cd "$dir/repo" || exit 2
    git checkout -q -- .
    bash "$dir/demo/demo.sh" > "$dir/clean.log" 2>&1; clean=$?
    git apply "$seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
    cargo test --workspace --no-run --offline > "$dir/build.log" 2>&1 || { echo "$id: DOES NOT BUILD"; tail -30 "$dir/build.log"; continue; }
    for try in 1 2 3; do
        timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 1 > "$dir/test.log" 2>&1
        python3 /opt/vp/results.py "$dir/out.json" "cargo:$dir/test.log" > /dev/null
        missing=$(python3 -c "
import json
print(' '.join(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('$dir/out.json'))['passed'])))")
        [ -z "$missing" ] && break; echo "$id: try $try: $missing"
    done
    bash "$dir/demo/demo.sh" > "$dir/patched.log" 2>&1; patched=$?
    if [ $clean = 0 ] && [ $patched != 0 ] && [ -z "$missing" ]; then echo "$id: OK (demo patched=$patched: $(tail -1 "$dir/patched.log" | cut -c1-150))"; else
        echo "$id: BAD clean=$clean patched=$patched failing tests: $missing"; [ $clean = 0 ] || tail -15 "$dir/clean.log"; [ $patched != 0 ] || tail -5 "$dir/patched.log"; fi
    cd /; /bin/rm -rf "$dir"
done

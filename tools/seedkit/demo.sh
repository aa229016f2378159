#!/bin/bash
# Builds demo.rs beside this file as one more test of a scratch copy of the derived workspace
# (whose sources are those in /repo) and runs it. Everything it writes goes to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cp -a /opt/vp/ws "$t/ws" || exit 2
p="$t/ws/packages/dao-testing"
rm -f "$p/tests"
mkdir -p "$p/tests" "$t/target/debug/deps"
cp "$here/demo.rs" "$p/tests/demo.rs"
cp "$here/kit.rs" "$p/tests/kit.rs"
# start from the libraries the build already made (copied, never written)
if [ -d /opt/vp/target/debug/deps ]; then
  (cd /opt/vp/target/debug && cp -a .fingerprint build "$t/target/debug/" && find deps -type f \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) -print0 | xargs -0 cp -a -t "$t/target/debug/deps")
fi
export CARGO_TARGET_DIR="$t/target" RUST_BACKTRACE=0
cd "$t/ws" || exit 2
cargo test --workspace --offline --locked --no-run > "$t/log" 2>&1 || { tail -c 3000 "$t/log"; exit 3; }
bin=$(ls "$t"/target/debug/deps/demo-* | grep -v '\.d$')
"$bin" 2>&1 | tail -c 2000
exit "${PIPESTATUS[0]}"

#!/bin/bash
# Demonstration: adds the test in demo.rs to a scratch copy of the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
src=$(pwd)
[ -d "$src/dex/src" ] || src=/repo
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a "$src/dex" "$d/dex" || exit 2
cat "$here/demo.rs" >> "$d/dex/src/tests.rs"
cd "$d/dex" && touch src/lib.rs && cargo test --offline --lib tests::demo:: -- --test-threads 4 > "$d/log" 2>&1
rc=$?
grep -E "^test |panicked|error(\[|:)|left|right" "$d/log" | head -30
grep -qE "test result: ok\. [1-9]" "$d/log" || [ $rc -ne 0 ] || rc=3
exit $rc

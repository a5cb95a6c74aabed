#!/bin/bash
# Builds the simulator against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export RUSTC_WRAPPER="$PWD/rustc-wrapper.sh"
T=x86_64-unknown-linux-gnu
# cargo decides by file times; a tree whose contents changed is rebuilt whatever
# its times say
now=$(cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/repo.sum 2>/dev/null)" ]; then
    [ -d target/$T ] && cargo clean --offline -q --target $T -p level_db_rust >/dev/null 2>&1
    rm -f target/repo.sum
fi
cargo build --offline --target $T "$@" || exit 2
echo "$now" > target/repo.sum

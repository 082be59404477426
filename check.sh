#!/bin/bash
# ./check.sh setup            build the driver
# ./check.sh ID [thorough]    decide property ID on /repo's working tree
# ./check.sh replay FILE      re-evaluate a replay file on /repo's working tree
# Exit 0: held; 1: violated (VIOLATION line); anything else: the check could not decide.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER MIRIFLAGS
mkdir -p target evidence replays
if ! RUSTUP_TOOLCHAIN=1.99.1 cargo build --release --offline --manifest-path driver/Cargo.toml \
    --target-dir target/driver >target/driver.log 2>&1; then
    cat target/driver.log
    echo "ERROR: the driver does not build"
    exit 3
fi
[ "$1" = setup ] && exit 0
[ "$1" = replay ] || rm -f "evidence/$1.json"
exec target/driver/release/driver "$@"

#!/bin/bash
# check.sh build | check.sh PROP | check.sh replay FILE
# Builds the simulator against /repo's working tree and runs one property's check.
# Exit: 0 held, 1 violation (with its VIOLATION line), anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
mkdir -p target evidence replays
build() {
  # cargo decides by time stamps; a content stamp makes sure that no change of the sources is overlooked
  stamp=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
  if [ "$(cat target/repo.stamp 2>/dev/null)" != "$stamp" ]; then
    rm -f "$PWD/target/repo.stamp"
    (cd sim && cargo clean --offline --release -p bytecodec -p bcsim) >/dev/null 2>&1
  fi
  if ! (cd sim && cargo build --release --offline --locked) >target/build.log 2>&1; then
    cat target/build.log >&2
    return 2
  fi
  echo "$stamp" >target/repo.stamp
}
exec 9>target/check.lock
flock 9
build || exit 2
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) exec target/release/bcsim replay "$2" ;;
  *) exec target/release/bcsim check "$1" ;;
esac

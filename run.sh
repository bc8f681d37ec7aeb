#!/bin/bash
# run.sh PROPERTY [quick|thorough]   checks a property against /repo's working tree
# run.sh replay FILE                 runs a recorded failure again
# run.sh build                       only builds
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTC_WRAPPER="$here/tools/rustc-cov.sh"
export CARGO_NET_OFFLINE=true RUSTFLAGS="${RUSTFLAGS:-} --cap-lints warn --cfg hv_coverage"
target="$here/target"
log="$target/build.log"
mkdir -p "$target"
if ! cargo build --offline --release --manifest-path "$here/harness/Cargo.toml" --target-dir "$target" >"$log" 2>&1; then
    cat "$log" >&2
    echo "ERROR the harness does not build against /repo"
    exit 2
fi
hv="$target/release/hv"
case "${1:-}" in
build) exit 0 ;;
replay) exec "$hv" replay "$2" ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
exec "$hv" check "$1" "$tier" "${VERIF_SEED:-1}" "$here"

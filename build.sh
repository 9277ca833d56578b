#!/bin/bash
# Build what a check needs against /repo's current working tree (offline).
# usage: build.sh [main] [unopt] [json] ...   (default: main)
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
parts="${*:-main}"
# Cargo looks at modification times; also look at contents, so that a change is never missed.
sum="$(cd /repo && find src examples Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
build() { # name, directory, cargo arguments
  local t="$here/target/$1" dir="$2"; shift 2
  mkdir -p "$t"
  if [ "$sum" != "$(cat "$t/repo.sum" 2>/dev/null)" ]; then
    (cd "$dir" && CARGO_TARGET_DIR="$t" cargo clean --offline -p partial-pretty-printer "$@") >/dev/null 2>&1
    # (the example is compiled from /repo as well)
    [ "$dir" = "$here/jsonbin" ] && (cd "$dir" && CARGO_TARGET_DIR="$t" cargo clean --offline -p ppp-json-example "$@") >/dev/null 2>&1
  fi
  if ! (cd "$dir" && CARGO_TARGET_DIR="$t" cargo build --offline --locked "$@") >"$log" 2>&1; then
    cat "$log" >&2
    return 1
  fi
  echo "$sum" > "$t/repo.sum"
}
for p in $parts; do
  case "$p" in
    main) build main "$here/harness" --release || exit 1 ;;
    unopt) build unopt "$here/harness" --profile unopt || exit 1 ;;
    json) build json "$here/jsonbin" --release || exit 1 ;;
    *) echo "unknown part $p" >&2; exit 1 ;;
  esac
done

#!/bin/bash
# build.sh [plain] [part] [tools] [asan] [tsan]: builds the monitors against /repo's working tree, offline.
# part: only the modules that compile on their own; a change that breaks the compilation of the rest
# does not keep the checks of those from answering.
# tools: the corpus tools of /repo/examples, with the library.
# Output goes to harness/target/<kind>, which git ignores. Prints nothing on success.
cd "$(dirname "$0")/harness/monitor" || exit 2
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
root=$PWD/../target
repo=/repo
hash=$(cd $repo && find src examples Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
for kind in "${@:-plain}"; do
  dir=$root/$kind
  mkdir -p "$dir"
  exec 9>"$dir/.lock"; flock 9
  case $kind in
    plain) tool=(cargo build); flags="" ;;
    part) tool=(cargo build --no-default-features --features xmlutil --bin part); flags="" ;;
    tools) tool=(cargo build --manifest-path ../tools/Cargo.toml); flags="" ;;
    asan) tool=(cargo +nightly build --target x86_64-unknown-linux-gnu); flags="-Zsanitizer=address" ;;
    tsan) tool=(cargo +nightly build -Zbuild-std --target x86_64-unknown-linux-gnu); flags="-Zsanitizer=thread" ;;
    *) echo "unknown build $kind"; exit 2 ;;
  esac
  export CARGO_TARGET_DIR=$dir RUSTFLAGS="--cap-lints warn $flags"
  # cargo decides by modification time; decide by content
  if [ "$(cat "$dir/.source" 2>/dev/null)" != "$hash" ]; then
    find "$dir" -maxdepth 5 -type d \( -path '*.fingerprint/llamapun-*' -o -path '*.fingerprint/tools-*' \) -exec rm -rf {} + 2>/dev/null
  fi
  if ! "${tool[@]}" --offline -q >"$dir/build.log" 2>&1 \
    && ! { [ $kind = part ] && "${tool[@]/xmlutil/part}" --offline -q >"$dir/build.log" 2>&1; }; then
    echo "the $kind build of the monitors against /repo failed:"
    grep -E '^error' -A8 "$dir/build.log" | head -60
    exit 2
  fi
  echo "$hash" >"$dir/.source"
  exec 9>&-
done

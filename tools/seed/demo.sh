#!/bin/bash
# Runs main.rs (beside this script) against the crate in the current directory. exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/.cargo" && tar xzf "$here/vendor.tgz" -C "$tmp" && cp "$here/main.rs" "$tmp/src/main.rs" || exit 3
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
for c in "$tmp"/bind/*/Cargo.toml; do [ -f "$c" ] && sed -i "s#@REPO@#$repo#" "$c"; done
cp "$here/Cargo.lock.in" "$tmp/Cargo.lock"
cat > "$tmp/.cargo/config.toml" <<'C'
[source."git+https://github.com/hyperledger/aries-askar?rev=4f29d43d584c4a1f1f982c4511824421aeccd2db"]
git = "https://github.com/hyperledger/aries-askar"
rev = "4f29d43d584c4a1f1f982c4511824421aeccd2db"
replace-with = "standin"
[source.standin]
directory = "vendor"
C
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet || exit 4
timeout 120 "$tmp/target/debug/demo"

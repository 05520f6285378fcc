#!/bin/bash
# usage: rig.sh PACKAGE [args]: builds demo.rs (beside this file) against a scratch copy of the current directory's crates and runs it.
# The definition submodules are absent, so the generated code tables are replaced with marker entries ("4_3:7").
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/repo" "$w/prog/src"
tar -C "$repo" --exclude=./target --exclude=./.git --exclude=./testdata --exclude='./*/target' -cf - . | tar -C "$w/repo" -xf -
tables() { sort -u | while read -r n; do
  t=${n##*TABLE_}; printf 'pub const %s: &[&str] = &[' "$n"; for i in $(seq 0 39); do printf '"%s:%d", ' "$t" "$i"; done; echo '];'; done; }
grep -rhoE '\bCOMMON_CODE_TABLE_[0-9]+\b' "$w/repo/src" | tables > "$w/repo/__cct.rs"
grep -rhoE '\bCODE_TABLE_[0-9][0-9_]*\b' "$w/repo/src" | tables > "$w/repo/__flag.rs"
cat > "$w/repo/build.rs" <<'R'
use std::{env, fs};
fn main() {
    let o = env::var("OUT_DIR").unwrap();
    fs::copy("__cct.rs", format!("{o}/cct.rs")).unwrap();
    fs::copy("__flag.rs", format!("{o}/grib2_codeflag.rs")).unwrap();
}
R
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS="--cap-lints=warn" CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
case "$1" in
grib) dep='grib = { path = "../repo" }
chrono = "0.4"' ;;
gen) dep='grib-build = { path = "../repo/gen" }' ;;
codegen) dep='grib-codegen = { path = "../repo/codegen" }' ;;
cli) (cd "$w/repo" && cargo build --offline -q -p grib-cli >"$w/log" 2>&1) || { tail -20 "$w/log"; exit 2; }; export GRIBBER="$w/target/debug/gribber"; dep='' ;;
esac
shift
cp "$here/demo.rs" "$w/prog/src/main.rs"
for f in "$here"/*.txt; do [ -f "$f" ] && cp "$f" "$w/prog/"; done
printf '[package]\nname = "prog"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n%s\n' "$dep" > "$w/prog/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/prog/Cargo.lock"
cd "$w/prog"
cargo build --offline -q >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 2; }
export SCRATCH="$w" REPO_COPY="$w/repo"
cd "$w"
timeout 200 "$w/target/debug/prog" "$@"

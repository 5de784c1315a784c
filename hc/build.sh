#!/bin/bash
# usage: build.sh OUTDIR -- builds the C interface of crates/compiler-builtins-smoke-test from
# /repo as shared objects: the default features, no arch features, and with runtime checks.
set -e
CB=${LIBM_SRC%/libm/src/math}/crates/compiler-builtins-smoke-test
OUT=$1
mkdir -p "$OUT"
build() { # name, profile, cargo arguments
  local d="$OUT/$1" p=$2
  mkdir -p "$d"
  # the crate's own manifest, moved out of the repository: an rlib keeps the C symbols
  python3 - "$CB/Cargo.toml" "$CB" > "$d/Cargo.toml.new" <<'P'
import re, sys
t, cb = open(sys.argv[1]).read(), sys.argv[2]
t = t.replace('[package]\n', f'[workspace]\n\n[package]\nbuild = "{cb}/build.rs"\n', 1)
t = re.sub(r'\[lib\]\n', f'[lib]\npath = "{cb}/src/lib.rs"\n', t, count=1)
t = re.sub(r'crate-type = .*', 'crate-type = ["rlib"]', t)
print(t)
P
  cmp -s "$d/Cargo.toml.new" "$d/Cargo.toml" || cp "$d/Cargo.toml.new" "$d/Cargo.toml"
  local o=release; [ "$p" = dev ] && o=debug
  (cd "$d" && CARGO_PROFILE_RELEASE_LTO=off CARGO_TARGET_DIR="$d/target" cargo build --offline --profile "$p" "${@:3}" 2>&1 | grep -v '^warning' | tail -40; exit ${PIPESTATUS[0]})
  local lib="$d/target/$o/libcb.rlib"
  if [ "$lib" -nt "$d/libcb.so" ]; then
    rm -rf "$d/o"; mkdir "$d/o"
    (cd "$d/o" && ar x "$lib" && {
      # the symbols are hidden from other objects: list them in a table that is not
      echo 'struct e { const char *name; void *p; };'
      nm -g --defined-only ./*.o | awk '$2 ~ /^[TW]$/ && $3 ~ /^[a-z][a-z0-9_]*$/ { print $3 }' | sort -u > names
      sed 's/.*/extern char p_& __asm__("&");/' names
      echo 'const struct e cb_table[] = {'; sed 's/.*/  {"&", \&p_&},/' names; echo '  {0, 0}};'
    } > tab.c && gcc -shared -fPIC -fno-builtin -o ../libcb.so.new tab.c ./*.o -lgcc)
    mv "$d/libcb.so.new" "$d/libcb.so"
    rm -rf "$d/o"
  fi
}
build default release
build noarch release --no-default-features --features compiler-builtins,unstable-float
build checked dev

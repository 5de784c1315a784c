#!/bin/bash
# build.sh DIR: build every guest from /repo's working tree into DIR
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"; mkdir -p "$out"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
vend="$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor"
X="-Awarnings -Clinker=ld -Clinker-flavor=ld -Clink-args=-static -Crelocation-model=static"
one() { # name target profile kind flags...
  local name=$1 t=$2 prof=$3 kind=$4; shift 4
  local extra=; case $name in x86_64-v3) extra=-Ctarget-cpu=x86-64-v3;; i686*|i586) extra=-Clink-args=-melf_i386;; esac
  if [ $kind = bin ]; then export RUSTFLAGS="$X $extra"; else export RUSTFLAGS="-Awarnings"; fi
  (cd "$here/guest" && cargo build --locked --profile $prof --$kind $( [ $kind = bin ] && echo guest ) --target $t --target-dir "$out/t-$t" \
    -Zbuild-std=core,alloc,compiler_builtins -Zbuild-std-features=compiler-builtins-mem \
    --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$vend\"" "$@") >"$out/$name.log" 2>&1 || { tail -40 "$out/$name.log"; return 1; }
  local f="$out/t-$t/$t/$prof/guest"; [ $kind = lib ] && f="$f.wasm"
  cp -f "$f" "$out/$name"
}
stable() { # as users build it: the stable toolchain, default features, the compiled core
  (cd "$here/guest" && RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=guest RUSTFLAGS="$X" cargo build --locked --release --bin guest --target x86_64-unknown-linux-gnu --target-dir "$out/t-stable" \
    --no-default-features --features own-mem,libm/default) >"$out/x86_64-stable.log" 2>&1 || { tail -40 "$out/x86_64-stable.log"; return 1; }
  cp -f "$out/t-stable/x86_64-unknown-linux-gnu/release/guest" "$out/x86_64-stable"
}
( one i686 i686-unknown-linux-gnu release bin && one i686-soft i686-unknown-linux-gnu release bin --features soft && one i686-checked i686-unknown-linux-gnu chk bin ) & a=$!
( one i586 i586-unknown-linux-gnu release bin ) & b=$!
( one wasm32 wasm32-unknown-unknown release lib && one wasm32-arch wasm32-unknown-unknown release lib --features wasm-arch ) & c=$!
( one x86_64-v3 x86_64-unknown-linux-gnu release bin && one x86_64-size x86_64-unknown-linux-gnu size bin ) & e=$!
( one x86_64-nosse x86_64-unknown-none release bin && stable ) & f=$!
bash "$here/a64/build.sh" "$out" & d=$!
r=0; wait $d; wait $a || r=1; wait $b || r=1; wait $c || r=1; wait $e || r=1; wait $f || r=1
exit $r

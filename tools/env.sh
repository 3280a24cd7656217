# Sourced by /verif/check: toolchain, target directory and build functions.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS TRYBUILD CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=$VERIF_DIR/target
ulimit -c 0

# cargo notices changed files by time stamp; make it notice changed content as well.
fresh() {
  local h
  h=$(cd /repo && find asn-compiler codecs codecs_derive -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  mkdir -p "$CARGO_TARGET_DIR"
  if [ "$h" != "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" ]; then
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/{asn1-codecs,asn1_codecs,asn1-compiler,asn1_compiler,asn1-ordered,asn1_ordered,mc}[-_]*
    echo "$h" > "$CARGO_TARGET_DIR/.repo-hash"
  fi
}
build_one() {
  local out
  out=$(cd "$VERIF_DIR/mc/$1" && cargo build --release --offline 2>&1) || { echo "$out" | grep -E -A12 '^error' | head -60 >&2; return 1; }
}
build() {
  fresh
  case $1 in
    all) for c in codec compiler derived order cli; do build $c; done; e2e_build; return 0;; # only warms up: each check builds what it needs and says so when it cannot
    # the iteration order of hash tables is controlled by tables of our own; where the code needs more than they offer, the real ones
    order) build_one order || { echo "K10: built with the standard library's own tables" >&2; (cd "$VERIF_DIR/mc/order" && cargo build --release --offline --features plain) > "$VERIF_DIR/work/order.log" 2>&1; };;
    *) build_one $1;;
  esac
}
# K13: generated code of many specifications, compiled and run.
export MC_E2E_DIR=$VERIF_DIR/work/e2e
e2e_build() {
  build compiler || { echo "K13: the harness does not build against /repo" >&2; return 2; }
  mkdir -p "$VERIF_DIR/work"
  "$CARGO_TARGET_DIR/release/mc-compiler" K13 "$MC_E2E_DIR" || return $?
  # the library and the derive macros have to compile in any case
  (cd "$VERIF_DIR/mc/e2e" && cargo build --release --offline) > "$VERIF_DIR/work/e2e.log" 2>&1 && return 0
  "$CARGO_TARGET_DIR/release/mc-compiler" K13 "$MC_E2E_DIR" "$VERIF_DIR/work/e2e.log" && return 2
  rc=$?; [ $rc = 1 ] || tail -30 "$VERIF_DIR/work/e2e.log" >&2; return $rc
}
e2e() { e2e_build || return $?; "$CARGO_TARGET_DIR/release/mc-e2e" K13 "$@"; }

derive_errors() {
  mkdir -p "$VERIF_DIR/work"
  (cd "$VERIF_DIR/mc/derived" && cargo build --release --offline) > "$VERIF_DIR/work/derived.log" 2>&1 && return 2
  python3 "$VERIF_DIR/tools/derive_errors.py" "$1" "$VERIF_DIR/work/derived.log" "$(ls -t "$CARGO_TARGET_DIR"/release/build/mc-derived-*/out/types.rs 2>/dev/null | head -1)"
}

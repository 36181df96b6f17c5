# Sourced by check.sh and setup.sh.
export PATH=/root/.cargo/bin:$PATH HOME=/root
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset TRAVIS_RUST_VERSION
export VERIF_SEED=${VERIF_SEED:-1}
TARGET=$VERIF_DIR/target

src_hash() {
  (cd /repo && find goko pointcloud serve_goko Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.proto' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# build <crate dir> <target subdir> <toolchain> <packages whose sources are in /repo>
build() {
  local crate=$1 sub=$2 tc=$3; shift 3
  export RUSTUP_TOOLCHAIN=$tc CARGO_TARGET_DIR=$TARGET/$sub
  mkdir -p "$CARGO_TARGET_DIR"
  local hash; hash=$(src_hash)
  # Never trust timestamps: when /repo's sources are not the ones last built here, drop those packages first.
  if [ "$(cat "$CARGO_TARGET_DIR/.src_hash" 2>/dev/null)" != "$hash" ]; then
    rm -f "$CARGO_TARGET_DIR/.src_hash"
    local p
    for p in "$@"; do (cd "$VERIF_DIR/$crate" && cargo clean --release --offline -p "$p" >/dev/null 2>&1); done
  fi
  if ! (cd "$VERIF_DIR/$crate" && RUSTFLAGS="--cfg goko_verif --cap-lints warn" cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1); then
    grep -A12 "^error" "$CARGO_TARGET_DIR/build.log" | head -60
    echo "ERROR: building $crate failed"
    return 2
  fi
  echo "$hash" > "$CARGO_TARGET_DIR/.src_hash"
}

run_bin() {
  local bin=$1; shift
  VERIF_SCRATCH=$(mktemp -d /tmp/gokocheck.XXXXXX); export VERIF_SCRATCH
  trap 'rm -rf "$VERIF_SCRATCH"' EXIT
  local lim=850; [ "$TIER" = thorough ] && lim=14400
  VERIF_TIER=$TIER timeout -k 5 $lim "$bin" "$@"
  local rc=$?
  case $rc in
    0|1) return $rc ;;
    134|139|132|135|136)
      # The process was killed by a fault in the code under test (abort, segmentation fault, ...).
      # Believe it only if it happens again.
      VERIF_TIER=$TIER timeout -k 5 $lim "$bin" "$@"; rc=$?
      case $rc in
        134|139|132|135|136)
          mkdir -p "$VERIF_DIR/evidence/replay"
          local f=$VERIF_DIR/evidence/replay/$PROP-crash.txt
          echo "the code under test killed the process (status $rc): $bin $*" > "$f"
          printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"explanation":"crashed"},"wall_s":0,"violations":1}\n' "$PROP" "$TIER" "$VERIF_SEED" > "$VERIF_DIR/evidence/$PROP.json"
          echo "VIOLATION property=$PROP replay=$f"
          return 1 ;;
        0|1) return $rc ;;
      esac ;;
  esac
  echo "ERROR: $bin ended with status $rc"
  return 2
}

run_property() {
  local prop=$1 tier=$2; shift 2
  TIER=$tier; PROP=$prop
  mkdir -p "$VERIF_DIR/evidence"
  case $prop in
    C01)
      if build loomcheck loom stable loomcheck; then export VERIF_LOOM_BIN=$TARGET/loom/release/loomcheck; fi
      build harness nightly nightly-2023-04-01 goko pointcloud || exit 2
      run_bin "$TARGET/nightly/release/gokocheck" "$prop" "$tier" "$@"; exit $? ;;
    C21|C22)
      build serve serve nightly-2023-04-01 goko pointcloud serve_goko || exit 2
      run_bin "$TARGET/serve/release/servecheck" "$prop" "$tier" "$@"; exit $? ;;
    *)
      build harness nightly nightly-2023-04-01 goko pointcloud || exit 2
      run_bin "$TARGET/nightly/release/gokocheck" "$prop" "$tier" "$@"; exit $? ;;
  esac
}

build_all() {
  build loomcheck loom stable loomcheck || exit 2
  build harness nightly nightly-2023-04-01 goko pointcloud || exit 2
  build serve serve nightly-2023-04-01 goko pointcloud serve_goko || exit 2
}

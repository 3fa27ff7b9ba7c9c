# Sourced by check.sh and setup.sh.
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
unset RUSTFLAGS LD_LIBRARY_PATH
export CARGO_TARGET_DIR=$VERIF_DIR/target
export VERIF_REPO=${VERIF_REPO:-/repo}
mkdir -p "$VERIF_DIR/out" "$VERIF_DIR/evidence" "$CARGO_TARGET_DIR"

sources_hash() {
    (cd "$VERIF_REPO" && find . \( -name target -o -name .git -o -name input \) -prune -o \
        \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -type f -print0 |
        sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# Cargo compares modification times, which are not reliable between copies of a tree, so the
# crates of the repository are cleaned whenever their sources are not the ones of the last build.
refresh() {
    local dir=$1 now
    now=$(sources_hash)
    if [ "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" != "$now" ]; then
        (cd "$dir" && cargo clean --offline -p xsd-types -p xsd-macro-utils -p xsd-parser -p wsdl-parser) 2>/dev/null
        [ -d "$CARGO_TARGET_DIR/cli" ] && (cd "$VERIF_REPO" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli cargo clean --offline \
            -p xsd-types -p xsd-macro-utils -p xsd-parser -p wsdl-parser -p xsd-parser-cli -p wsdl-parser-cli) 2>/dev/null
        echo "$now" > "$CARGO_TARGET_DIR/.sources"
    fi
    return 0
}

build() {
    case $1 in
        vh) refresh "$VERIF_DIR/harness" && cd "$VERIF_DIR/harness" && cargo build --locked --offline ;;
        zoo) refresh "$VERIF_DIR/zoo" && cd "$VERIF_DIR/zoo" && cargo build --locked --offline ;;
        gen) refresh "$VERIF_DIR/gen" && cd "$VERIF_DIR/gen" && cargo build --locked --offline ;;
        cli|repo) (cd "$VERIF_REPO" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cli cargo build --workspace --locked --offline) ;;
    esac
    local status=$?
    cd "$VERIF_DIR" || return 2
    return $status
}

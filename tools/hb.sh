cd /verif/harness && RUSTFLAGS="" cargo build --release --offline 2>&1 | awk '/^error/{p=1} /^warning/{p=0} p' | head -${1:-60}

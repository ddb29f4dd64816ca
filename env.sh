# build environment of the harness (offline, nightly; rstsr-openblas's build script reads RSTSR_DEV)
export LANG=C.UTF-8 PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RSTSR_DEV=1 LIBRARY_PATH=/usr/lib/x86_64-linux-gnu
unset RUSTFLAGS CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER
export CARGO_TARGET_DIR=/verif/target

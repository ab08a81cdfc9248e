# builds smd from /repo and prepares a scratch directory with its own HOME and configuration
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}" CARGO_HOME="${CARGO_HOME:-/root/.cargo}"
(cd /repo && CARGO_TARGET_DIR="${DEMO_TARGET:-/repo/target}" timeout 250 cargo build -q --offline -p smd --bin smd) 2>/dev/null || { echo "no build"; exit 2; }
smd="${DEMO_TARGET:-/repo/target}/debug/smd"
export HOME="$t/home" XDG_CONFIG_HOME="$t/cfg" RUST_LOG=off
mkdir -p "$HOME" "$t/w"; cd "$t/w"
chrome() { cp "$here/fakechrome.py" "$t/fakechrome.py"; chmod +x "$t/fakechrome.py"; export CHROME="$t/fakechrome.py" FAKE_FAIL="$1"; }

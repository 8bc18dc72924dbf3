cd /verif/harness; . ../env.sh; cargo build --offline 2>&1 | grep -E '^error' -A9 | head -${1:-60}

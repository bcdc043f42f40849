#!/bin/bash
# usage: check.sh ID quick|thorough
# Builds the harness against /repo's current working tree and decides ID.
cd "$(dirname "$0")" || exit 3
id=$1
tier=${2:-quick}
export RQVERIF_DIR=$PWD
export CARGO_TERM_COLOR=never
mkdir -p evidence replays harness/target
exec 9>harness/target/.lock
flock 9

# Cargo goes by modification times; a restored file may carry an old one.
# Compare the contents with those of the last build instead.
hash=$(find /repo/Cargo.toml /repo/src /repo/annealers/Cargo.toml /repo/annealers/src \
	/repo/classical_solver/Cargo.toml /repo/classical_solver/src -type f -print0 |
	sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)

fresh() { # directory
	if [ "$(cat "$1/target/.srchash" 2>/dev/null)" != "$hash" ]; then
		(cd "$1" && cargo clean -q --offline -p rustqubo -p annealers -p classical_solver \
			${2:-} >/dev/null 2>&1)
		mkdir -p "$1/target"
		echo "$hash" >"$1/target/.srchash"
	fi
}

if [ "$id" = C20 ]; then
	fresh miri
	rm -rf "$PWD/miri/target/miri" "$PWD/miri/target/release"
	exec python3 miri/run.py "$tier"
fi

fresh harness --release
log=harness/target/build.$id.log
if ! (cd harness && cargo build --release --offline --no-default-features --features "$id" \
	>"../$log" 2>&1); then
	tail -40 "$log"
	echo "ERROR property=$id: the harness does not build against /repo"
	exit 2
fi
bin=harness/target/rqverif-$id
cp -f harness/target/release/rqverif "$bin"
flock -u 9
ulimit -v 24000000
exec "$bin" check "$id" "$tier"

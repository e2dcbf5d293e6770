#!/bin/bash
# Development aid: which lines of the crate the quick workloads reach, by property.
# cov.sh OUTDIR [BIN...]
out=${1:?}; shift
here=$(cd "$(dirname "$0")/.." && pwd)
llvm=$(dirname "$(find /root/.rustup/toolchains/nightly-x86* -name llvm-cov | head -1)")
mkdir -p "$out"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$out/t RUSTFLAGS=-Cinstrument-coverage
bins=${*:-$(cd "$here/harness/src/bin" && ls | sed 's/.rs//')}
for b in $bins; do
	cargo +nightly build -q --offline --manifest-path "$here/harness/Cargo.toml" --profile mon --bin "$b" || exit 1
	mkdir -p "$out/$b"
	for s in 0 1 2 3 4 5 6 7; do
		LLVM_PROFILE_FILE=$out/$b/%p.profraw timeout 120 "$out/t/mon/$b" --seed 1 --tier quick --shard $s --shards 8 --budget ${BUDGET:-8} --out "$out/$b" >"$out/$b/log$s" 2>&1 &
	done
	wait
	"$llvm/llvm-profdata" merge -sparse "$out/$b"/*.profraw -o "$out/$b.profdata"
	rm -r "$out/$b"
	objs="$objs -object $out/t/mon/$b"
done
"$llvm/llvm-profdata" merge -sparse "$out"/*.profdata -o "$out/all.profdata"
"$llvm/llvm-cov" show ${objs# -object} -instr-profile="$out/all.profdata" -show-instantiations=false $(find $(sed -n 's/^ndarray-slice = .*path = "\([^"]*\)".*/\1/p' "$here/harness/Cargo.toml")/src -name '*.rs') > "$out/cov.txt"

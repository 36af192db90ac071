#!/bin/bash
# usage: shortest.sh ID [seconds] [repo]: the shortest failing input of each class of a harness
V="$(cd "$(dirname "$0")/.." && pwd)"; . "$V/env.sh"
R=${3:-/repo}; T=$(mktemp -d); cd "$V/harness/$1"; echo '{"Replace":{' > $T/o.json; sep=
for d in $(find -L . -name '*_test.go' -printf '%h\n' | sort -u); do
	p=$(cd "$R/$d" && ls *.go | head -1); pkg=$(sed -n 's/^package \([a-z_]*\).*/\1/p' "$R/$d/$p" | head -1)
	sed "s/^package x/package $pkg/" "$V/harness/common/vutil.go.txt" > $T/$pkg.go
	echo "$sep\"$R/${d#./}/vutil_verif_test.go\":\"$T/$pkg.go\"" >> $T/o.json; sep=,
	for f in "$R/$d"/*_test.go; do [ -e "$f" ] && echo ",\"$R/${d#./}/$(basename $f)\":\"\"" >> $T/o.json; done
	for f in $d/*_test.go; do echo ",\"$R/${d#./}/$(basename $f .go)_verif_test.go\":\"$PWD/${f#./}\"" >> $T/o.json; done
	pk="$pk ./${d#./}"
done
echo '}}' >> $T/o.json
cd "$R"; VERIF_SHORTEST=1 VERIF_SEED=${VERIF_SEED:-1} VERIF_BUDGET_MS=${2:-5}000 go test -v -mod=mod -modfile="$V/gomod/go.mod" -vet=off -overlay $T/o.json -run '^TestVerif$' -count=1 $pk
rm -r "$T"

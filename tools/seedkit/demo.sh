#!/bin/bash
# exit 0: the behaviour is as stated; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
T=$(mktemp -d /tmp/fvdemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp -r "$D/fairos" "$T/fairos"
{ cat go.mod; echo; echo "replace github.com/fairdatasociety/fairOS-dfs => $T/fairos"; } > "$T/go.mod"
cp go.sum "$T/go.sum"
RND=$(go env GOROOT)/src/math/rand/rand.go
sed 's|^func Float64() float64 { return globalRand().Float64() }|var VerifFloat64 func() float64\n\nfunc Float64() float64 {\n\tif VerifFloat64 != nil {\n\t\treturn VerifFloat64()\n\t}\n\treturn globalRand().Float64()\n}|' "$RND" > "$T/rand.go"
cat > "$T/o.json" <<J
{"Replace": {"$R/zz_demo/main.go": "$D/main.go", "$R/zz_demo/kit.go": "$D/kit.go", "$RND": "$T/rand.go"}}
J
go build -overlay "$T/o.json" -modfile "$T/go.mod" -o "$T/demo" ./zz_demo || exit 9
cd "$T" && timeout 200 ./demo

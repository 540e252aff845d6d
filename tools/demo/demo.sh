#!/bin/bash
# exit 0 when the property holds in the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/util.go.txt" "$t/util_demo_test.go"
cp "$d/demo.go.txt" "$t/demo_demo_test.go"
printf '{"Replace": {"%s/mqtt/util_demo_test.go": "%s/util_demo_test.go", "%s/mqtt/demo_demo_test.go": "%s/demo_demo_test.go"}}' "$PWD" "$t" "$PWD" "$t" > "$t/o.json"
go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run 'TestDemo$' ./mqtt

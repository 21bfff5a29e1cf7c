#!/bin/bash
# lists the harness functions for native replay
cd "$(dirname "$0")" || exit 1
{ echo "// generated by gen.sh"; echo; echo "package harness"; echo
echo "// All lists the harnesses by name."
echo "var All = map[string]func(){"
grep -hoE '^func C[0-9]{2}_[A-Za-z0-9_]+\(\)' c*.go | sed 's/^func //; s/()$//' | sort | while read -r n; do echo "	\"$n\": $n,"; done
echo "}"; } > all.go
gofmt -w all.go

#!/bin/bash
# regenerates h/all.go
cd "$(dirname "$0")/h"
{ echo 'package h'; echo; echo '// All maps harness names to functions, for native replay.'; echo 'var All = map[string]func(){'
grep -ho '^func [A-Z][A-Za-z0-9]*() {' $(ls *.go | grep -v all.go) | sed 's/^func \([A-Za-z0-9]*\).*/\t"\1": \1,/' | sort; echo '}'; } > all.go
gofmt -w all.go

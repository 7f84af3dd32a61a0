#!/bin/sh
# Regenerates cmd/replay/registry.go from the harness functions.
cd "$(dirname "$0")" || exit 1
{
echo '// Code generated by mkregistry.sh. DO NOT EDIT.'
echo
echo 'package main'
echo
echo 'import "verif/harness/props"'
echo
echo 'var registry = map[string]func(){'
grep -ho '^func \(C[0-9][0-9]_\|T[0-9][0-9]_\)[A-Za-z0-9_]*()' props/*.go | sed 's/^func \(.*\)()/\1/' | sort | while read f; do
  printf '\t"%s": props.%s,\n' "$f" "$f"
done
echo '}'
} > cmd/replay/registry.go
gofmt -w cmd/replay/registry.go

#!/bin/bash
# registers every harness of package h
cd "$(dirname "$0")/h" || exit 1
{
  echo "// Code generated by gen.sh; DO NOT EDIT."
  echo
  echo "package h"
  echo
  echo "func init() {"
  grep -ho '^func [A-Z][0-9][0-9][A-Za-z0-9_]*() {' *.go | sed 's/^func \(.*\)() {/\tAll["\1"] = \1/' | sort
  echo "}"
} > reg_gen.go

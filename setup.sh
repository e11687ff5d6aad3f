#!/bin/bash
# Nothing is compiled: check that the interpreter, the code under test and hypothesis can be imported together.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
exec ./check --selftest

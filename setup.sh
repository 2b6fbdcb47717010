#!/bin/bash
# Nothing to compile: verifies that the interpreter, the library under test and Hypothesis can be imported.
set -e
cd "$(dirname "${BASH_SOURCE[0]}")"
./check --selftest

#!/bin/bash
# nothing is installed: the engine is plain Python over the pre-installed clang 18, opt 18, z3, cvc5
set -e
cd "$(dirname "$0")"
mkdir -p evidence
clang++-18 --version >/dev/null 2>&1 || clang++ --version >/dev/null
python3-vt -c 'import z3, cvc5; import sys; sys.path.insert(0, "."); import contracts; contracts.all_contracts()'

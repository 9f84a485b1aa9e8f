#!/bin/bash
# Nothing persists between setup and the checks; this only verifies that the tools are there.
set -e
command -v python3-vt clang cargo >/dev/null
rustc +nightly --version && rustc +stable --version
python3-vt -c 'import z3; print("z3", z3.get_version_string())'

#!/bin/bash
# builds the libc shim and checks that the pieces the checks need are there
cd "$(dirname "$0")" || exit 2
env -u PYTHONPATH PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c 'import lxml, construct, Cryptodome, argon2' || exit 2
env -u PYTHONPATH PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -m kpmon.shim

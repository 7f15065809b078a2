#!/bin/bash
# Nothing to build: the framework is Python, run from the committed files against /repo.
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); import mc.core, mc.enc, mc.http, mc.fsx'

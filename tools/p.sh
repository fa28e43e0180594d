#!/bin/bash
cd "$(dirname "$0")/.." && MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore tools/prove.py "$@"

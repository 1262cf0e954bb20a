#!/bin/bash
# regenerates properties.jsonl, MANIFEST.json and the table in DESIGN.md
cd "$(dirname "$0")/.." && export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg PYTHONPATH=.:/repo
/opt/venv/bin/python tools/gen_properties.py && /opt/venv/bin/python tools/gen_manifest.py && /opt/venv/bin/python tools/gen_table.py

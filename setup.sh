#!/bin/bash
# Nothing to compile beyond the repository itself; check that the framework imports.
cd /verif && PYTHONPATH=/repo:/verif PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import mc.core, mc.zoo, tractor; print('ok')"

#!/bin/bash
# run_check.sh Cxx [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONPATH="$PWD:/repo" PYTHONHASHSEED=0
export OMP_NUM_THREADS=2 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false" TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -W ignore -m vc.main "$@"

# sourced by check.sh and replay.sh: one controlled environment for every run
PY=/opt/venv/bin/python
setup_env() {
  SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/pxsim.XXXXXX") || return 1
  trap 'rm -rf -- "$SCRATCH"' EXIT
  export SIM_SCRATCH="$SCRATCH"
  export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl"
  export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
  export PYTHONHASHSEED="${SIM_HASHSEED:-0}" PYTHONPATH="$PWD:/repo" 
  export XDG_CACHE_HOME="$SCRATCH/cache" XDG_CONFIG_HOME="$SCRATCH/config"
  unset HDF5_USE_FILE_LOCKING
  unset LD_PRELOAD
  mkdir -p "$SCRATCH/mpl" "$SCRATCH/cache/astropy" "$SCRATCH/config/astropy"
  unset SIMDISK_SO
  case "$1" in
    C11|C12|C13|C17|C18|C19)
      gcc -O1 -Wall -shared -fPIC -o "$SCRATCH/simdisk.so" sim/native/simdisk.c -ldl || return 1
      export SIMDISK_SO="$SCRATCH/simdisk.so" ;;
  esac
}
cleanup_env() { rm -rf -- "$SCRATCH"; }
run_py() { if [ -n "$SIMDISK_SO" ]; then LD_PRELOAD="$SIMDISK_SO" "$PY" -W ignore "$@"; else "$PY" -W ignore "$@"; fi; }

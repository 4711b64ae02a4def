# Environment of every check: no C compilation, one thread, the repository's working tree.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
export VERIF_REPO="${VERIF_REPO:-/repo}"
VERIF_SCRATCH="$(mktemp -d /tmp/aevc.XXXXXX)"; export VERIF_SCRATCH
export AESARA_FLAGS="compiledir=$VERIF_SCRATCH/cc,cxx=,linker=py,blas__ldflags=,mode=FAST_COMPILE"

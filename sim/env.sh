export LD_PRELOAD=/verif/.build/libsim.so PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MALLOC_ARENA_MAX=1
export _RJEM_MALLOC_CONF=background_thread:false,dirty_decay_ms:-1,muzzy_decay_ms:-1,narenas:1

export PYTHONPATH=/repo:/verif JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=/opt/vp/mplconfig

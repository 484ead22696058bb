export LC_ALL=C.UTF-8
export OMPI_CC=gcc OMPI_CXX=g++
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_ess_singleton_isolated=1
export OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_mpi_yield_when_idle=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1

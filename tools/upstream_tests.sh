#!/bin/bash
# Not part of any check: compiles and runs all of mito's own tests that need neither VTK nor MPI
# ranks (most of them are not built in this sandbox), to see that the repairs leave them passing.
# usage: upstream_tests.sh REPO OUTDIR   (writes OUTDIR/summary.txt)
R=$1; O=$2; mkdir -p $O/gen/mito
sed "s/@[A-Za-z_]*@/1/g" $R/lib/mito/version.h.in > $O/gen/mito/version.h
cd $R/tests/mito.lib
ls */*.cc | grep -v vtk | grep -v mpi | xargs -P 8 -I{} bash -c '
f={}; n=$(echo $f | tr "/" "_"); n=${n%.cc}
mkdir -p '$O'/run_$n
if g++-14 -std=c++23 -w -O0 -I/opt/pyre/include -I'$R'/lib -I'$O'/gen -include /verif/harness/compat.h -DWITH_METIS -DWITH_PETSC -DWITH_MPI -I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include -I/usr/lib/x86_64-linux-gnu/openmpi/include $f '$R'/lib/mito/matrix_solvers/backend/petsc/*.cc -lgtest -lgtest_main -L/opt/pyre/lib -lpyre -ljournal -Wl,-rpath,/opt/pyre/lib -lmetis -L/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib -lpetsc_real -lmpi_cxx -Wl,-rpath,/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib -lmpi -o '$O'/$n > '$O'/$n.log 2>&1; then
 cd '$R'/tests/input; ( timeout 120 '$O'/$n >> '$O'/$n.log 2>&1 && echo "PASS $f" || echo "FAIL $f" ); rm -f '$O'/$n
else echo "NOCOMPILE $f"; fi' | sort > $O/summary.txt

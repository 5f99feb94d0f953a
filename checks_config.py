"""What each check builds and how much it runs."""

PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
COMMON_FLAGS = ["-std=c++23", "-w", "-I/opt/pyre/include"]

VARIANTS = {
    # the library's own assertions on, lightly optimised
    "debug": dict(cxx=["-O1", "-g0"]),
    # the flags of the project's own debug build
    "O0": dict(cxx=["-O0", "-g0"], share=0.5),
    # assertions on, memory and undefined-behaviour errors are failures
    "asan": dict(cxx=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                      "-fno-sanitize=vptr,pointer-overflow"], share=0.4),
    # memory errors only (the tables of quadrature rules do not compile with -fsanitize=undefined)
    "addr": dict(cxx=["-O1", "-g1", "-fsanitize=address"], share=0.4),
    # what a release build does
    "release": dict(cxx=["-O2", "-g0", "-DNDEBUG"]),
}

LIBSETS = {
    "base": dict(cxx=[], ld=["-L/opt/pyre/lib", "-lpyre", "-ljournal", "-Wl,-rpath,/opt/pyre/lib"]),
    "metis": dict(cxx=["-DWITH_METIS"], ld=["-lmetis"]),
    "petsc": dict(
        cxx=["-DWITH_PETSC", "-DWITH_MPI", f"-I{PETSC}/include",
             "-I/usr/lib/x86_64-linux-gnu/openmpi/include"],
        ld=[f"-L{PETSC}/lib", "-lpetsc_real", f"-Wl,-rpath,{PETSC}/lib", "-lmpi"],
        repo_src=["lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc",
                  "lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc"]),
    # (the Python module is compiled into the harness, next to an interpreter)
    "python": dict(cxx=["-I/usr/include/python3.12", "-fvisibility=hidden"], ld=["-lpython3.12"]),
}

CHECKS = {}


def check(pid, src, rule, quick, thorough, variants=("debug",), **kw):
    CHECKS[pid] = dict(src=src, rule=rule, variants=list(variants),
                       tiers=dict(quick=quick, thorough=thorough), **kw)


check("U01", ["u_vector.cc"],
      rule="the history erases at least one element and later places a new one in a freed slot "
           "(long runs: more than 50000 consecutive erased elements)",
      quick=dict(cases=40000, time=20), thorough=dict(cases=2000000, time=600),
      variants=("O0", "debug", "asan", "release"))

check("U02", ["u_repository.cc"],
      rule="the history erases at least one resource and later places a new one in a freed slot",
      quick=dict(cases=40000, time=20), thorough=dict(cases=2000000, time=600),
      variants=("O0", "debug", "asan", "release"))

check("U03", ["u_pointer.cc"],
      rule="some resource is shared by several pointers and the history copies a null pointer or "
           "assigns a pointer to one that refers to the same resource (wrapper of the standard "
           "pointer: more than three pointers)",
      quick=dict(cases=40000, time=20), thorough=dict(cases=2000000, time=600),
      variants=("O0", "debug", "asan", "release"))

check("M01", ["m_permutation.cc"],
      rule="the data has at least two entries",
      quick=dict(cases=200000, time=20), thorough=dict(cases=4000000, time=300),
      variants=("debug", "asan", "release"))

check("T01", ["t_identity.cc"],
      rule="the history meets a simplex again that it has built before, and a pair of opposite "
           "simplices; with erasures: it erases a simplex and tries to erase one that is in use",
      quick=dict(cases=60000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("T02", ["t_chains.cc"],
      rule="one of the simplices under examination is oriented against its footprint (segments: "
           "the two segments follow each other)",
      quick=dict(cases=30000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("T04", ["t_flip.cc"],
      rule="every case: two triangles with a common edge, after a random history of the factory",
      quick=dict(cases=80000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("T03", ["t_erase.cc"],
      rule="the history erases at least one simplex and tries to erase at least one that is in use",
      quick=dict(cases=30000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("A01", ["a_forms.cc"], cxx=["-DPBT_A01"],
      rule="some of the forms take a value other than zero",
      quick=dict(cases=200000, time=20), thorough=dict(cases=4000000, time=600),
      variants=("debug", "release"))

check("A02", ["a_forms.cc"],
      rule="some of the forms take a value other than zero",
      quick=dict(cases=200000, time=20), thorough=dict(cases=4000000, time=600),
      variants=("debug", "release"))

check("H01", ["h_materials.cc"],
      rule="Gent: the volume changes, or the rotation is not the identity; linear elastic: every "
           "state; consistency test: the stress or the tangents are off",
      quick=dict(cases=60000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("F01", ["f_functions.cc"],
      gen=dict(script="gen_functions.py", args=["--mode", "values", "--shapes", "70"]),
      rule="the generated function takes a value other than zero",
      quick=dict(cases=60000, time=10, batches=8),
      thorough=dict(cases=300000, time=20, batches=24, variants=("debug", "release")),
      variants=("debug",))

check("F02", ["f_functions.cc"], cxx=["-DPBT_DERIVATIVES"],
      gen=dict(script="gen_functions.py", args=["--mode", "derivatives", "--shapes", "60"]),
      rule="the generated function or one of its derivatives takes a value other than zero",
      quick=dict(cases=60000, time=10, batches=8),
      thorough=dict(cases=300000, time=20, batches=24, variants=("debug", "release")),
      variants=("debug",))

check("D01", ["f_functions.cc"], cxx=["-DPBT_FIELDS"],
      gen=dict(script="gen_functions.py", args=["--mode", "fields", "--shapes", "36"]),
      rule="the generated field or one of its derivatives takes a value other than zero",
      quick=dict(cases=60000, time=10, batches=8),
      thorough=dict(cases=300000, time=20, batches=24, variants=("debug", "release")),
      variants=("debug",))

check("G01", ["g_coordinates.cc"],
      rule="algebra: the two points differ; systems: more than one point; otherwise every case",
      quick=dict(cases=180000, time=20), thorough=dict(cases=4000000, time=600),
      variants=("debug", "asan", "release"))

check("G02", ["g_metric.cc"],
      rule="every case: a point away from the singularities of the coordinates, vectors and forms there",
      quick=dict(cases=180000, time=20), thorough=dict(cases=4000000, time=600),
      variants=("debug", "release"))

check("B01", ["b_boundary.cc"],
      rule="the mesh has at least two cells (any cells: and some cell was erased)",
      quick=dict(cases=20000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "asan", "release"))

check("B02", ["b_boundary.cc"], cxx=["-DPBT_B02"],
      rule="the mesh has at least two cells (any cells: and some cell was erased)",
      quick=dict(cases=40000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "asan", "release"))

check("G03", ["g_cells.cc"],
      rule="every case: a cell among some others on its nodes",
      quick=dict(cases=300000, time=20), thorough=dict(cases=2000000, time=600),
      variants=("debug", "asan", "release"))

check("B03", ["b_tetra.cc"],
      rule="a mesh with a cell that is refined at least once",
      quick=dict(cases=40000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "asan", "release"))

check("B04", ["b_metis.cc"], libs="metis",
      rule="there is more than one partition",
      quick=dict(cases=20000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "asan", "release"))

check("B05", ["b_summit.cc"],
      rule="the mesh has at least two cells",
      quick=dict(cases=30000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "asan", "release"))

check("Q01", ["q_integrals.cc"],
      rule="some cell has a volume other than zero",
      quick=dict(cases=120000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("Q02", ["q_integrals.cc"], cxx=["-DPBT_Q02"],
      rule="the integral is not zero and the integrand is not constant (rules: every case)",
      quick=dict(cases=400000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "release"))

check("Q03", ["q_integrals.cc"], cxx=["-DPBT_Q03"],
      rule="every case: a field of degree two on a mesh of a random parallelepiped",
      quick=dict(cases=120000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "release"))

check("R01", ["r_fields.cc"],
      rule="the field has at least two entries and some were written to (fields made from meshes: "
           "at least two cells; from clouds: at least two points of the case)",
      quick=dict(cases=80000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "asan", "release"))

check("E01", ["e_elements.cc"],
      rule="the interpolated field is not zero",
      quick=dict(cases=160000, time=20), thorough=dict(cases=1000000, time=600),
      variants=("debug", "release"))

check("E02", ["e_elements.cc"], cxx=["-DPBT_E02"],
      rule="the source is not constant",
      quick=dict(cases=80000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "release"))

check("E03", ["e_space.cc"],
      rule="the constraint fixes some nodes and leaves some free",
      quick=dict(cases=100000, time=20), thorough=dict(cases=600000, time=600),
      variants=("debug", "asan", "release"))

check("E04", ["e_space.cc"], cxx=["-DPBT_E04"],
      rule="assembly: more than one equation, with terms on both sides; solution: more than one "
           "equation and a source that is not zero",
      quick=dict(cases=80000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "release"))

check("E05", ["e_space.cc"], cxx=["-DPBT_E05"],
      rule="the distance is not zero (distances that have to be zero: every case)",
      quick=dict(cases=80000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "release"))

check("S01", ["s_petsc.cc"], libs="petsc",
      rule="at least two solutions of systems with different values (under a discrete system: more "
           "than one equation)",
      quick=dict(cases=20000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "release"))

check("V01", ["v_vtk.cc"], cxx=["-DWITH_VTK", "-DWITH_PARALLEL_VTK", "-I{harness}/fakevtk"],
      rule="more than one cell (point) and at least one field; parallel: more than one process",
      quick=dict(cases=60000, time=20), thorough=dict(cases=400000, time=600),
      variants=("debug", "asan", "release"))

check("P01", ["p_python.cc"], libs="python",
      rule="coordinates: every case; fields: more than one; integrals: a handle was dropped, and an "
           "integral over at least one cell was taken",
      quick=dict(cases=20000, time=12), thorough=dict(cases=400000, time=600),
      variants=("debug", "addr"))

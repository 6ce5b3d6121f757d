// PETSc routines that change an object shared by the threads of a team: to the race detector, each call is a write of the object.
#include "../sim/sim.h"
#include <petscmat.h>
#include <dlfcn.h>
#define REAL(name) static decltype(&name) real = (decltype(&name))dlsym(RTLD_NEXT, #name); if (sim::running() && sim::omp_live()) sim::object_write(obj, __builtin_return_address(0));
extern "C" {
PetscErrorCode MatSetValues(Mat obj, PetscInt m, const PetscInt i[], PetscInt n, const PetscInt j[], const PetscScalar v[], InsertMode k) { REAL(MatSetValues) return real(obj, m, i, n, j, v, k); }
PetscErrorCode MatSetValuesBlocked(Mat obj, PetscInt m, const PetscInt i[], PetscInt n, const PetscInt j[], const PetscScalar v[], InsertMode k) { REAL(MatSetValuesBlocked) return real(obj, m, i, n, j, v, k); }
PetscErrorCode MatSetValuesLocal(Mat obj, PetscInt m, const PetscInt i[], PetscInt n, const PetscInt j[], const PetscScalar v[], InsertMode k) { REAL(MatSetValuesLocal) return real(obj, m, i, n, j, v, k); }
PetscErrorCode MatSetValuesBlockedLocal(Mat obj, PetscInt m, const PetscInt i[], PetscInt n, const PetscInt j[], const PetscScalar v[], InsertMode k) { REAL(MatSetValuesBlockedLocal) return real(obj, m, i, n, j, v, k); }
PetscErrorCode VecSetValues(Vec obj, PetscInt n, const PetscInt i[], const PetscScalar v[], InsertMode k) { REAL(VecSetValues) return real(obj, n, i, v, k); }
PetscErrorCode VecSetValuesBlocked(Vec obj, PetscInt n, const PetscInt i[], const PetscScalar v[], InsertMode k) { REAL(VecSetValuesBlocked) return real(obj, n, i, v, k); }
}

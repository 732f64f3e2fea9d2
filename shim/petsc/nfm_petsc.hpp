// Monitoring stand-in for the part of PETSc the library uses (PETSc is not installed here): sequential and
// "Kokkos" (device) vectors and matrices assembled from coordinate lists, and a Krylov solver object which solves
// exactly. State rules of the interface are monitored, everything handed over is recorded in NFM::petsc().
#pragma once
#include <Kokkos_Core.hpp>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include "../sparse_direct.hpp"

using PetscInt = int;
using PetscCount = std::ptrdiff_t;
using PetscScalar = double;
using PetscReal = double;
using PetscErrorCode = int;
using PetscBool = bool;
enum InsertMode { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES };
using PetscComm = int;
inline constexpr PetscComm PETSC_COMM_WORLD = 1, PETSC_COMM_SELF = 2;
inline constexpr PetscInt PETSC_DECIDE = -1;
inline constexpr PetscReal PETSC_DEFAULT = -2.0;
using VecType = const char*;
using MatType = const char*;
#define VECSEQ "seq"
#define VECKOKKOS "kokkos"
#define VECSTANDARD "standard"
#define MATSEQAIJ "seqaij"
#define MATAIJ "aij"
#define MATAIJKOKKOS "aijkokkos"
#define PETSC_SUCCESS 0
#define PetscCallVoid(...)                                                                         \
    do                                                                                             \
    {                                                                                              \
        if ((__VA_ARGS__) != 0) return;                                                            \
    } while (0)
#define PetscCallAbort(comm, ...)                                                                  \
    do                                                                                             \
    {                                                                                              \
        if ((__VA_ARGS__) != 0) std::abort();                                                      \
    } while (0)

namespace NFM
{
struct PetscObj
{
    int refs = 1;
    PetscComm comm = 0;
    std::string type;
};
struct PetscVec : PetscObj
{
    PetscInt n = -1;
    std::vector<double> v;
    std::vector<double> out; // what VecGetArray hands out (a block of its own, so that late use is noticed)
    double* handed = nullptr;
    bool device() const { return type == VECKOKKOS; }
    bool coo = false;
    std::vector<PetscInt> ci;
};
struct PetscMat : PetscObj
{
    PetscInt m = -1, n = -1;
    bool coo = false;
    std::vector<PetscInt> ci, cj;
    Sparse a;
    bool device() const { return type == MATAIJKOKKOS; }
};
struct PetscKsp : PetscObj
{
    PetscMat* A = nullptr;
    bool fromOptions = false;
};
struct PetscEvent
{
    Sparse matrix;
    std::vector<double> rhs, solution;
    bool device = false;
};
struct PetscState
{
    bool initialised = false;
    std::set<PetscObj*> live;
    std::vector<PetscEvent> log;
    std::size_t getArrays = 0, restored = 0;
};
inline PetscState& petsc()
{
    static PetscState s;
    return s;
}
inline void petscNeed(bool ok, const char* f, const std::string& m)
{
    if (!ok) violation(std::string(f) + ": " + m);
}
template<typename T>
T* petscObj(T* p, const char* f)
{
    petscNeed(petsc().initialised, f, "PETSc is not initialised");
    petscNeed(p && petsc().live.count(p), f, "not a live object");
    return p;
}
template<typename T>
int petscCreate(PetscComm c, T** p, const char* f)
{
    petscNeed(petsc().initialised, f, "PETSc is not initialised");
    petscNeed(c == PETSC_COMM_SELF || c == PETSC_COMM_WORLD, f, "no communicator");
    *p = new T;
    (*p)->comm = c;
    petsc().live.insert(*p);
    return 0;
}
template<typename T>
void petscUnref(T*& p, const char* f)
{
    if (!p) return;
    petscNeed(petsc().live.count(p), f, "not a live object");
    if (--p->refs == 0)
    {
        petsc().live.erase(p);
        if constexpr (requires { p->A; }) petscUnref(p->A, f);
        delete p;
    }
    p = nullptr;
}
inline std::vector<double> petscRead(const double* p, std::size_t n, bool deviceObject, const char* f)
{
    std::vector<double> v(n);
    if (!n) return v;
    int o = owner(p);
    if (o == -1) o = 0;
    petscNeed(o == 0 || deviceObject, f, "values in device memory handed to a host object");
    sync();
    copyMemory(v.data(), 0, p, o, n * sizeof(double));
    return v;
}
} // namespace NFM
using Vec = NFM::PetscVec*;
using Mat = NFM::PetscMat*;
using KSP = NFM::PetscKsp*;

inline PetscErrorCode PetscInitialize(int*, char***, const char*, const char*)
{
    NFM::petsc().initialised = true;
    return 0;
}
inline PetscErrorCode PetscInitializeNoArguments() { return PetscInitialize(nullptr, nullptr, nullptr, nullptr); }
inline PetscErrorCode PetscInitialized(PetscBool* b)
{
    *b = NFM::petsc().initialised;
    return 0;
}
inline PetscErrorCode PetscFinalize()
{
    NFM::petscNeed(NFM::petsc().initialised, __func__, "PETSc is not initialised");
    NFM::petsc().initialised = false;
    return 0;
}
// ------------------------------------------------------------------------------------- vectors
inline PetscErrorCode VecCreate(PetscComm c, Vec* v) { return NFM::petscCreate(c, v, __func__); }
inline PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N)
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(n >= 0 || N >= 0, __func__, "neither local nor global size");
    v->n = N >= 0 ? N : n;
    return 0;
}
inline PetscErrorCode VecSetType(Vec v, VecType t)
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(v->n >= 0, __func__, "type set before the sizes");
    v->type = t;
    v->v.assign((std::size_t)v->n, 0.0);
    return 0;
}
inline PetscErrorCode VecDuplicate(Vec v, Vec* w)
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(!v->type.empty(), __func__, "vector without type");
    VecCreate(v->comm, w);
    VecSetSizes(*w, PETSC_DECIDE, v->n);
    return VecSetType(*w, v->type.c_str());
}
inline PetscErrorCode VecSet(Vec v, PetscScalar x)
{
    NFM::petscObj(v, __func__);
    std::fill(v->v.begin(), v->v.end(), x);
    return 0;
}
inline PetscErrorCode VecGetSize(Vec v, PetscInt* n)
{
    *n = NFM::petscObj(v, __func__)->n;
    return 0;
}
inline PetscErrorCode VecSetPreallocationCOO(Vec v, PetscCount n, const PetscInt i[])
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(!v->type.empty(), __func__, "vector without type");
    v->ci.assign(i, i + n);
    for (auto k : v->ci) NFM::petscNeed(k < v->n, __func__, "index " + std::to_string(k) + " in a vector of size " + std::to_string(v->n));
    v->coo = true;
    return 0;
}
inline PetscErrorCode VecSetValuesCOO(Vec v, const PetscScalar x[], InsertMode mode)
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(v->coo, __func__, "no preallocation");
    auto h = NFM::petscRead(x, v->ci.size(), v->device(), __func__);
    if (mode == INSERT_VALUES) std::fill(v->v.begin(), v->v.end(), 0.0);
    for (std::size_t k = 0; k < h.size(); ++k)
        if (v->ci[k] >= 0) v->v[(std::size_t)v->ci[k]] += h[k];
    return 0;
}
inline PetscErrorCode VecGetArray(Vec v, PetscScalar** p)
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(!v->handed, __func__, "array already handed out for writing");
    v->out = v->v;
    v->handed = v->out.data();
    *p = v->handed;
    ++NFM::petsc().getArrays;
    return 0;
}
inline PetscErrorCode VecRestoreArray(Vec v, PetscScalar** p)
{
    NFM::petscObj(v, __func__);
    NFM::petscNeed(!p || *p == v->handed, __func__, "not the array handed out");
    v->v = v->out;
    std::vector<double>().swap(v->out);
    v->handed = nullptr;
    if (p) *p = nullptr;
    ++NFM::petsc().restored;
    return 0;
}
inline PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** p)
{
    PetscScalar* q = nullptr;
    VecGetArray(v, &q);
    *p = q;
    return 0;
}
inline PetscErrorCode VecRestoreArrayRead(Vec v, const PetscScalar** p)
{
    auto* q = const_cast<PetscScalar*>(*p);
    VecRestoreArray(v, &q);
    *p = nullptr;
    return 0;
}
inline PetscErrorCode VecDestroy(Vec* v)
{
    NFM::petscUnref(*v, __func__);
    return 0;
}
// ------------------------------------------------------------------------------------- matrices
inline PetscErrorCode MatCreate(PetscComm c, Mat* m) { return NFM::petscCreate(c, m, __func__); }
inline PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N)
{
    NFM::petscObj(A, __func__);
    NFM::petscNeed((m >= 0 || M >= 0) && (n >= 0 || N >= 0), __func__, "neither local nor global size");
    A->m = M >= 0 ? M : m;
    A->n = N >= 0 ? N : n;
    return 0;
}
inline PetscErrorCode MatSetType(Mat A, MatType t)
{
    NFM::petscObj(A, __func__)->type = t;
    return 0;
}
inline PetscErrorCode MatSetPreallocationCOO(Mat A, PetscCount n, PetscInt i[], PetscInt j[])
{
    NFM::petscObj(A, __func__);
    NFM::petscNeed(A->m >= 0 && !A->type.empty(), __func__, "matrix without sizes or type");
    A->ci.assign(i, i + n);
    A->cj.assign(j, j + n);
    for (PetscCount k = 0; k < n; ++k)
        NFM::petscNeed(i[k] < A->m && j[k] < A->n, __func__, "entry (" + std::to_string(i[k]) + "," + std::to_string(j[k]) + ") in a matrix of " + std::to_string(A->m) + " x " + std::to_string(A->n));
    // (the lists belong to PETSc afterwards and may be changed)
    for (PetscCount k = 0; k < n; ++k) i[k] = j[k] = -77;
    A->a = {};
    A->a.nRows = (std::size_t)A->m;
    A->a.nCols = (std::size_t)A->n;
    for (PetscCount k = 0; k < n; ++k)
        if (A->ci[(std::size_t)k] >= 0 && A->cj[(std::size_t)k] >= 0) A->a.a[{(std::size_t)A->ci[(std::size_t)k], (std::size_t)A->cj[(std::size_t)k]}] = 0.0;
    A->a.stored = (std::size_t)n;
    A->coo = true;
    return 0;
}
inline PetscErrorCode MatSetValuesCOO(Mat A, const PetscScalar v[], InsertMode mode)
{
    NFM::petscObj(A, __func__);
    NFM::petscNeed(A->coo, __func__, "no preallocation");
    auto h = NFM::petscRead(v, A->ci.size(), A->device(), __func__);
    if (mode == INSERT_VALUES)
        for (auto& [k, x] : A->a.a) x = 0.0;
    for (std::size_t k = 0; k < h.size(); ++k)
        if (A->ci[k] >= 0 && A->cj[k] >= 0) A->a.a[{(std::size_t)A->ci[k], (std::size_t)A->cj[k]}] += h[k];
    return 0;
}
inline PetscErrorCode MatDestroy(Mat* A)
{
    NFM::petscUnref(*A, __func__);
    return 0;
}
// ------------------------------------------------------------------------------------- solver
inline PetscErrorCode KSPCreate(PetscComm c, KSP* k) { return NFM::petscCreate(c, k, __func__); }
inline PetscErrorCode KSPSetFromOptions(KSP k)
{
    NFM::petscObj(k, __func__)->fromOptions = true;
    return 0;
}
inline PetscErrorCode KSPSetUp(KSP k)
{
    NFM::petscObj(k, __func__);
    return 0;
}
inline PetscErrorCode KSPSetTolerances(KSP k, PetscReal, PetscReal, PetscReal, PetscInt)
{
    NFM::petscObj(k, __func__);
    return 0;
}
inline PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat P)
{
    NFM::petscObj(k, __func__);
    NFM::petscObj(A, __func__);
    NFM::petscObj(P, __func__);
    ++A->refs;
    NFM::petscUnref(k->A, __func__);
    k->A = A;
    return 0;
}
inline PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    NFM::petscObj(k, __func__);
    NFM::petscObj(b, __func__);
    NFM::petscObj(x, __func__);
    NFM::petscNeed(k->A, __func__, "no operators");
    NFM::petscNeed(b != x, __func__, "solution and right-hand side are the same vector");
    NFM::petscNeed(!b->handed && !x->handed, __func__, "an array of an operand was handed out and not returned");
    NFM::petscNeed(k->A->m == b->n && k->A->n == x->n, __func__, "sizes of the operands differ from the matrix");
    NFM::petscNeed(k->A->device() == b->device() && b->device() == x->device(), __func__, "operands of host and device type mixed");
    NFM::PetscEvent e;
    e.matrix = k->A->a;
    e.rhs = b->v;
    e.device = b->device();
    if (!e.matrix.solve(b->v, e.solution)) return 91;
    x->v = e.solution;
    NFM::petsc().log.push_back(std::move(e));
    return 0;
}
inline PetscErrorCode KSPDestroy(KSP* k)
{
    NFM::petscUnref(*k, __func__);
    return 0;
}

#pragma once
#include <cmath>
#include <sundials/sundials_core.hpp>

enum ARKODE_ERKTableID
{
    ARKODE_ERK_NONE = -1,
    ARKODE_HEUN_EULER_2_1_2 = 0,
    ARKODE_FORWARD_EULER_1_1 = 15,
    ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 = 18
};
constexpr int ARK_NORMAL = 1, ARK_ONE_STEP = 2;
constexpr int ARK_SUCCESS = 0, ARK_RHSFUNC_FAIL = -8, ARK_MEM_NULL = -21, ARK_ILL_INPUT = -22;
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
struct NfmArk
{
    std::uint64_t magic = 0xA4Full;
    ARKRhsFn f;
    double tn, h = 0;
    N_Vector yn, fn;
    void* user = nullptr;
    ARKODE_ERKTableID table = ARKODE_ERK_NONE;
    SUNContext ctx;
};
inline NfmArk* nfmArk(void* m) { return static_cast<NfmArk*>(m); }
inline void* ERKStepCreate(ARKRhsFn f, sunrealtype t0, N_Vector y0, SUNContext ctx)
{
    if (!f || !y0 || !ctx) return nullptr;
    auto* a = new NfmArk;
    a->f = f;
    a->tn = t0;
    a->ctx = ctx;
    a->yn = y0->ops->clone(y0);
    a->fn = y0->ops->clone(y0);
    y0->ops->linearSum(1, y0, 0, y0, a->yn);
    NfmSundials::get().arks++;
    return a;
}
inline void ARKodeFree(void** m)
{
    if (!m || !*m) return;
    auto* a = nfmArk(*m);
    a->yn->ops->destroy(a->yn);
    a->fn->ops->destroy(a->fn);
    delete a;
    *m = nullptr;
    NfmSundials::get().arks--;
}
inline int ERKStepSetTableNum(void* m, ARKODE_ERKTableID t)
{
    if (!m) return ARK_MEM_NULL;
    nfmArk(m)->table = t;
    return ARK_SUCCESS;
}
inline int ARKodeSetUserData(void* m, void* u)
{
    if (!m) return ARK_MEM_NULL;
    nfmArk(m)->user = u;
    return ARK_SUCCESS;
}
inline int ARKodeSStolerances(void* m, sunrealtype, sunrealtype) { return m ? ARK_SUCCESS : ARK_MEM_NULL; }
inline int ARKodeSetFixedStep(void* m, sunrealtype h)
{
    if (!m) return ARK_MEM_NULL;
    nfmArk(m)->h = h;
    return ARK_SUCCESS;
}
inline int ARKodeGetCurrentTime(void* m, sunrealtype* t)
{
    if (!m) return ARK_MEM_NULL;
    *t = nfmArk(m)->tn;
    return ARK_SUCCESS;
}
inline int ARKodeReset(void* m, sunrealtype t, N_Vector y)
{
    if (!m) return ARK_MEM_NULL;
    auto* a = nfmArk(m);
    a->tn = t;
    y->ops->linearSum(1, y, 0, y, a->yn);
    return ARK_SUCCESS;
}
inline int ARKodeEvolve(void* m, sunrealtype tout, N_Vector yout, sunrealtype* tret, int task)
{
    if (!m) return ARK_MEM_NULL;
    auto* a = nfmArk(m);
    if (a->table != ARKODE_FORWARD_EULER_1_1 || task != ARK_ONE_STEP || a->h == 0 || !yout) return ARK_ILL_INPUT;
    if ((tout - a->tn) * a->h <= 0) return ARK_ILL_INPUT;
    NfmSundials::get().rhs++;
    if (a->f(a->tn, a->yn, a->fn, a->user)) return ARK_RHSFUNC_FAIL;
    yout->ops->linearSum(1, a->yn, a->h, a->fn, yout);
    yout->ops->linearSum(1, yout, 0, yout, a->yn);
    a->tn += a->h;
    // as ARKODE does, end on the requested time when within rounding of it
    if (std::fabs(a->tn - tout) <= 100 * 2.220446049250313e-16 * (std::fabs(a->tn) + std::fabs(a->h))) a->tn = tout;
    *tret = a->tn;
    NfmSundials::get().steps++;
    return ARK_SUCCESS;
}

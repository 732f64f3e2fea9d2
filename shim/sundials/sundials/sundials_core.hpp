// A small stand-in for the part of SUNDIALS the library uses: contexts, N_Vectors over Kokkos views and
// ERKStep with fixed steps. It follows the documented behaviour of ARKODE: the integrator keeps a copy of
// the state it was created with, yout is output only, and time advances by the fixed step.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>

using sunrealtype = double;
using sunindextype = std::int64_t;
using SUNErrCode = int;
using SUNComm = int;
constexpr SUNComm SUN_COMM_NULL = 0;

// live objects, for the harness
struct NfmSundials
{
    long contexts = 0, arks = 0, vectors = 0, steps = 0, rhs = 0;
    static NfmSundials& get()
    {
        static NfmSundials s;
        return s;
    }
    [[noreturn]] static void bad(const char* what)
    {
        std::fprintf(stderr, "NFM-VIOLATION: SUNDIALS: %s\n", what);
        std::fflush(nullptr);
        std::_Exit(66);
    }
};

struct SUNContext_
{
    std::uint64_t magic = 0xC0117E87ull;
};
using SUNContext = SUNContext_*;
inline SUNErrCode SUNContext_Create(SUNComm, SUNContext* out)
{
    *out = new SUNContext_;
    NfmSundials::get().contexts++;
    return 0;
}
inline SUNErrCode SUNContext_Free(SUNContext* ctx)
{
    if (!ctx || !*ctx) return 0;
    delete *ctx;
    *ctx = nullptr;
    NfmSundials::get().contexts--;
    return 0;
}

struct _generic_N_Vector;
using N_Vector = _generic_N_Vector*;
struct NfmVectorOps
{
    int space;
    N_Vector (*clone)(N_Vector);
    void (*destroy)(N_Vector);
    void (*linearSum)(double, N_Vector, double, N_Vector, N_Vector);
    double* (*pointer)(N_Vector);
    sunindextype (*length)(N_Vector);
};
struct _generic_N_Vector
{
    void* content = nullptr;
    const NfmVectorOps* ops = nullptr;
    SUNContext sunctx = nullptr;
};
inline sunrealtype* N_VGetArrayPointer(N_Vector v) { return v->ops->pointer(v); }
inline sunindextype N_VGetLength(N_Vector v) { return v->ops->length(v); }

namespace sundials::kokkos
{
template<class Exec>
class Vector
{
public:

    using view_type = Kokkos::View<sunrealtype*, typename Exec::memory_space>;
    Vector() = default;
    Vector(std::size_t n, SUNContext ctx) : view_("Vector", n)
    {
        if (!ctx || ctx->magic != 0xC0117E87ull) NfmSundials::bad("a vector created without a context");
        make(ctx);
    }
    // as in SUNDIALS, a copy has a view of its own
    Vector(const Vector& o)
    {
        if (!o.nv_) return;
        view_ = view_type("Vector", o.view_.extent(0));
        make(o.nv_->sunctx);
    }
    Vector(Vector&& o) noexcept : view_(std::move(o.view_)), nv_(std::move(o.nv_)) { bind(); }
    Vector& operator=(Vector&& o) noexcept
    {
        view_ = std::move(o.view_);
        nv_ = std::move(o.nv_);
        bind();
        return *this;
    }
    Vector& operator=(const Vector& o)
    {
        Vector c(o);
        return *this = std::move(c);
    }
    operator N_Vector() { return nv_.get(); }
    operator N_Vector() const { return nv_.get(); }
    view_type View() const { return view_; }
    static const NfmVectorOps& opsTable()
    {
        static const NfmVectorOps o {
            std::is_same_v<Exec, Kokkos::Serial> ? 0 : std::is_same_v<Exec, Kokkos::DefaultHostExecutionSpace> ? 1 : 2,
            [](N_Vector v) -> N_Vector { return *new Vector(*static_cast<Vector*>(v->content)); },
            [](N_Vector v) { delete static_cast<Vector*>(v->content); },
            [](double a, N_Vector x, double b, N_Vector y, N_Vector z)
            {
                auto vx = static_cast<Vector*>(x->content)->view_, vy = static_cast<Vector*>(y->content)->view_, vz = static_cast<Vector*>(z->content)->view_;
                if (vx.extent(0) != vz.extent(0) || vy.extent(0) != vz.extent(0)) NfmSundials::bad("vectors of different sizes combined");
                Kokkos::parallel_for("N_VLinearSum", Kokkos::RangePolicy<Exec>(0, vz.extent(0)), [=](const std::size_t i) { vz(i) = a * vx(i) + b * vy(i); });
            },
            [](N_Vector v) -> double* { return static_cast<Vector*>(v->content)->view_.data(); },
            [](N_Vector v) -> sunindextype { return (sunindextype)static_cast<Vector*>(v->content)->view_.extent(0); }
        };
        return o;
    }

private:

    void make(SUNContext ctx)
    {
        nv_.reset(new _generic_N_Vector {this, &opsTable(), ctx});
        NfmSundials::get().vectors++;
    }
    void bind()
    {
        if (nv_) nv_->content = this;
    }
    struct Del
    {
        void operator()(_generic_N_Vector* v) const
        {
            NfmSundials::get().vectors--;
            delete v;
        }
    };
    view_type view_;
    std::unique_ptr<_generic_N_Vector, Del> nv_;
};
template<class V>
V* GetVec(N_Vector v)
{
    if (!v) NfmSundials::bad("no vector given");
    if (v->ops != &V::opsTable()) NfmSundials::bad("a vector used in a memory space which is not its own");
    return static_cast<V*>(v->content);
}
} // namespace sundials::kokkos

// Monitoring stand-in for the part of Ginkgo the library uses (Ginkgo is not installed here): executors with
// their memory, array views, CSR and dense matrices, configuration nodes and a configured solver. The solver is
// exact (sparse elimination). Everything handed over is recorded in gko::Log.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdint>
#include <map>
#include <memory>
#include <span>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "../../sparse_direct.hpp"

namespace gko
{
using size_type = std::size_t;
using int32 = std::int32_t;
using int64 = std::int64_t;

class Error : public std::exception
{
public:
    Error(const std::string& file, int line, const std::string& what) : what_(file + ":" + std::to_string(line) + ": " + what) {}
    const char* what() const noexcept override { return what_.c_str(); }

private:
    std::string what_;
};

// ------------------------------------------------------------------------------------- executors
class Executor : public std::enable_shared_from_this<Executor>
{
public:
    virtual ~Executor() = default;
    virtual int mem() const { return 0; }
    virtual const char* kind() const = 0;
    std::shared_ptr<const Executor> get_master() const { return shared_from_this(); }
    std::shared_ptr<Executor> get_master() { return shared_from_this(); }
    void synchronize() const { Kokkos::fence(); }
    template<typename T>
    T* alloc(size_type n) const
    {
        return static_cast<T*>(NFM::alloc((NFM::Mem)mem(), n * sizeof(T), "ginkgo"));
    }
    void free(void* p) const noexcept
    {
        if (p) NFM::release((NFM::Mem)mem(), p);
    }
};
class ReferenceExecutor : public Executor
{
public:
    static std::shared_ptr<ReferenceExecutor> create() { return std::make_shared<ReferenceExecutor>(); }
    const char* kind() const override { return "reference"; }
};
class OmpExecutor : public Executor
{
public:
    static std::shared_ptr<OmpExecutor> create() { return std::make_shared<OmpExecutor>(); }
    const char* kind() const override { return "omp"; }
};
class DeviceExecutor : public Executor
{
public:
    int mem() const override { return 1; }
};
class CudaExecutor : public DeviceExecutor
{
public:
    static std::shared_ptr<CudaExecutor> create(int device, std::shared_ptr<Executor> master)
    {
        if (!master || master->mem() != 0) throw Error(__FILE__, __LINE__, "the master of a device executor is a host executor");
        if (device != Kokkos::device_id()) throw Error(__FILE__, __LINE__, "no such device");
        return std::make_shared<CudaExecutor>();
    }
    const char* kind() const override { return "cuda"; }
};
class HipExecutor : public DeviceExecutor
{
public:
    static std::shared_ptr<HipExecutor> create(int, std::shared_ptr<Executor>) { return std::make_shared<HipExecutor>(); }
    const char* kind() const override { return "hip"; }
};

// ------------------------------------------------------------------------------------- arrays
template<typename T>
class array
{
public:
    using value_type = T;
    array() = default;
    explicit array(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    array(std::shared_ptr<const Executor> e, size_type n) : exec_(std::move(e)), n_(n) { own(); }
    static array view(std::shared_ptr<const Executor> e, size_type n, T* p)
    {
        array a(std::move(e));
        a.n_ = n;
        a.p_ = p;
        a.view_ = true;
        return a;
    }
    // copies own their data, moves keep what they are
    array(const array& o) : exec_(o.exec_), n_(o.n_)
    {
        own();
        copy(o);
    }
    array(std::shared_ptr<const Executor> e, const array& o) : exec_(std::move(e)), n_(o.n_)
    {
        own();
        copy(o);
    }
    array(array&& o) noexcept : exec_(o.exec_), p_(std::exchange(o.p_, nullptr)), n_(std::exchange(o.n_, 0)), view_(std::exchange(o.view_, false)) {}
    array(std::shared_ptr<const Executor> e, array&& o) : exec_(e)
    {
        if (o.exec_ == e)
        {
            p_ = std::exchange(o.p_, nullptr);
            n_ = std::exchange(o.n_, 0);
            view_ = std::exchange(o.view_, false);
        }
        else
        {
            n_ = o.n_;
            own();
            copy(o);
        }
    }
    array& operator=(const array& o)
    {
        if (this == &o) return *this;
        if (!exec_) exec_ = o.exec_;
        if (view_)
        {
            if (o.n_ > n_) throw Error(__FILE__, __LINE__, "assignment to a view which is too small");
        }
        else
        {
            drop();
            n_ = o.n_;
            own();
        }
        copy(o);
        return *this;
    }
    array& operator=(array&& o)
    {
        if (this == &o) return *this;
        if (!exec_) exec_ = o.exec_;
        if (!view_ && exec_ == o.exec_)
        {
            drop();
            p_ = std::exchange(o.p_, nullptr);
            n_ = std::exchange(o.n_, 0);
            view_ = std::exchange(o.view_, false);
            return *this;
        }
        return *this = static_cast<const array&>(o);
    }
    ~array() { drop(); }

    T* get_data() noexcept { return p_; }
    const T* get_const_data() const noexcept { return p_; }
    size_type get_size() const noexcept { return n_; }
    size_type get_num_elems() const noexcept { return n_; }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }
    bool is_owning() const { return !view_; }
    std::vector<T> host() const
    {
        std::vector<T> v(n_);
        NFM::sync();
        if (n_) NFM::copyMemory(v.data(), 0, p_, exec_->mem(), n_ * sizeof(T));
        return v;
    }
    void store(const std::vector<T>& v)
    {
        NFM::sync();
        if (n_) NFM::copyMemory(p_, exec_->mem(), v.data(), 0, n_ * sizeof(T));
    }
    static auto const_view(std::shared_ptr<const Executor> e, size_type n, const T* p);

private:
    void own() { p_ = n_ ? exec_->template alloc<T>(n_) : nullptr; }
    void drop()
    {
        if (!view_ && p_) exec_->free(p_);
        p_ = nullptr;
    }
    void copy(const array& o)
    {
        NFM::sync();
        if (o.n_) NFM::copyMemory(p_, exec_->mem(), o.p_, o.exec_->mem(), o.n_ * sizeof(T));
    }
    std::shared_ptr<const Executor> exec_;
    T* p_ = nullptr;
    size_type n_ = 0;
    bool view_ = false;
};
namespace detail
{
template<typename T>
class const_array_view
{
public:
    const_array_view(std::shared_ptr<const Executor> e, size_type n, const T* p) : exec_(std::move(e)), n_(n), p_(p) {}
    size_type get_size() const noexcept { return n_; }
    const T* get_const_data() const noexcept { return p_; }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }
    array<T> copy_to_array() const
    {
        auto v = array<T>::view(exec_, n_, const_cast<T*>(p_));
        return array<T>(v);
    }

private:
    std::shared_ptr<const Executor> exec_;
    size_type n_;
    const T* p_;
};
} // namespace detail
template<typename T>
auto array<T>::const_view(std::shared_ptr<const Executor> e, size_type n, const T* p)
{
    return detail::const_array_view<T>(std::move(e), n, p);
}
template<typename T>
array<T> make_array_view(std::shared_ptr<const Executor> e, size_type n, T* p)
{
    return array<T>::view(std::move(e), n, p);
}
template<typename T>
detail::const_array_view<T> make_const_array_view(std::shared_ptr<const Executor> e, size_type n, const T* p)
{
    return {std::move(e), n, p};
}

template<size_type D>
struct dim
{
    size_type d[D] {};
    constexpr dim() = default;
    constexpr explicit dim(size_type n)
    {
        for (auto& x : d) x = n;
    }
    template<typename A, typename B>
    constexpr dim(A a, B b) : d {(size_type)a, (size_type)b}
    {}
    constexpr size_type operator[](size_type i) const { return d[i]; }
    bool operator==(const dim&) const = default;
};

template<typename P>
auto share(P&& p)
{
    using T = typename std::decay_t<P>::element_type;
    return std::shared_ptr<T>(std::forward<P>(p));
}
template<typename P>
auto give(P&& p)
{
    return std::move(p);
}

// ------------------------------------------------------------------------------------- operators
class LinOp
{
public:
    explicit LinOp(std::shared_ptr<const Executor> e, dim<2> s = {}) : exec_(std::move(e)), size_(s) {}
    virtual ~LinOp() = default;
    const dim<2>& get_size() const noexcept { return size_; }
    std::shared_ptr<const Executor> get_executor() const noexcept { return exec_; }
    template<typename B, typename X>
    const LinOp* apply(const B& b, const X& x) const
    {
        applyImpl(&*b, &*x);
        return this;
    }

protected:
    virtual void applyImpl(const LinOp* b, LinOp* x) const = 0;
    std::shared_ptr<const Executor> exec_;
    dim<2> size_;
};

namespace matrix
{
template<typename V>
class Dense : public LinOp
{
public:
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> values, size_type stride)
    {
        if (s[0] && values.get_size() < (s[0] - 1) * stride + s[1]) throw Error(__FILE__, __LINE__, "dense matrix of more entries than its values");
        return std::unique_ptr<Dense>(new Dense(e, s, array<V>(e, std::move(values)), stride));
    }
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, const dim<2>& s = {})
    {
        return std::unique_ptr<Dense>(new Dense(e, s, array<V>(e, s[0] * s[1]), s[1]));
    }
    array<V>& arr() { return v_; }
    const array<V>& arr() const { return v_; }
    size_type get_stride() const { return stride_; }

protected:
    Dense(std::shared_ptr<const Executor> e, dim<2> s, array<V> v, size_type st) : LinOp(e, s), v_(std::move(v)), stride_(st) {}
    void applyImpl(const LinOp*, LinOp*) const override { throw Error(__FILE__, __LINE__, "not implemented in the stand-in"); }
    array<V> v_;
    size_type stride_;
};
template<typename V, typename I>
class Csr : public LinOp
{
public:
    static std::unique_ptr<Csr> create(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> values, array<I> cols, array<I> rows)
    {
        if (values.get_size() != cols.get_size()) throw Error(__FILE__, __LINE__, "csr: " + std::to_string(values.get_size()) + " values for " + std::to_string(cols.get_size()) + " column indices");
        if (rows.get_size() != s[0] + 1) throw Error(__FILE__, __LINE__, "csr: " + std::to_string(rows.get_size()) + " row pointers for " + std::to_string(s[0]) + " rows");
        return std::unique_ptr<Csr>(new Csr(e, s, array<V>(e, std::move(values)), array<I>(e, std::move(cols)), array<I>(e, std::move(rows))));
    }
    NFM::Sparse host() const
    {
        NFM::Sparse m;
        m.nRows = size_[0];
        m.nCols = size_[1];
        auto v = v_.host();
        auto c = c_.host();
        auto r = r_.host();
        m.fromCsr(v, c, r, "Ginkgo");
        return m;
    }

protected:
    Csr(std::shared_ptr<const Executor> e, dim<2> s, array<V> v, array<I> c, array<I> r) : LinOp(e, s), v_(std::move(v)), c_(std::move(c)), r_(std::move(r)) {}
    void applyImpl(const LinOp*, LinOp*) const override { throw Error(__FILE__, __LINE__, "not implemented in the stand-in"); }
    array<V> v_;
    array<I> c_, r_;
};
} // namespace matrix

class LinOpFactory
{
public:
    explicit LinOpFactory(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    virtual ~LinOpFactory() = default;
    virtual std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp> m) const = 0;
    std::shared_ptr<const Executor> get_executor() const { return exec_; }

protected:
    std::shared_ptr<const Executor> exec_;
};

// ------------------------------------------------------------------------------------- configuration
namespace config
{
class pnode
{
public:
    using key_type = std::string;
    using map_type = std::map<key_type, pnode>;
    using array_type = std::vector<pnode>;
    enum class tag_t { empty, array, boolean, real, integer, string, map };
    explicit pnode() = default;
    explicit pnode(bool b) : tag_(tag_t::boolean), b_(b) {}
    template<typename T>
        requires std::is_integral_v<T>
    explicit pnode(T i) : tag_(tag_t::integer), i_((std::int64_t)i)
    {
        if (i > T {} && (std::uint64_t)i > (std::uint64_t)INT64_MAX) throw Error(__FILE__, __LINE__, "integer too large");
    }
    explicit pnode(const std::string& s) : tag_(tag_t::string), s_(s) {}
    explicit pnode(const char* s) : pnode(std::string(s)) {}
    explicit pnode(double d) : tag_(tag_t::real), d_(d) {}
    explicit pnode(const array_type& a) : tag_(tag_t::array), a_(a) {}
    explicit pnode(const map_type& m) : tag_(tag_t::map), m_(m) {}
    explicit operator bool() const noexcept { return tag_ != tag_t::empty; }
    bool operator==(const pnode& o) const { return tag_ == o.tag_ && b_ == o.b_ && i_ == o.i_ && d_ == o.d_ && s_ == o.s_ && a_ == o.a_ && m_ == o.m_; }
    bool operator!=(const pnode& o) const { return !(*this == o); }
    tag_t get_tag() const noexcept { return tag_; }
    const map_type& get_map() const { return need(tag_t::map), m_; }
    const array_type& get_array() const { return need(tag_t::array), a_; }
    bool get_boolean() const { return need(tag_t::boolean), b_; }
    std::int64_t get_integer() const { return need(tag_t::integer), i_; }
    double get_real() const { return need(tag_t::real), d_; }
    const std::string& get_string() const { return need(tag_t::string), s_; }
    const pnode& get(const std::string& k) const
    {
        static const pnode none;
        need(tag_t::map);
        auto it = m_.find(k);
        return it == m_.end() ? none : it->second;
    }
    std::string text() const
    {
        switch (tag_)
        {
        case tag_t::empty: return "(empty)";
        case tag_t::boolean: return b_ ? "true" : "false";
        case tag_t::integer: return "int " + std::to_string(i_);
        case tag_t::real: return "real " + std::to_string(d_);
        case tag_t::string: return "'" + s_ + "'";
        case tag_t::array: return "array of " + std::to_string(a_.size());
        default: break;
        }
        std::string t = "{";
        for (auto& [k, v] : m_) t += k + ": " + v.text() + ", ";
        return t + "}";
    }

private:
    void need(tag_t t) const
    {
        if (t != tag_) throw Error(__FILE__, __LINE__, "configuration node of another kind");
    }
    tag_t tag_ = tag_t::empty;
    bool b_ = false;
    std::int64_t i_ = 0;
    double d_ = 0;
    std::string s_;
    array_type a_;
    map_type m_;
};
class registry
{
};
class type_descriptor
{
public:
    std::string value, index;
};
template<typename V = double, typename I = int32>
type_descriptor make_type_descriptor()
{
    return {std::is_same_v<V, double> ? "float64" : std::is_same_v<V, float> ? "float32" : "other", sizeof(I) == 4 ? "int32" : "int64"};
}
} // namespace config

// what was handed over
struct Event
{
    NFM::Sparse matrix;
    std::vector<double> rhs, start, solution;
    config::pnode settings;
    std::string valueType, exec;
    const void *bAddress = nullptr, *xAddress = nullptr;
};
inline std::vector<Event>& log()
{
    static std::vector<Event> l;
    return l;
}

class StandInSolver : public LinOp
{
public:
    StandInSolver(std::shared_ptr<const Executor> e, std::shared_ptr<const LinOp> m, config::pnode c, config::type_descriptor t) : LinOp(e, m->get_size()), m_(m), c_(c), t_(t) {}

protected:
    void applyImpl(const LinOp* b, LinOp* x) const override
    {
        auto* B = dynamic_cast<const matrix::Dense<double>*>(b);
        auto* X = dynamic_cast<matrix::Dense<double>*>(x);
        if (!B || !X) throw Error(__FILE__, __LINE__, "operands of another value type");
        auto n = size_[0];
        if (B->get_size()[0] != n || X->get_size()[0] != n || B->get_size()[1] != X->get_size()[1] || B->get_size()[1] != 1)
            throw Error(__FILE__, __LINE__, "dimensions of the operands differ from the matrix: " + std::to_string(n) + ", " + std::to_string(B->get_size()[0]) + ", " + std::to_string(X->get_size()[0]));
        Event ev;
        ev.matrix = dynamic_cast<const matrix::Csr<double, int>&>(*m_).host();
        ev.rhs = B->arr().host();
        ev.start = X->arr().host();
        ev.settings = c_;
        ev.valueType = t_.value;
        ev.exec = exec_->kind();
        ev.bAddress = B->arr().get_const_data();
        ev.xAddress = X->arr().get_const_data();
        if (!ev.matrix.solve(ev.rhs, ev.solution)) throw Error(__FILE__, __LINE__, "singular matrix");
        X->arr().store(ev.solution);
        log().push_back(std::move(ev));
    }
    std::shared_ptr<const LinOp> m_;
    config::pnode c_;
    config::type_descriptor t_;
};
class StandInFactory : public LinOpFactory
{
public:
    StandInFactory(std::shared_ptr<const Executor> e, config::pnode c, config::type_descriptor t) : LinOpFactory(e), c_(c), t_(t) {}
    std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp> m) const override
    {
        if (m->get_size()[0] != m->get_size()[1]) throw Error(__FILE__, __LINE__, "square matrix expected");
        if (m->get_executor()->mem() != exec_->mem()) throw Error(__FILE__, __LINE__, "stand-in: matrix and solver on executors with different memory");
        return std::make_unique<StandInSolver>(exec_, m, c_, t_);
    }

private:
    config::pnode c_;
    config::type_descriptor t_;
};
namespace config
{
class deferred_factory_parameter
{
public:
    deferred_factory_parameter(pnode c, type_descriptor t) : c_(c), t_(t) {}
    std::unique_ptr<LinOpFactory> on(std::shared_ptr<const Executor> e) const { return std::make_unique<StandInFactory>(e, c_, t_); }

private:
    pnode c_;
    type_descriptor t_;
};
inline deferred_factory_parameter parse(const pnode& c, const registry&, const type_descriptor& t = make_type_descriptor<>())
{
    auto& type = c.get("type");
    if (!type || type.get_string().rfind("solver::", 0) != 0) throw Error(__FILE__, __LINE__, "no solver of this type");
    return {c, t};
}
} // namespace config
} // namespace gko

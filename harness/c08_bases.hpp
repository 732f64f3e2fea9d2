// Bases and registration macro shared by the two translation units of C08.
#pragma once
#include "anyval.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
using namespace AV;
using namespace NeoFOAM;

inline long liveObjects = 0;

// ---- base 1: two arguments by const reference / value
using ShapeParams = NeoFOAM::Parameters<const std::string&, double>;
struct Shape : public RuntimeSelectionFactory<Shape, ShapeParams>
{
    Shape(const std::string& s, double d) : text(s), num(d), where(&s) { liveObjects++; }
    virtual ~Shape() { liveObjects--; }
    static std::string name() { return "Shape"; }
    virtual std::string what() const = 0;
    std::string text;
    double num;
    const std::string* where;
};
// ---- base 2: no arguments
using ColourParams = NeoFOAM::Parameters<>;
struct Colour : public RuntimeSelectionFactory<Colour, ColourParams>
{
    Colour() { liveObjects++; }
    virtual ~Colour() { liveObjects--; }
    static std::string name() { return "Colour"; }
    virtual std::string what() const = 0;
};
// ---- base 3: mutable references and move-only argument
using SinkParams = NeoFOAM::Parameters<int&, std::unique_ptr<int>, const Dictionary&>;
struct Sink : public RuntimeSelectionFactory<Sink, SinkParams>
{
    Sink(int& c, std::unique_ptr<int> p, const Dictionary& d) : counter(c), p(std::move(p)), dict(&d)
    {
        c++;
        liveObjects++;
    }
    virtual ~Sink() { liveObjects--; }
    static std::string name() { return "Sink"; }
    virtual std::string what() const = 0;
    int& counter;
    std::unique_ptr<int> p;
    const Dictionary* dict;
};
// ---- base 4: many classes
using ManyParams = NeoFOAM::Parameters<int>;
struct Many : public RuntimeSelectionFactory<Many, ManyParams>
{
    Many(int i) : i(i) { liveObjects++; }
    virtual ~Many() { liveObjects--; }
    static std::string name() { return "Many"; }
    virtual int number() const = 0;
    int i;
};
// ---- base 5: nothing registered
using EmptyParams = NeoFOAM::Parameters<int>;
struct Empty : public RuntimeSelectionFactory<Empty, EmptyParams>
{
    Empty(int) {}
    virtual ~Empty() = default;
    static std::string name() { return "Empty"; }
};

// ---- base 6: constructors that create others of the same base, or fail
using NestParams = NeoFOAM::Parameters<int, int&>;
struct Nest : public RuntimeSelectionFactory<Nest, NestParams>
{
    Nest(int depth, int& tries) : depth(depth)
    {
        tries++;
        liveObjects++;
    }
    virtual ~Nest() { liveObjects--; }
    static std::string name() { return "Nest"; }
    virtual std::string what() const = 0;
    int depth;
    std::unique_ptr<Nest> inner;
};

// ---- base 7: a single class
using SingleParams = NeoFOAM::Parameters<int>;
struct Single : public RuntimeSelectionFactory<Single, SingleParams>
{
    Single(int i) : i(i) { liveObjects++; }
    virtual ~Single() { liveObjects--; }
    static std::string name() { return "Single"; }
    virtual std::string what() const = 0;
    int i;
};

#define DERIVED(B, C, NAME)                                                                        \
    struct C : public B::Register<C>                                                               \
    {                                                                                              \
        using Base = B::Register<C>;                                                               \
        using Base::Base;                                                                          \
        static std::string name() { return NAME; }                                                 \
        static std::string doc() { return "documentation of " #C; }                                \
        static std::string schema() { return "schema of " #C; }                                    \
        std::string what() const override { return #C; }                                           \
    };                                                                                             \
    template class NeoFOAM::RuntimeSelectionFactory<B, B##Params>::Register<C>;


// Type erased access to every filter type of the library, through its public API only.
#pragma once
#include "Iir.h"
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <cstring>
#include <string>
#include <vector>

// How a setup call is made.
//  's' setup(sr, ...)   'S' setup(order, sr, ...)   'n' setupN(...)   'N' setupN(order, ...)
struct BadScript { std::string what; };

// heap use of the calling thread while a Count lives
extern thread_local bool counting;
extern thread_local long nalloc;
struct Count { Count() { nalloc = 0; counting = true; } ~Count() { counting = false; } };

// constructs a filter in mem
template <class F, class... A> inline F* build(void* mem, A&&... a) { Count c; return new (mem) F(std::forward<A>(a)...); }
template <class F> inline F* buildDefault(void* mem) { Count c; return new (mem) F; }

struct Obj {
    virtual ~Obj() {}
    virtual void setup(char ov, int order, const double* a, int na) = 0;
    virtual double filt(char ty, double x) = 0;
    virtual void reset() = 0;
    virtual void destroy() = 0;                       // ends the life of the filter object
    virtual Obj* cloneTo(void* mem) = 0;              // copy constructor, into mem
    virtual void assign(Obj* from) = 0;
    virtual size_t size() const = 0;
    virtual void* addr() = 0;
    // projections; nullptr / -1 where the type has no such thing
    virtual Iir::Cascade* cas() { return nullptr; }
    virtual Iir::Biquad* bq() { return nullptr; }
    virtual bool pz(std::vector<Iir::PoleZeroPair>&) { return false; }
    virtual int maxStages() = 0;
    virtual const Iir::Biquad& stage(int i) = 0;
    virtual bool getState(Iir::DirectFormI&) { return false; }
};

typedef std::function<Obj*(void* mem, const double* a, int na)> Factory;
struct Reg { size_t size; Factory make; };
std::map<std::string, Reg>& registry();

template <class F, class T> inline double filtAs(F& f, double x) { return (double)f.template filter<T>((T)x); }
template <class F> inline double filtAny(F& f, char ty, double x) {
    switch (ty) {
    case 'd': return filtAs<F, double>(f, x);
    case 'f': return filtAs<F, float>(f, x);
    case 'i': return filtAs<F, int>(f, x);
    case 's': return filtAs<F, short>(f, x);
    case 'l': return filtAs<F, long long>(f, x);
    case 'b': return filtAs<F, signed char>(f, x);
    }
    throw BadScript{"sample type"};
}

template <class W, class F> struct ObjBase : Obj {
    F* f;
    explicit ObjBase(F* p) : f(p) {}
    void destroy() override { f->~F(); }
    Obj* cloneTo(void* mem) override { return new W(build<F>(mem, *f)); }
    void assign(Obj* from) override { *f = *static_cast<ObjBase*>(from)->f; }
    size_t size() const override { return sizeof(F); }
    void* addr() override { return f; }
    void reset() override { f->reset(); }
    double filt(char ty, double x) override { return filtAny(*f, ty, x); }
};

// pole filters; NA = number of parameters of setupN
template <class F, int NA> struct PF : ObjBase<PF<F, NA>, F> {
    using ObjBase<PF<F, NA>, F>::f;
    explicit PF(F* p) : ObjBase<PF<F, NA>, F>(p) {}
    void setup(char ov, int o, const double* a, int na) override {
        const double sr = a[0];
        if (ov == 's' || ov == 'S') { a++; na--; }
        if (na != NA) throw BadScript{"number of setup arguments"};
        if constexpr (NA == 1) switch (ov) {
            case 's': f->setup(sr, a[0]); break;
            case 'S': f->setup(o, sr, a[0]); break;
            case 'n': f->setupN(a[0]); break;
            case 'N': f->setupN(o, a[0]); break; }
        else if constexpr (NA == 2) switch (ov) {
            case 's': f->setup(sr, a[0], a[1]); break;
            case 'S': f->setup(o, sr, a[0], a[1]); break;
            case 'n': f->setupN(a[0], a[1]); break;
            case 'N': f->setupN(o, a[0], a[1]); break; }
        else if constexpr (NA == 3) switch (ov) {
            case 's': f->setup(sr, a[0], a[1], a[2]); break;
            case 'S': f->setup(o, sr, a[0], a[1], a[2]); break;
            case 'n': f->setupN(a[0], a[1], a[2]); break;
            case 'N': f->setupN(o, a[0], a[1], a[2]); break; }
        else switch (ov) {
            case 's': f->setup(sr, a[0], a[1], a[2], a[3]); break;
            case 'S': f->setup(o, sr, a[0], a[1], a[2], a[3]); break;
            case 'n': f->setupN(a[0], a[1], a[2], a[3]); break;
            case 'N': f->setupN(o, a[0], a[1], a[2], a[3]); break; }
    }
    Iir::Cascade* cas() override { return f; }
    bool pz(std::vector<Iir::PoleZeroPair>& v) override { v = f->getPoleZeros(); return true; }
    int maxStages() override { return f->getCascadeStorage().maxStages; }
    const Iir::Biquad& stage(int i) override { return f->getCascadeStorage().stageArray[i]; }
};

template <class F, int NA> void regPF(const std::string& name) {
    registry()[name] = Reg{sizeof(F), [](void* mem, const double*, int) -> Obj* { return new PF<F, NA>(buildDefault<F>(mem)); }};
}

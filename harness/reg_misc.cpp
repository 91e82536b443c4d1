// Registers RBJ filters, SOS cascades, custom filters and bare biquads with each state type.
// (The pole filters a script needs are registered by generated sources, see lib/vk.py.)
#include "obj.h"
using namespace Iir;

template <class F> void rbjSetup(F& f, char ov, const double* a, int na) {
    const double sr = a[0];
    const bool s = ov == 's';
    if (s) { a++; na--; }
    constexpr bool q1 = std::is_invocable_v<decltype([](auto& g) -> decltype(g.setupN(1.0)) {}), F&>;
    constexpr bool q3 = std::is_invocable_v<decltype([](auto& g) -> decltype(g.setupN(1.0, 1.0, 1.0)) {}), F&>;
    constexpr bool q2 = std::is_invocable_v<decltype([](auto& g) -> decltype(g.setupN(1.0, 1.0)) {}), F&>;
    if constexpr (q1) if (na == 1) { if (s) f.setup(sr, a[0]); else f.setupN(a[0]); return; }
    if constexpr (q2) if (na == 2) { if (s) f.setup(sr, a[0], a[1]); else f.setupN(a[0], a[1]); return; }
    if constexpr (q3) if (na == 3) { if (s) f.setup(sr, a[0], a[1], a[2]); else f.setupN(a[0], a[1], a[2]); return; }
    throw BadScript{"number of RBJ arguments"};
}

template <class F> struct RB : ObjBase<RB<F>, F> {
    using ObjBase<RB<F>, F>::f;
    explicit RB(F* p) : ObjBase<RB<F>, F>(p) {}
    void setup(char ov, int, const double* a, int na) override { rbjSetup(*f, ov, a, na); }
    Iir::Biquad* bq() override { return f; }
    bool pz(std::vector<PoleZeroPair>& v) override { v = f->getPoleZeros(); return true; }
    int maxStages() override { return 1; }
    const Biquad& stage(int) override { return *f; }
    bool getState(DirectFormI& s) override { s = f->getState(); return true; }
};
template <class F> void regRB(const char* n) {
    registry()[n] = Reg{sizeof(F), [](void* mem, const double*, int) -> Obj* { return new RB<F>(buildDefault<F>(mem)); }};
}

template <int N, class ST> struct SO : ObjBase<SO<N, ST>, Custom::SOSCascade<N, ST>> {
    typedef Custom::SOSCascade<N, ST> F;
    using ObjBase<SO<N, ST>, F>::f;
    explicit SO(F* p) : ObjBase<SO<N, ST>, F>(p) {}
    void setup(char, int, const double* a, int na) override {
        if (na != 6 * N) throw BadScript{"number of SOS coefficients"};
        double c[N][6];
        memcpy(c, a, sizeof c);
        f->setup(c);
    }
    int maxStages() override { return f->getCascadeStorage().maxStages; }
    const Biquad& stage(int i) override { return f->getCascadeStorage().stageArray[i]; }
};
template <int N, class ST> void regSO(const std::string& st) {
    typedef Custom::SOSCascade<N, ST> F;
    registry()["SOS.SO." + std::to_string(N) + "." + st] = Reg{sizeof(F), [](void* mem, const double* a, int na) -> Obj* {
        if (na == 0) return new SO<N, ST>(buildDefault<F>(mem));
        double c[N][6];
        memcpy(c, a, sizeof c);
        return new SO<N, ST>(build<F>(mem, c));
    }};
}

// a biquad with its external state
template <class B, class ST> struct BqState : B {
    ST state;
    template <class Sample> Sample filter(Sample s) { return (Sample)Biquad::filter((double)s, state); }
    void reset() { state.reset(); }
};
template <class B, class ST> struct BQ : ObjBase<BQ<B, ST>, BqState<B, ST>> {
    typedef BqState<B, ST> F;
    using ObjBase<BQ<B, ST>, F>::f;
    explicit BQ(F* p) : ObjBase<BQ<B, ST>, F>(p) {}
    void setup(char, int, const double* a, int na) override {
        if constexpr (std::is_same_v<B, Custom::OnePole>) { if (na == 3) { f->setup(a[0], a[1], a[2]); return; } }
        if constexpr (std::is_same_v<B, Custom::TwoPole>) { if (na == 5) { f->setup(a[0], a[1], a[2], a[3], a[4]); return; } }
        if constexpr (std::is_same_v<B, Biquad>) { if (na == 6) { f->setCoefficients(a[0], a[1], a[2], a[3], a[4], a[5]); return; } }
        throw BadScript{"number of biquad arguments"};
    }
    Iir::Biquad* bq() override { return f; }
    bool pz(std::vector<PoleZeroPair>& v) override { v = f->getPoleZeros(); return true; }
    int maxStages() override { return 1; }
    const Biquad& stage(int) override { return *f; }
};
template <class B, class ST> void regBQ(const std::string& n) {
    typedef BqState<B, ST> F;
    registry()[n] = Reg{sizeof(F), [](void* mem, const double*, int) -> Obj* { return new BQ<B, ST>(build<F>(mem)); }};
}

template <class ST> void regState(const std::string& st) {
    regSO<1, ST>(st); regSO<2, ST>(st); regSO<3, ST>(st); regSO<4, ST>(st); regSO<5, ST>(st); regSO<6, ST>(st); regSO<8, ST>(st); regSO<10, ST>(st);
    regBQ<Biquad, ST>("BQ.BQ.1." + st);
    regBQ<Custom::OnePole, ST>("BQ.CO.1." + st);
    regBQ<Custom::TwoPole, ST>("BQ.CT.1." + st);
}

namespace { struct Init {
    Init() {
        regRB<RBJ::LowPass>("RBJ.LP.2.D1");
        regRB<RBJ::HighPass>("RBJ.HP.2.D1");
        regRB<RBJ::BandPass1>("RBJ.B1.2.D1");
        regRB<RBJ::BandPass2>("RBJ.B2.2.D1");
        regRB<RBJ::BandStop>("RBJ.BS.2.D1");
        regRB<RBJ::IIRNotch>("RBJ.NO.2.D1");
        regRB<RBJ::LowShelf>("RBJ.LS.2.D1");
        regRB<RBJ::HighShelf>("RBJ.HS.2.D1");
        regRB<RBJ::BandShelf>("RBJ.BH.2.D1");
        regRB<RBJ::AllPass>("RBJ.AP.2.D1");
        regState<DirectFormI>("D1");
        regState<DirectFormII>("D2");
        regState<TransposedDirectFormII>("T2");
    }
} init_; }

// Executes scripts of operations on the library and logs, after every operation, what a
// user of the public API can see.  One line of JSON per operation; numbers are the two
// signed 32 bit halves of the double.
//
//   drv SCRIPT LOG           every trace in a child process of its own
//   drv -threads SCRIPT LOG  all traces at the same time, one thread each
#include "obj.h"
#include <cinttypes>
#include <condition_variable>
#include <csignal>
#include <deque>
#include <type_traits>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace Iir;

std::map<std::string, Reg>& registry() { static std::map<std::string, Reg> r; return r; }

// ---- heap use during a call -------------------------------------------------
thread_local bool counting = false;
thread_local long nalloc = 0;
#ifndef NO_MALLOC_HOOK
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { if (counting) nalloc++; return __libc_malloc(n); }
void free(void* p) { if (counting && p) nalloc++; __libc_free(p); }
void* calloc(size_t a, size_t b) { if (counting) nalloc++; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (counting) nalloc++; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { if (counting) nalloc++; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { if (counting) nalloc++; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (counting) nalloc++; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
}
#endif

// ---- memory for the filter objects -------------------------------------------
// With sanitizers every object is a heap block of its own.  Otherwise objects lie close
// together with guard bytes between them, and dead objects are filled with a pattern.
static const size_t GUARD = 64;
static const unsigned LIMIT = 40;     // seconds for one trace; most take a few milliseconds
struct Mem {
    unsigned char* p = nullptr; size_t n = 0;
    void get(size_t size) {
        n = size;
        size_t r = (size + 15) / 16 * 16;
        unsigned char* b = (unsigned char*)::operator new(r + 2 * GUARD);
        memset(b, 0xA5, r + 2 * GUARD);
        p = b + GUARD;
#ifdef ASAN
        ::operator delete(b);
        p = (unsigned char*)::operator new(size);
        memset(p, 0xA5, size);
#endif
    }
    bool ok() const {
#ifndef ASAN
        if (!p) return true;
        for (size_t i = 0; i < GUARD; i++) if (p[-1 - (long)i] != 0xA5) return false;
        for (size_t i = n; i < (n + 15) / 16 * 16 + GUARD; i++) if (p[i] != 0xA5) return false;
#endif
        return true;
    }
    void put() {      // not given back: later accesses meet the pattern
        memset(p, 0xDD, n);
#ifdef ASAN
        ::operator delete(p);
#endif
        p = nullptr;
    }
};

struct Gone {};   // the object of a call could not be made

struct Slot { std::unique_ptr<Obj> o; Mem m; };

// ---- layouts and prototypes ----------------------------------------------------
struct Lay {
    std::string kind; int cap = 0;
    std::vector<PoleZeroPair> store;                 // filled with a marker behind the capacity
    LayoutBase base;
    Butterworth::AnalogLowPass bwlp; Butterworth::AnalogLowShelf bwls;
    ChebyshevI::AnalogLowPass c1lp; ChebyshevI::AnalogLowShelf c1ls;
    ChebyshevII::AnalogLowPass c2lp; ChebyshevII::AnalogLowShelf c2ls;
    LayoutBase& l() {
        if (kind == "BWLP") return bwlp; if (kind == "BWLS") return bwls;
        if (kind == "C1LP") return c1lp; if (kind == "C1LS") return c1ls;
        if (kind == "C2LP") return c2lp; if (kind == "C2LS") return c2ls;
        return base;
    }
    static PoleZeroPair marker() { return PoleZeroPair(complex_t(7777, 1), complex_t(7777, 2), complex_t(7777, 3), complex_t(7777, 4)); }
    void init(const std::string& k, int c) {
        kind = k;
        renew(c);
        if (kind == "LB") base = LayoutBase(c, store.data());
        else l().setStorage(LayoutBase(c, store.data()));
    }
    void renew(int c) {
        cap = c;
        const int n = (c + 1) / 2;
        store.assign((size_t)n + 4, marker());
        for (int i = 0; i < n; i++) store[(size_t)i] = PoleZeroPair();
    }
    void attach(int c) { renew(c); l().setStorage(LayoutBase(c, store.data())); }
    bool ok() const {
        const PoleZeroPair m = marker();
        for (size_t i = (size_t)(cap + 1) / 2; i < store.size(); i++)
            if (store[i].poles != m.poles || store[i].zeros != m.zeros) return false;
        return true;
    }
};

// ---- one trace -----------------------------------------------------------------
struct Ctx {
    std::map<int, Slot> s;
    std::map<int, Lay> lay;
    std::string out;
    int fd = -1;

    void num(double d) {
        uint64_t b; memcpy(&b, &d, 8);
        if (d != d) b = 0x7ff8000000000000ULL;
        char t[40]; snprintf(t, sizeof t, "[%" PRId32 ",%" PRId32 "]", (int32_t)(b >> 32), (int32_t)b);
        out += t;
    }
    void nums(const char* name, const std::vector<double>& v) {
        out += ",\""; out += name; out += "\":[";
        for (size_t i = 0; i < v.size(); i++) { if (i) out += ','; num(v[i]); }
        out += ']';
    }
    void i(const char* name, long v) { out += ",\""; out += name; out += "\":" + std::to_string(v); }
    void str(const char* name, const std::string& v) { out += ",\""; out += name; out += "\":\"" + v + "\""; }
    void begin(const std::string& e, int o) { out += "{\"e\":\"" + e + "\""; i("o", o); }
    void end() {
        int bad = 0;
        for (auto& p : s) if (!p.second.m.ok()) bad = 1;
        for (auto& p : lay) if (!p.second.ok()) bad = 1;
        i("gd", bad);
        out += "}\n";
        if (fd >= 0) flush();
    }
    void flush() {
        size_t k = 0;
        while (k < out.size()) { ssize_t w = write(fd, out.data() + k, out.size() - k); if (w <= 0) _exit(97); k += (size_t)w; }
        out.clear();
    }
    Obj& obj(int o) { auto it = s.find(o); if (it == s.end() || !it->second.o) throw Gone{}; return *it->second.o; }

    // the normalised coefficients: the members, or if there are none, by the getters
    template <class B> static void stageRow(std::vector<double>& v, const B& q) {
        if constexpr (requires { q.m_a0 + q.m_a1 + q.m_a2 + q.m_b0 + q.m_b1 + q.m_b2; })
            for (double d : {q.m_a0, q.m_a1, q.m_a2, q.m_b0, q.m_b1, q.m_b2}) v.push_back(d);
        else {
            const double a0 = q.getA0();
            v.push_back(a0);
            for (double d : {q.getA1(), q.getA2(), q.getB0(), q.getB1(), q.getB2()}) v.push_back(d / a0);
        }
    }
    void proj(Obj& o) {
        const int n = o.maxStages();
        out += ",\"cf\":[";
        for (int k = 0; k < n; k++) {
            std::vector<double> v; stageRow(v, o.stage(k));
            out += k ? ",[" : "[";
            for (size_t j = 0; j < v.size(); j++) { if (j) out += ','; num(v[j]); }
            out += ']';
        }
        out += ']';
        i("ns", o.cas() ? o.cas()->getNumStages() : n);
    }
    void pzs(const std::vector<PoleZeroPair>& v) {
        out += ",\"pz\":[";
        for (size_t k = 0; k < v.size(); k++) {
            const PoleZeroPair& p = v[k];
            out += k ? ",[" : "[";
            const complex_t c[4] = {p.poles.first, p.zeros.first, p.poles.second, p.zeros.second};
            for (int j = 0; j < 4; j++) { if (j) out += ','; out += '['; num(c[j].real()); out += ','; num(c[j].imag()); out += ']'; }
            out += ']';
        }
        out += ']';
    }
    template <class Fn> std::string guarded(Fn fn) {
        std::string r = "ok";
#ifdef IIR1_NO_EXCEPTIONS
        fn();
#else
        try { fn(); }
        catch (const BadScript&) { throw; }
        catch (const Gone&) { throw; }
        catch (const std::invalid_argument&) { r = "inv"; }
        catch (...) { r = "exc"; }
#endif
        return r;
    }

    static double hex(const std::string& t) { uint64_t b = strtoull(t.c_str(), nullptr, 16); double d; memcpy(&d, &b, 8); return d; }

    void layProj(Lay& L) {
        LayoutBase& l = L.l();
        i("n", l.getNumPoles()); i("mx", l.getMaxPoles());
        std::vector<PoleZeroPair> v;
        const int pairs = (l.getNumPoles() + 1) / 2;
        bool same = true;
        for (int k = 0; k < pairs && k < 100; k++) {
            v.push_back(l.getPair(k));
            if (v.back().poles != l[k].poles && !v.back().is_nan()) same = false;
        }
        pzs(v);
        i("same", same);
        nums("nw", {l.getNormalW(), l.getNormalGain()});
    }

    void op(const std::string& line) {
        std::istringstream in(line);
        std::string c; int o;
        in >> c >> o;
        std::string t;
        if (c == "N") {                                   // N o kind coefs...
            std::string kind; in >> kind;
            std::vector<double> a; while (in >> t) a.push_back(hex(t));
            auto it = registry().find(kind);
            if (it == registry().end()) throw BadScript{"kind " + kind};
            Slot& sl = s[o];
            sl.m.get(it->second.size);
            std::string r;
            Obj* p = nullptr;
            nalloc = 0;
            r = guarded([&] { p = it->second.make(sl.m.p, a.data(), (int)a.size()); });
            if (p) sl.o.reset(p);
            const long al = r == "ok" ? nalloc : 0;
            begin("N", o);
            std::istringstream ks(kind);
            for (const char* at : {"fam", "kd", "n", "st"}) { std::getline(ks, t, '.'); if (*at == 'n') i("n", atol(t.c_str())); else str(at, t); }
            nums("a", a); str("r", r); i("al", al);
            if (p) proj(*p);
            end();
            if (!p) s.erase(o);
        } else if (c == "S") {                            // S o ov order args...
            char ov; int ord; in >> ov >> ord;
            std::vector<double> a; while (in >> t) a.push_back(hex(t));
            Obj& b = obj(o);
            if (fd >= 0 && getenv("DRV_ANNOUNCE")) { begin("try", o); str("ov", std::string(1, ov)); i("ord", ord); nums("a", a); end(); }
            long al = 0;
            std::string r = guarded([&] { Count k; b.setup(ov, ord, a.data(), (int)a.size()); });
            al = nalloc;
            begin("S", o); str("ov", std::string(1, ov)); i("ord", ord); nums("a", a); str("r", r); i("al", al); proj(b); end();
        } else if (c == "F") {                            // F o type x...
            char ty; in >> ty;
            std::vector<double> x, y; while (in >> t) x.push_back(hex(t));
            y.resize(x.size());
            Obj& b = obj(o);
            size_t k = 0;
            std::string r;
            r = guarded([&] { Count q; for (; k < x.size(); k++) y[k] = b.filt(ty, x[k]); });
            long al = nalloc;
            begin("F", o); str("ty", std::string(1, ty)); nums("x", x); nums("y", y); str("r", r); i("al", r == "ok" ? al : 0); end();
        } else if (c == "R") {
            Obj& b = obj(o);
            std::string r = guarded([&] { Count q; b.reset(); });
            long al = nalloc;
            begin("R", o); str("r", r); i("al", al); proj(b); end();
        } else if (c == "C" || c == "M") {                // copy construct; M also destroys the source
            int src; in >> src;
            Obj& b = obj(src);
            Slot& sl = s[o];
            sl.m.get(b.size());
            sl.o.reset(b.cloneTo(sl.m.p));
            const long al = nalloc;
            if (c == "M") { Slot& q = s[src]; q.o->destroy(); q.m.put(); s.erase(src); }
            begin(c, o); i("src", src); i("al", al); proj(*s[o].o); end();
        } else if (c == "A") {
            int src; in >> src;
            { Count q; obj(o).assign(&obj(src)); }
            const long al = nalloc;
            begin("A", o); i("src", src); i("al", al); proj(obj(o)); end();
        } else if (c == "D") {
            Slot& q = s[o];
            obj(o); q.o->destroy(); q.m.put(); s.erase(o);
            begin("D", o); end();
        } else if (c == "P") {                            // projection only
            begin("P", o); proj(obj(o)); end();
        } else if (c == "W") {                            // projections of all objects
            begin("W", o);
            out += ",\"all\":[";
            bool first = true;
            for (auto& p : s) { out += first ? "{\"o\":" : ",{\"o\":"; first = false; out += std::to_string(p.first); proj(*p.second.o); out += '}'; }
            out += ']';
            end();
        } else if (c == "H") {                            // H o f...   response
            std::vector<double> f, re, im; while (in >> t) f.push_back(hex(t));
            Obj& b = obj(o);
            std::string r = "ok";
            std::vector<double> q;
            for (double x : f) {
                complex_t h(0, 0);
                std::string rr = guarded([&] { h = b.cas() ? b.cas()->response(x) : b.bq() ? b.bq()->response(x) : b.stage(0).response(x); });
                q.push_back(rr == "ok" ? 0 : rr == "inv" ? 1 : 2);
                re.push_back(h.real()); im.push_back(h.imag());
            }
            begin("H", o); nums("f", f); nums("re", re); nums("im", im); 
            out += ",\"q\":["; for (size_t k = 0; k < q.size(); k++) { if (k) out += ','; out += std::to_string((int)q[k]); } out += ']';
            end();
        } else if (c == "h") {                            // h o stage f...  response of one section
            int st; in >> st;
            std::vector<double> f, re, im; while (in >> t) f.push_back(hex(t));
            for (double x : f) { complex_t h = obj(o).stage(st).response(x); re.push_back(h.real()); im.push_back(h.imag()); }
            begin("h", o); i("st", st); nums("f", f); nums("re", re); nums("im", im); end();
        } else if (c == "Z" || c == "z") {                // Z: pole filter/biquad list, z: Cascade list, from coefficients
            Obj& b = obj(o);
            std::vector<PoleZeroPair> v;
            std::string r = guarded([&] {
                if (c == "Z") { if (!b.pz(v)) throw BadScript{"no pz"}; }
                else if (b.cas()) v = b.cas()->getPoleZeros();
                else for (int k = 0; k < b.maxStages(); k++) { auto w = b.stage(k).getPoleZeros(); v.insert(v.end(), w.begin(), w.end()); } });
            begin(c, o); str("r", r); pzs(v); end();
        } else if (c == "f") {                            // f o stage: round trip through BiquadPoleState
            int st; in >> st;
            Biquad q; double gain = 0; 
            std::vector<double> v;
            std::vector<PoleZeroPair> w;
            const Biquad& src = obj(o).stage(st);
            std::string r = guarded([&] { BiquadPoleState p(src); gain = p.gain; w.push_back(p); q.setPoleZeroForm(p); });
            stageRow(v, q);
            begin("f", o); i("st", st); str("r", r); nums("v", v); nums("g", {gain}); pzs(w); end();
        } else if (c == "I") {                            // I o index...  operator[]
            Obj& b = obj(o);
            if (!b.cas()) throw BadScript{"no cascade"};
            begin("I", o);
            out += ",\"ix\":[";
            // all of them first, to be looked at together
            struct Seen { int k; std::string r; const Biquad* q; };
            std::vector<Seen> seen;
            std::deque<Biquad> held;
            int k; bool first = true;
            while (in >> k) {
                Seen s{k, "", nullptr};
                s.r = guarded([&] {
                    if constexpr (std::is_reference_v<decltype((*b.cas())[k])>) { const Biquad& q = (*b.cas())[k]; s.q = &q; }
                    else { held.push_back((*b.cas())[k]); s.q = &held.back(); } });
                seen.push_back(s);
            }
            for (const Seen& s : seen) {
                std::vector<double> v;
                bool sameObj = s.q && s.k >= 0 && s.k < b.maxStages() && s.q == &b.stage(s.k);
                if (s.q) stageRow(v, *s.q);
                out += first ? "{" : ",{"; first = false;
                out += "\"i\":" + std::to_string(s.k); str("r", s.r); i("same", sameObj); nums("v", v);
                out += '}';
            }
            out += ']';
            end();
        } else if (c == "G") {                            // getters of every section
            Obj& b = obj(o);
            begin("G", o);
            out += ",\"gt\":[";
            for (int k = 0; k < b.maxStages(); k++) {
                const Biquad& q = b.stage(k);
                double v[6] = {q.getA0(), q.getA1(), q.getA2(), q.getB0(), q.getB1(), q.getB2()};
                out += k ? ",[" : "[";
                for (int j = 0; j < 6; j++) { if (j) out += ','; num(v[j]); }
                out += ']';
            }
            out += ']';
            end();
        } else if (c == "T") {                            // T o x...: a copy of the RBJ state continues the signal
            std::vector<double> x, y; while (in >> t) x.push_back(hex(t));
            DirectFormI st;
            Obj& b = obj(o);
            if (!b.getState(st)) throw BadScript{"no state"};
            for (double d : x) y.push_back(st.filter(d, b.stage(0)));
            begin("T", o); nums("x", x); nums("y", y); end();
        } else if (c == "B") {                            // B o what args...: biquad interface
            std::string w; in >> w;
            std::vector<double> a; while (in >> t) a.push_back(hex(t));
            Obj& ob = obj(o);
            Biquad* b = ob.bq();
            if (!b) throw BadScript{"no biquad"};
            auto cx = [&](size_t k) { return complex_t(a.at(k), a.at(k + 1)); };
            std::string r = guarded([&] {
                if (w == "coef") b->setCoefficients(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5));
                else if (w == "one") b->setOnePole(cx(0), cx(2));
                else if (w == "two") b->setTwoPole(cx(0), cx(2), cx(4), cx(6));
                else if (w == "pair") b->setPoleZeroPair(PoleZeroPair(cx(0), cx(2), cx(4), cx(6)));
                else if (w == "pair1") b->setPoleZeroPair(PoleZeroPair(cx(0), cx(2)));
                else if (w == "form") b->setPoleZeroForm(BiquadPoleState(*b));
                else if (w == "id") b->setIdentity();
                else if (w == "scale") b->applyScale(a.at(0));
                else throw BadScript{"biquad op"}; });
            begin("B", o); str("w", w); nums("a", a); str("r", r); proj(ob); end();
        } else if (c == "LN") {
            std::string kind; int cap; in >> kind >> cap;
            lay[o].init(kind, cap);
            begin("LN", o); str("k", kind); i("cap", cap); layProj(lay[o]); end();
        } else if (c == "LA") {                           // LA o how args...
            std::string w; in >> w;
            std::vector<double> a; while (in >> t) a.push_back(hex(t));
            auto cx = [&](size_t k) { return complex_t(a.at(k), a.at(k + 1)); };
            Lay& L = lay.at(o);
            std::string r = guarded([&] {
                if (w == "one") L.l().add(cx(0), cx(2));
                else if (w == "conj") L.l().addPoleZeroConjugatePairs(cx(0), cx(2));
                else if (w == "pair") L.l().add(ComplexPair(cx(0), cx(2)), ComplexPair(cx(4), cx(6)));
                else if (w == "reset") L.l().reset();
                else if (w == "normal") L.l().setNormal(a.at(0), a.at(1));
                else if (w == "store") L.attach((int)a.at(0));
                else throw BadScript{"layout op"}; });
            begin("LA", o); str("w", w); nums("a", a); str("r", r); layProj(L); end();
        } else if (c == "LG") {                           // LG o index...
            Lay& L = lay.at(o);
            begin("LG", o);
            out += ",\"ix\":[";
            int k; bool first = true;
            while (in >> k) {
                out += first ? "{" : ",{"; first = false;
                std::vector<PoleZeroPair> v;
                std::string r = guarded([&] { v.push_back(L.l().getPair(k)); });
                std::string r2 = guarded([&] { L.l()[k]; });
                out += "\"i\":" + std::to_string(k); str("r", r); str("r2", r2); pzs(v);
                out += '}';
            }
            out += ']';
            layProj(L); end();
        } else if (c == "LD") {                           // LD o order args...: analog design
            int ord; in >> ord;
            std::vector<double> a; while (in >> t) a.push_back(hex(t));
            Lay& L = lay.at(o);
            std::string r = guarded([&] {
                if (L.kind == "BWLP") L.bwlp.design(ord);
                else if (L.kind == "BWLS") L.bwls.design(ord, a.at(0));
                else if (L.kind == "C1LP") L.c1lp.design(ord, a.at(0));
                else if (L.kind == "C1LS") L.c1ls.design(ord, a.at(0), a.at(1));
                else if (L.kind == "C2LP") L.c2lp.design(ord, a.at(0));
                else if (L.kind == "C2LS") L.c2ls.design(ord, a.at(0), a.at(1));
                else throw BadScript{"no prototype"}; });
            begin("LD", o); i("ord", ord); nums("a", a); str("r", r); layProj(L); end();
        } else if (c == "LT") {                           // LT o src how f w: transform src into o
            int src; std::string w; in >> src >> w;
            std::vector<double> a; while (in >> t) a.push_back(hex(t));
            Lay &L = lay.at(o), &S = lay.at(src);
            std::string r = guarded([&] {
                if (w == "LP") LowPassTransform(a.at(0), L.l(), S.l());
                else if (w == "HP") HighPassTransform(a.at(0), L.l(), S.l());
                else if (w == "BP") BandPassTransform(a.at(0), a.at(1), L.l(), S.l());
                else if (w == "BS") BandStopTransform(a.at(0), a.at(1), L.l(), S.l());
                else throw BadScript{"transform"}; });
            begin("LT", o); i("src", src); str("w", w); nums("a", a); str("r", r); layProj(L); end();
        } else
            throw BadScript{"op " + c};
    }
    void run(const std::vector<std::string>& ops) {
        for (const auto& l : ops) {
            try { op(l); }
            catch (const Gone&) { return; }
            catch (const BadScript& b) { fprintf(stderr, "bad script: %s in: %s\n", b.what.c_str(), l.substr(0, 200).c_str()); _exit(98); }
        }
    }
};

int main(int argc, char** argv) {
    bool threads = argc > 1 && std::string(argv[1]) == "-threads";
    if (argc < 3 + threads) return 2;
    std::ifstream in(argv[1 + threads]);
    const int fd = open(argv[2 + threads], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (!in || fd < 0) return 2;
    std::vector<std::pair<std::string, std::vector<std::string>>> tr;
    std::string l;
    while (std::getline(in, l)) {
        if (l.empty()) continue;
        if (l[0] == '@') tr.push_back({l.substr(1), {}});
        else tr.back().second.push_back(l);
    }
    auto put = [&](const std::string& s) { size_t k = 0; while (k < s.size()) { ssize_t w = write(fd, s.data() + k, s.size() - k); if (w <= 0) _exit(97); k += (size_t)w; } };
    if (threads) {
        std::vector<Ctx> cx(tr.size());
        std::mutex m; std::condition_variable cv; size_t ready = 0;
        std::vector<std::thread> th;
        for (size_t k = 0; k < tr.size(); k++) th.emplace_back([&, k] {
            { std::unique_lock<std::mutex> g(m); if (++ready == tr.size()) cv.notify_all(); else cv.wait(g, [&] { return ready == tr.size(); }); }
            cx[k].run(tr[k].second);
        });
        for (auto& t : th) t.join();
        for (size_t k = 0; k < tr.size(); k++) put("{\"e\":\"@\",\"t\":\"" + tr[k].first + "\"}\n" + cx[k].out);
        return 0;
    }
    int late = 0;
    for (auto& t : tr) {
        if (late > 3) break;          // the rest would not end either
        put("{\"e\":\"@\",\"t\":\"" + t.first + "\"}\n");
        pid_t p = fork();
        if (p < 0) return 2;
        if (p == 0) {
            alarm(LIMIT);
            Ctx c; c.fd = fd;
            c.run(t.second);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) late++;
        if (WIFSIGNALED(st)) put("{\"e\":\"crash\",\"o\":0,\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n");
        else if (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97) return 98;
        else if (WEXITSTATUS(st) != 0) put("{\"e\":\"crash\",\"o\":0,\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}\n");
    }
    return 0;
}

// R01: histories of integrations whose equation, or memory, fails now and then.
#include "sim.h"
#include <softlib/RKDP45.h>
#include <softlib/SOFTLibException.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
using namespace sim;

struct EvalFail : std::exception { const char *what() const noexcept override { return "evaluation failed"; } };

// what the equation does from now on: nothing, throw at call k, no number for m
// calls from k on (or for ever), no number beyond the time tw
static struct { int mode = 0; long k = 0, m = 0, calls = 0; bool fired = false; double tw = 0; unsigned what = 0; } trouble;

template<unsigned N> struct Eq : IntegratorEquation<N> {
    unsigned kind; double w;
    static void rhs(unsigned kind, double w, double t, const double *y, double *r) {
        double last = y[N - 1];                    // decays, is driven, or both
        double one = kind == 0 ? -w * last : kind == 1 ? cos(w * t) : w * (cos(w * t) - last);
        if (N == 1) r[0] = one;
        else { r[0] = y[1]; r[1] = -w * w * y[0]; if (N == 3) r[2] = one; }
    }
    static double one(unsigned kind, double w, double t, double y0) {
        return kind == 0 ? y0 * exp(-w * t) : kind == 1 ? y0 + sin(w * t) / w : (y0 - 0.5) * exp(-w * t) + 0.5 * (cos(w * t) + sin(w * t));
    }
    static void exact(unsigned kind, double w, double t, const double *y0, double *y) {
        if (N == 1) y[0] = one(kind, w, t, y0[0]);
        else {
            y[0] = y0[0] * cos(w * t) + y0[1] / w * sin(w * t); y[1] = -w * y0[0] * sin(w * t) + y0[1] * cos(w * t);
            if (N == 3) y[2] = one(kind, w, t, y0[2]);
        }
    }
    Vector<N> &Evaluate(const slibreal_t t, const Vector<N> &y, Vector<N> &r) override {
        long c = trouble.calls++;
        if (trouble.mode == 1 && c == trouble.k) { trouble.mode = 0; trouble.fired = true; count("fault:evaluation_throws"); ev("  FAULT evaluation throws"); throw EvalFail(); }
        if ((trouble.mode == 2 && c >= trouble.k && c < trouble.k + trouble.m) || (trouble.mode == 3 && t > trouble.tw)) {
            if (!trouble.fired) { count("fault:evaluation_nan"); ev("  FAULT evaluation gives NaN"); }
            trouble.fired = true;
            double a[N], b[N];
            for (unsigned i = 0; i < N; i++) a[i] = y[i];
            rhs(kind, w, t, a, b);
            for (unsigned i = 0; i < N; i++) r[i] = trouble.what == 1 && i ? b[i] : trouble.what == 2 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
            return r;
        }
        double a[N], b[N];
        for (unsigned i = 0; i < N; i++) a[i] = y[i];
        rhs(kind, w, t, a, b);
        for (unsigned i = 0; i < N; i++) r[i] = b[i];
        return r;
    }
};

template<unsigned N> struct Track {
    Eq<N> eq; RKDP45<N> s; double tol; bool dense, fixed = false;
    double y0[N]; std::vector<double> t, y, d;
    Track(double tl) : s(tl), tol(tl) {}

    void unchanged(const char *when) {
        size_t n = t.size(); checked();
        if (s.StepsTaken() != n) violate("steps-lost", "%u steps where there were %zu %s", s.StepsTaken(), n, when);
        for (size_t i = 0; i < n; i += 1 + (n > 200 ? i / 16 : 0)) {
            if (s.TimeAt(i) != t[i]) violate("step-changed", "time of step %zu of %zu changed %s", i, n, when);
            if (memcmp(s.SolutionAt(i), &y[i * N], sizeof(double) * N) || memcmp(s.DerivativeAt(i), &d[i * N], sizeof(double) * N)) violate("step-changed", "solution or derivative of step %zu of %zu changed %s", i, n, when);
        }
        if (n && (s.LastTime() != t[n - 1] || memcmp(s.LastSolution(), &y[(n - 1) * N], sizeof(double) * N) || memcmp(s.LastDerivative(), &d[(n - 1) * N], sizeof(double) * N))) violate("last-wrong", "the last step is not step %zu", n - 1);
    }
    void push(const char *when) {
        size_t i = t.size();
        if (s.StepsTaken() != i + 1) violate("steps-lost", "%u steps instead of %zu %s", s.StepsTaken(), i + 1, when);
        t.push_back(s.TimeAt(i)); for (unsigned k = 0; k < N; k++) { y.push_back(s.SolutionAt(i)[k]); d.push_back(s.DerivativeAt(i)[k]); }
        if (i && !(t[i] > t[i - 1])) violate("time-stands-still", "step %zu is at t=%.17g, the step before at %.17g", i, t[i], t[i - 1]);
        double f[N]; Eq<N>::rhs(eq.kind, eq.w, t[i], &y[i * N], f);
        for (unsigned k = 0; k < N; k++) if (!(fabs(f[k] - d[i * N + k]) <= 1e-12 * (1 + fabs(f[k])))) violate("derivative-wrong", "derivative stored with step %zu is %.17g, the equation gives %.17g", i, d[i * N + k], f[k]);
    }
    double limit(double T) const { return 2e3 * tol * (1 + eq.w * T) + 1e-9; }
    void accurate(double T, const double *got, const char *what, double extra) {
        double e[N]; Eq<N>::exact(eq.kind, eq.w, T, y0, e); checked();
        for (unsigned k = 0; k < N; k++) if (!(fabs(got[k] - e[k]) <= limit(T) + extra)) violate("solution-wrong", "%s at t=%.10g: component %u is %.12g, should be %.12g (tolerance %g)", what, T, k, got[k], e[k], tol);
    }
    void init() {
        for (unsigned k = 0; k < N; k++) y0[k] = (op(2) ? 0.25 : -0.25) * (1 + (int)op(4));
        Vector<N> v; for (unsigned k = 0; k < N; k++) v[k] = y0[k];
        s.InitialValue(v);
    }
};

template<unsigned N> static void history() {
    static const double tols[] = {1e-4, 1e-6, 1e-8, 1e-11};
    std::vector<std::unique_ptr<Track<N>>> tr; unsigned no = 1 + maybe(250);
    for (unsigned i = 0; i < no; i++) {
        tr.emplace_back(new Track<N>(tols[op(4)])); auto &T = *tr.back();
        T.eq.kind = op(3); T.eq.w = 0.25 + 0.25 * op(12); T.s.SetEquation(&T.eq);
        T.dense = !maybe(150); T.s.ToggleDenseOutput(T.dense);
        if (maybe(500)) { T.fixed = maybe(500); T.s.SetMaxScaleFactor(T.fixed ? 1.0 : 2.0); }
        ev("R01 N=%u kind=%u w=%g tol=%g dense=%d", N, T.eq.kind, T.eq.w, T.tol, T.dense);
    }
    unsigned n = 3 + op(12);
    for (unsigned q = 0; q < n; q++) {
        auto &T = *tr[op(no)]; std::string w;
        trouble = {};
        bool oom = false;
        if (faulty()) switch (draw(FAULT, 7)) {
            case 1: case 2: trouble.mode = 1; trouble.k = draw(FAULT, draw(FAULT, 2) ? 12 : 4000); break;
            case 3: case 4: trouble.mode = 2; trouble.k = draw(FAULT, 60); { static const long len[] = {1, 3, 30, 1l << 60}; trouble.m = len[draw(FAULT, 4)]; trouble.what = draw(FAULT, 3); } break;
            case 6: trouble.mode = 3; trouble.tw = T.t.empty() ? 0 : T.t.back() + (1 + draw(FAULT, 1000)) * 1e-3; trouble.what = draw(FAULT, 3); break;
            case 5: oom = true; break;
            default: break;
        }
        if (T.fixed && trouble.mode >= 2) trouble.mode = 0;    // steps may not grow again
        if (T.t.empty() || maybe(120)) {
            uint64_t f0 = oom_fired; double keep[N]; memcpy(keep, T.y0, sizeof keep);
            if (trouble.mode >= 2) trouble.mode = 0;       // a NaN initial derivative is what was asked for
            bool t = throws([&] { if (oom) oom_plan(draw(FAULT, 3), 1 + draw(FAULT, 2)); T.init(); }, &w);
            oom_off();
            ev("initial value: %s", t ? "exception" : "ok");
            if (t && !trouble.fired && oom_fired == f0) violate("spurious-failure", "setting the initial value fails: %s", w.c_str());
            if (!t) {
                T.t.clear(); T.y.clear(); T.d.clear(); T.push("after the initial value");
                if (T.t[0] != 0) violate("initial-wrong", "integration starts at t=%g", T.t[0]);
                for (unsigned k = 0; k < N; k++) if (T.y[k] != T.y0[k]) violate("initial-wrong", "integration starts at another value");
            } else if (trouble.fired) { memcpy(T.y0, keep, sizeof keep); T.unchanged("after the equation failed at a new initial value"); }
            else { memcpy(T.y0, keep, sizeof keep); T.t.clear(); T.y.clear(); T.d.clear(); }   // no memory: the old solution was given up
            T.unchanged("after setting the initial value");
            continue;
        }
        if (maybe(650)) {
            unsigned k = 1 + (maybe(200) ? 900 + op(300) : op(40)); uint64_t f0 = oom_fired;
            uint32_t nth = draw(FAULT, 8), len = 1 + draw(FAULT, 2);
            bool t = false; unsigned i;
            for (i = 0; i < k && !t; i++) {
                t = throws([&] { if (oom && i == 0) oom_plan(nth, len); else if (oom) oom_resume(); double r = T.s.Step(); oom_off(); if (r != T.s.LastTime()) violate("last-wrong", "Step returns t=%g, the step is at %g", r, T.s.LastTime()); }, &w);
                if (!t) T.push("after a step");
            }
            oom_off();
            ev("%u steps of %u: %s, t=%.17g", t ? i - 1 : i, k, t ? "exception" : "ok", T.s.LastTime());
            if (t && !trouble.fired && oom_fired == f0) violate("spurious-failure", "a step fails: %s", w.c_str());
            T.unchanged(t ? "after a step failed" : "after steps");
            if (t) { count("step_failed"); trouble = {}; std::string w2; if (throws([&] { T.s.Step(); }, &w2)) violate("no-recovery", "a step that failed (%s) cannot be taken again: %s", w.c_str(), w2.c_str()); T.push("after repeating a failed step"); count("step_repeated"); }
            size_t m = T.t.size();
            for (size_t j = 0; j < m; j += 1 + m / 50) T.accurate(T.t[j], &T.y[j * N], "step", 0);
            T.accurate(T.t[m - 1], &T.y[(m - 1) * N], "last step", 0);
            // progress: steps do not stay tiny once the trouble is over
            if (t) {
                double was = T.t.back(); size_t before = T.t.size();
                for (unsigned j = 0; j < 90; j++) { T.s.Step(); T.push("after recovery"); }          // (steps may no more than double, from 1e-19)
                T.unchanged("after recovery");
                (void)before;
                if (!(T.t.back() - was > 1e-6)) violate("no-recovery", "90 steps after a failed one cover %g only", T.t.back() - was);
                T.accurate(T.t.back(), &T.y[(T.t.size() - 1) * N], "step after recovery", 0);
            }
            nontrivial();
            continue;
        }
        if (T.dense) {
            size_t m = T.t.size(); double end = T.t.back();
            bool beyond = maybe(150);
            unsigned k = 1 + op(12);
            std::vector<double> tt(k), out(k * N, -7.0);
            bool uniform = m > 1 && k > 1 && !beyond && maybe(300);
            if (uniform) {
                std::string w2; double a = end * op(9) / 16, b = end * (8 + op(9)) / 16;
                if (throws([&] { T.s.OutputDense(k, a, b, out.data(), tt.data()); }, &w2)) violate("spurious-failure", "dense output between %g and %g fails: %s", a, b, w2.c_str());
                for (unsigned i = 0; i < k; i++) { double want = a + (b - a) * i / (k - 1.0); if (!(fabs(tt[i] - want) <= 1e-12 * (1 + end))) violate("dense-wrong", "dense output point %u of %u is at t=%g instead of %g", i, k, tt[i], want); }
            } else {
                std::vector<int> at(k, -1);
                for (unsigned i = 0; i < k; i++) if (maybe(400)) { at[i] = (int)op((uint32_t)m); tt[i] = T.t[at[i]]; } else tt[i] = end * op(1000001) / 1000000.0;
                if (maybe(500)) { std::vector<unsigned> o; std::sort(tt.begin(), tt.end()); for (unsigned i = 0; i < k; i++) { at[i] = -1; for (size_t j = 0; j < m; j++) if (T.t[j] == tt[i]) at[i] = (int)j; } }
                if (beyond) { unsigned i = op(k); tt[i] = maybe(500) ? (maybe(500) ? std::nextafter(end, 1e300) : end * (1 + 1e-9) + 1e-6) : maybe(500) ? -1e-6 : -5e-324; at[i] = -1; }
                std::string w2;
                bool t = throws([&] { T.s.OutputDense(k, tt.data(), out.data()); }, &w2);
                ev("dense output of %zu steps: %s", m, t ? "exception" : "ok");
                if (m < 2 || beyond) { if (!t) violate("extrapolated", "dense output outside the %zu steps taken is given", m); T.unchanged("after dense output"); continue; }
                if (t) violate("spurious-failure", "dense output within [0,%g] fails: %s", end, w2.c_str());
                for (unsigned i = 0; i < k; i++) if (at[i] >= 0) for (unsigned c = 0; c < N; c++) { double v = T.y[at[i] * N + c]; if (!(fabs(out[i * N + c] - v) <= 1e-11 * (1 + fabs(v)))) violate("dense-wrong", "dense output at the time of step %d of %zu is %.17g, the step is %.17g", at[i], m, out[i * N + c], v); }
            }
            if (m < 2) continue;
            for (unsigned i = 0; i < k; i++) {
                // between steps the interpolant is of lower order than the steps
                size_t j = 0; while (j + 2 < m && T.t[j + 1] < tt[i]) j++;
                double h = T.t[j + 1] - T.t[j], sc = 0; for (unsigned c = 0; c < N; c++) sc += fabs(T.y0[c]);
                T.accurate(tt[i], &out[i * N], "dense output", 0.05 * (sc + 1) * (1 + T.eq.w) * pow(h * T.eq.w, 5));
            }
            T.unchanged("after dense output");
            count("dense_output");
        }
    }
    nontrivial();
}
static void r01() {
    switch (op(3)) { case 0: history<2>(); break; case 1: history<1>(); break; default: history<3>(); }
}
static Reg r("R01", r01, 700);

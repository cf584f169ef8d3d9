// C24: transforms and circular products against their definitions.
#include "common.h"
#include <trident/utils/fft.h>
#include <complex>
#include <cmath>
using namespace vf; using std::vector;
void fft(std::vector<Complex> &in, std::vector<Complex> &out);
void ifft(std::vector<Complex> &in, std::vector<Complex> &out);
void ccorr(std::vector<Complex> &a, std::vector<Complex> &b, std::vector<double> &out);
void cconv(std::vector<Complex> &a, std::vector<Complex> &b, std::vector<double> &out);
typedef std::complex<double> C;
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * scale + 1e-12; }
static void oneCase(Rng &r, uint64_t) {
    int n = r.chance(15) ? 1 + r.below(3) : r.chance(10) ? 100 + r.below(60) : 1 + r.below(48);
    double mag = std::pow(10.0, (int) r.below(7) - 3);
    auto val = [&]() { return r.chance(10) ? 0.0 : (r.real() * 2 - 1) * mag; };
    vector<double> a(n), b(n);
    for (auto &x : a) x = val();
    for (auto &x : b) x = val();
    double sc = mag * mag * n;
    vector<double> conv(n), corr(n);
    for (int k = 0; k < n; ++k) { double s = 0, t = 0; for (int i = 0; i < n; ++i) { s += a[i] * b[((k - i) % n + n) % n]; t += a[i] * b[(i + k) % n]; } conv[k] = s; corr[k] = t; }
    vector<double> ac = a, bc = b;
    auto cmp = [&](const char *what, const vector<double> &g, const vector<double> &w, size_t pre, double tol) {
        if (g.size() != w.size() + pre) { violation(fmt("%s:size", what), fmt("%s of two vectors of length %d has %zu elements", what, n, g.size() - pre)); return; }
        for (int i = 0; i < n; ++i) if (std::fabs(g[pre + i] - w[i]) > tol * sc + 1e-12) { violation(fmt("%s:value", what), fmt("%s of length %d: element %d is %.17g, by definition %.17g", what, n, i, g[pre + i], w[i])); return; }
    };
    size_t pre = r.below(3); // results are appended
    { vector<double> o(pre, 3.5); cconv(a.data(), b.data(), n, o); cmp("cconv", o, conv, pre, 1e-9); for (size_t i = 0; i < pre; ++i) VF_CHECK(o[i] == 3.5, "cconv:append", "earlier results changed"); }
    { vector<double> o(pre, 3.5); ccorr(a.data(), b.data(), n, o); cmp("ccorr", o, corr, pre, 1e-9); }
    { vector<float> o(pre, 3.5f); cconv(a.data(), b.data(), n, o); cmp("cconvf", vector<double>(o.begin(), o.end()), conv, pre, 1e-5); }
    { vector<float> o(pre, 3.5f); ccorr(a.data(), b.data(), n, o); cmp("ccorrf", vector<double>(o.begin(), o.end()), corr, pre, 1e-5); }
    VF_CHECK(a == ac && b == bc, "fft:inputs", "the inputs were changed");
    // transforms of complex vectors
    vector<Complex> x(n), X(n), y(n), z(n); vector<C> cx(n);
    for (int i = 0; i < n; ++i) { x[i] = Complex(val(), val()); cx[i] = C(x[i].real, x[i].imag); }
    fft(x, X);
    for (int k = 0; k < n; ++k) {
        C s = 0; for (int t = 0; t < n; ++t) { double an = -2 * M_PI * (double) ((long) t * k % n) / n; s += cx[t] * C(std::cos(an), std::sin(an)); }
        if (!near(s.real(), X[k].real, mag * n * 100) || !near(s.imag(), X[k].imag, mag * n * 100)) { violation("fft:value", fmt("fft of length %d: element %d is (%g,%g), by definition (%g,%g)", n, k, X[k].real, X[k].imag, s.real(), s.imag())); break; }
    }
    vector<Complex> X2 = X; ifft(X2, y);
    for (int i = 0; i < n; ++i) if (!near(y[i].real, cx[i].real(), mag * n * 100) || !near(y[i].imag, cx[i].imag(), mag * n * 100)) { violation("fft:inverse", fmt("ifft(fft(x)) differs from x at %d of %d: (%g,%g), expected (%g,%g)", i, n, y[i].real, y[i].imag, cx[i].real(), cx[i].imag())); break; }
    // complex arithmetic
    for (int k = 0; k < 8; ++k) {
        Complex p(val(), val()), q(val(), val()); C cp(p.real, p.imag), cq(q.real, q.imag); double d = val() + (r.chance(50) ? mag * 2 : -mag * 2);
        auto eq = [&](const char *what, Complex g, C w) { VF_CHECK(near(g.real, w.real(), mag * mag * 4 + mag * 4) && near(g.imag, w.imag(), mag * mag * 4 + mag * 4), fmt("complex:%s", what), "%s gives (%g,%g), expected (%g,%g)", what, g.real, g.imag, w.real(), w.imag()); };
        eq("mul", p * q, cp * cq); { Complex t = p; t *= q; eq("mul-assign", t, cp * cq); } { Complex t = p; t += q; eq("add-assign", t, cp + cq); }
        eq("conj", ~p, std::conj(cp)); eq("div", p / d, cp / d); { Complex t; t = p; eq("assign", t, cp); }
        { Complex t = p; t *= t; eq("square", t, cp * cp); }
        Complex zz; VF_CHECK(zz.real == 0 && zz.imag == 0, "complex:zero", "default is not zero");
    }
    double s = val() * 10; VF_CHECK(near(sigmoid(s), s / (1 + std::fabs(s)), 1) && std::fabs(sigmoid(s)) < 1, "sigmoid", "sigmoid(%g) = %g", s, sigmoid(s));
    VF_CHECK(near(sigmoid_given_fun(s), s * (1 - s), 1 + s * s), "sigmoid-derivative", "sigmoid_given_fun(%g) = %g", s, sigmoid_given_fun(s));
    add("products", 4); add("transforms", 2); distinct(mix(n, hashStr(fmt("%g%g", a[0], b[0])))); sample(fmt("n=%llu a[0]=%g b[0]=%g", (unsigned long long)n, a[0], b[0]));
}
int main(int argc, char **argv) { return run(argc, argv, oneCase); }

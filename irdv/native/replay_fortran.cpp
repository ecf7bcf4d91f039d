// Fortran-callable wrappers against the drivers, ODE drivers against the recursion, for small dimensions.
#include <adolc/adolc.h>
#include <adolc/drivers/odedrivers.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <vector>
extern "C" fint zos_forward_(const fint *, const fint *, const fint *, const fint *, const fdouble *, fdouble *);
static int bad = 0;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
#define CK(c, ...) do { if (!(c) && !bad++) { printf("MISMATCH " __VA_ARGS__); printf("\n"); } } while (0)
typedef std::vector<double> V;
static std::mt19937 g;
static double U() { return std::uniform_real_distribution<double>(0.2, 2)(g); }
static V rnd(size_t n) { V v(n + 2); for (auto &q : v) q = U(); return v; }
struct M2 { int a, b; double **p; M2(int x, int y) : a(x), b(y), p(myalloc2(x, y)) {} ~M2() { myfree2(p); }
  void get(const V &v) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) p[i][j] = v[j * a + i]; }
  bool same(const V &v) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) if (!near(p[i][j], v[j * a + i])) return false; return true; } };
struct M3 { int a, b, c; double ***p; M3(int x, int y, int z) : a(x), b(y), c(z), p(myalloc3(x, y, z)) {} ~M3() { myfree3(p); }
  void get(const V &v) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) p[i][j][k] = v[(k * b + j) * a + i]; }
  bool same(const V &v) { for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) if (!near(p[i][j][k], v[(k * b + j) * a + i])) return false; return true; } };
static bool same(const V &a, const V &b, int n) { for (int i = 0; i < n; i++) if (!near(a[i], b[i])) return false; return true; }
static short tape(int m, int n) {
  const short t = createNewTape(); setCurrentTape(t);
  double dummy;
  trace_on(t);
  { std::vector<adouble> x(n); for (auto &q : x) q <<= 1.0;
    for (int i = 0; i < m; i++) { adouble y = sin(x[i % n]) * x[(i + 1) % n]; for (int j = 0; j < n; j++) y += (i + 2.0 * j + 1) * x[j] * x[j] * x[0]; y >>= dummy; } }
  trace_off();
  return t;
}
int main(int argc, char **argv) {
  g.seed(argc > 1 ? atoi(argv[1]) : 1);
  for (int m = 1; m <= 3; m++) for (int n = 1; n <= 3; n++) for (int d = 1; d <= 3; d++) {
    const short t = tape(m, n); const int p = 1 + (m + n + d) % 3, q = p;
    fint ft = t, fm = m, fn = n, fd = d, fp = p, fq = q, f0 = 0, fk = d + 1; int rc; fint fr;
#define W "m=%d n=%d d=%d", m, n, d
    V x = rnd(n), v = rnd(n), u = rnd(m), a(m * n * 8 + 8), b(a), y1(m + 2), y2(m + 2);
    rc = function(t, m, n, x.data(), a.data()); fr = function_(&ft, &fm, &fn, x.data(), b.data()); CK(rc == fr && same(a, b, m), "function_ " W);
    if (m == 1) { rc = gradient(t, n, x.data(), a.data()); fr = gradient_(&ft, &fn, x.data(), b.data()); CK(rc == fr && same(a, b, n), "gradient_ " W);
      rc = hess_vec(t, n, x.data(), v.data(), a.data()); fr = hess_vec_(&ft, &fn, x.data(), v.data(), b.data()); CK(rc == fr && same(a, b, n), "hess_vec_ " W);
      M2 H(n, n); V h = rnd(n * n), h0 = h; rc = hessian(t, n, x.data(), H.p); fr = hessian_(&ft, &fn, x.data(), h.data());
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CK(rc == fr && near(h[j * n + i], j <= i ? H.p[i][j] : h0[j * n + i]), "hessian_ [%d][%d] m=%d n=%d d=%d", i, j, m, n, d); }
    fint rep = 0; rc = vec_jac(t, m, n, 0, x.data(), u.data(), a.data()); fr = vec_jac_(&ft, &fm, &fn, &rep, x.data(), u.data(), b.data()); CK(rc == fr && same(a, b, n), "vec_jac_ " W);
    rc = jac_vec(t, m, n, x.data(), v.data(), a.data()); fr = jac_vec_(&ft, &fm, &fn, x.data(), v.data(), b.data()); CK(rc == fr && same(a, b, m), "jac_vec_ " W);
    rc = lagra_hess_vec(t, m, n, x.data(), v.data(), u.data(), a.data()); fr = lagra_hess_vec_(&ft, &fm, &fn, x.data(), v.data(), u.data(), b.data()); CK(rc == fr && same(a, b, n), "lagra_hess_vec_ " W);
    { M2 J(m, n); V j(m * n + 2); rc = jacobian(t, m, n, x.data(), J.p); fr = jacobian_(&ft, &fm, &fn, x.data(), j.data()); CK(rc == fr && J.same(j), "jacobian_ " W); }
    { fint k = 0; rc = zos_forward(t, m, n, 0, x.data(), a.data()); fr = zos_forward_(&ft, &fm, &fn, &k, x.data(), b.data()); CK(rc == fr && same(a, b, m), "zos_forward_ " W); }
    { M2 X(n, d), Y(m, d); V fx = rnd(n * d), fy(m * d + 2); X.get(fx); rc = hos_forward(t, m, n, d, d + 1, x.data(), X.p, y1.data(), Y.p);
      fr = hos_forward_(&ft, &fm, &fn, &fd, &fk, x.data(), fx.data(), y2.data(), fy.data()); CK(rc == fr && same(y1, y2, m) && Y.same(fy), "hos_forward_ " W);
      M2 Z(n, d + 1); V fz(n * (d + 1) + 2); rc = hos_reverse(t, m, n, d, u.data(), Z.p); fr = hos_reverse_(&ft, &fm, &fn, &fd, u.data(), fz.data()); CK(rc == fr && Z.same(fz), "hos_reverse_ " W);
      M2 UU(m, d + 1); V fu = rnd(m * (d + 1)); UU.get(fu); rc = hos_ti_reverse(t, m, n, d, UU.p, Z.p); fr = hos_ti_reverse_(&ft, &fm, &fn, &fd, fu.data(), fz.data()); CK(rc == fr && Z.same(fz), "hos_ti_reverse_ " W);
      M2 UQ(q, m); V fuq = rnd(q * m); UQ.get(fuq); M3 ZQ(q, n, d + 1); V fzq(q * n * (d + 1) + 2);
      rc = hov_reverse(t, m, n, d, q, UQ.p, ZQ.p, 0); fr = hov_reverse_(&ft, &fm, &fn, &fd, &fq, fuq.data(), fzq.data()); CK(rc == fr && ZQ.same(fzq), "hov_reverse_ " W);
      M3 U3(q, m, d + 1); V fu3 = rnd(q * m * (d + 1)); U3.get(fu3);
      rc = hov_ti_reverse(t, m, n, d, q, U3.p, ZQ.p, 0); fr = hov_ti_reverse_(&ft, &fm, &fn, &fd, &fq, fu3.data(), fzq.data()); CK(rc == fr && ZQ.same(fzq), "hov_ti_reverse_ " W); }
    { M2 X(n, p), Y(m, p); V fx = rnd(n * p), fy(m * p + 2); X.get(fx); rc = fov_forward(t, m, n, p, x.data(), X.p, y1.data(), Y.p);
      fr = fov_forward_(&ft, &fm, &fn, &fp, x.data(), fx.data(), y2.data(), fy.data()); CK(rc == fr && same(y1, y2, m) && Y.same(fy), "fov_forward_ " W); }
    { M3 X(n, p, d), Y(m, p, d); V fx = rnd(n * p * d), fy(m * p * d + 2); X.get(fx); rc = hov_forward(t, m, n, d, p, x.data(), X.p, y1.data(), Y.p);
      fr = hov_forward_(&ft, &fm, &fn, &fd, &fp, x.data(), fx.data(), y2.data(), fy.data()); CK(rc == fr && same(y1, y2, m) && Y.same(fy), "hov_forward_ " W); }
    zos_forward(t, m, n, 1, x.data(), y1.data());
    rc = fos_reverse(t, m, n, u.data(), a.data()); fr = fos_reverse_(&ft, &fm, &fn, u.data(), b.data()); CK(rc == fr && same(a, b, n), "fos_reverse_ " W);
    { M2 UQ(q, m), Z(q, n); V fu = rnd(q * m), fz(q * n + 2); UQ.get(fu); rc = fov_reverse(t, m, n, q, UQ.p, Z.p); fr = fov_reverse_(&ft, &fm, &fn, &fq, fu.data(), fz.data()); CK(rc == fr && Z.same(fz), "fov_reverse_ " W); }
  }
  // ODE drivers
  for (int n = 1; n <= 3; n++) for (int order = 0; order < 4; order++) {
    const short t = tape(n, n);
    static const int seq[4][5] = {{0, 1, 2, 3, 4}, {0, 4, 0, 0, 0}, {0, 2, 4, 0, 0}, {0, 3, 0, 2, 5}};
    double tau = order % 2 ? 1.0 : 0.5; const int D = 6;
    M2 Y(n, D + 1); V fy(n * (D + 1) + 2); V x0 = rnd(n); int dol = 0;
    for (int i = 0; i < n; i++) { Y.p[i][0] = x0[i]; fy[i] = x0[i]; }
    for (int s = 1; s < 5; s++) {
      const int deg = seq[order][s]; if (!deg) { dol = 0; continue; }
      if (deg <= dol) dol = 0;
      const int rc = forodec(t, n, tau, dol, deg, Y.p);
      fint ft = t, fn = n, fo = dol, fd = deg; const fint fr = forodec_(&ft, &fn, &tau, &fo, &fd, fy.data());
      CK(rc == fr, "forodec_ n=%d code", n);
      for (int i = 0; i < n; i++) for (int k = 0; k <= deg; k++) CK(near(Y.p[i][k], fy[k * n + i]), "forodec_ n=%d dol=%d deg=%d [%d][%d]", n, dol, deg, i, k);
      M2 X(n, D), F(n, D); V b(n), y(n);
      for (int i = 0; i < n; i++) { b[i] = Y.p[i][0]; CK(near(b[i], x0[i]), "forodec base point n=%d dol=%d deg=%d [%d] = %g instead of %g", n, dol, deg, i, b[i], x0[i]); for (int k = 0; k < deg; k++) X.p[i][k] = Y.p[i][k + 1]; }
      if (deg > 1) hos_forward(t, n, n, deg - 1, 0, b.data(), X.p, y.data(), F.p); else zos_forward(t, n, n, 0, b.data(), y.data());
      for (int i = 0; i < n; i++) for (int k = 0; k < deg; k++) { const double w = tau / (k + 1) * (k ? F.p[i][k - 1] : y[i]); CK(near(Y.p[i][k + 1], w), "forodec n=%d tau=%g dol=%d deg=%d coefficient [%d][%d] = %g instead of %g", n, tau, dol, deg, i, k + 1, Y.p[i][k + 1], w); }
      dol = deg;
    }
  }
  for (int n = 1; n <= 4; n++) for (int deg = 0; deg <= 4; deg++) for (int pat = 0; pat < 8; pat++) {
    const double tau = 0.7; M3 A(n, n, deg + 1), B(n, n, deg + 1), C(n, n, deg + 1); V fa(n * n * (deg + 1) + 2), fb(fa); std::vector<short> nz(n * n); std::vector<short *> np(n);
    for (int i = 0; i < n; i++) { np[i] = &nz[i * n]; for (int j = 0; j < n; j++) { nz[i * n + j] = pat ? (short)(g() % 3) : 2; for (int k = 0; k <= deg; k++) { A.p[i][j][k] = nz[i * n + j] == 2 || (nz[i * n + j] == 1 && !k) ? U() : 0; fa[(k * n + j) * n + i] = A.p[i][j][k]; } } }
    for (int k = 0; k <= deg; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = A.p[i][j][k]; for (int m = 1; m <= k; m++) for (int q = 0; q < n; q++) s += A.p[i][q][m - 1] * C.p[q][j][k - m]; C.p[i][j][k] = s * tau / (k + 1); }
    accodec(n, tau, deg, A.p, B.p, pat ? np.data() : 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k <= deg; k++) CK(near(B.p[i][j][k], C.p[i][j][k]), "accodec n=%d deg=%d pattern=%d [%d][%d][%d] = %g instead of %g", n, deg, pat, i, j, k, B.p[i][j][k], C.p[i][j][k]);
    if (!pat) { fint fn = n, fd = deg; double ft = tau; accodec_(&fn, &ft, &fd, fa.data(), fb.data()); CK(C.same(fb), "accodec_ n=%d deg=%d", n, deg); }
  }
  return bad ? 1 : 0;
}

// Easy-to-use drivers against analytic derivatives, for all small dimensions.
#include <adolc/adolc.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <vector>
static int bad = 0;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
#define CK(c, ...) do { if (!(c) && !bad++) { printf("MISMATCH " __VA_ARGS__); printf("\n"); } } while (0)
typedef std::vector<double> V;
struct Mat { int m, n; double **p; Mat(int m_, int n_) : m(m_), n(n_), p(myalloc2(m_, n_)) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) p[i][j] = 77.5; } ~Mat() { myfree2(p); } };
int main(int argc, char **argv) {
  std::mt19937 g(argc > 1 ? atoi(argv[1]) : 1);
  std::uniform_real_distribution<double> U(-2, 2);
  for (int m = 1; m <= 5; m++) for (int n = 1; n <= 7; n++) for (int sw = 0; sw < 3; sw++) {
    // y_i = a_i x + x B_i x + cubic; sw: 0 smooth, 1 branch switches at the point, 2 tie at the point
    std::vector<V> a(m, V(n)); std::vector<std::vector<V>> B(m, std::vector<V>(n, V(n))); V c(m);
    for (int i = 0; i < m; i++) { c[i] = U(g); for (int j = 0; j < n; j++) { a[i][j] = U(g); for (int k = 0; k < n; k++) B[i][j][k] = U(g); } }
    const short t = createNewTape(); setCurrentTape(t);
    double dummy;
    trace_on(t);
    { std::vector<adouble> x(n); for (auto &q : x) q <<= 1.0;
      adouble s = fabs(x[0] + 5.0);
      for (int i = 0; i < m; i++) { adouble y = c[i] * x[0] * x[n - 1] * x[n / 2] + s; for (int j = 0; j < n; j++) { y += a[i][j] * x[j]; for (int k = 0; k < n; k++) y += B[i][j][k] * x[j] * x[k]; } y >>= dummy; } }
    trace_off();
    V x(n), v(n), u(m); for (auto &q : x) q = U(g); for (auto &q : v) q = U(g); for (auto &q : u) q = U(g);
    if (sw == 1) x[0] = -7; if (sw == 2) x[0] = -5;
    const double sg = x[0] > -5 ? 1 : x[0] < -5 ? -1 : 0;
    V y(m); std::vector<V> J(m, V(n)); std::vector<std::vector<V>> H(m, std::vector<V>(n, V(n)));
    int f3[3] = {0, n - 1, n / 2};
    for (int i = 0; i < m; i++) {
      y[i] = c[i] * x[0] * x[n - 1] * x[n / 2] + std::fabs(x[0] + 5);
      J[i][0] += sg;
      for (int r = 0; r < 3; r++) { double p = c[i]; for (int q = 0; q < 3; q++) if (q != r) p *= x[f3[q]]; J[i][f3[r]] += p;
        for (int q = 0; q < 3; q++) if (q != r) H[i][f3[r]][f3[q]] += c[i] * x[f3[3 - r - q]]; }
      for (int j = 0; j < n; j++) { y[i] += a[i][j] * x[j]; J[i][j] += a[i][j]; for (int k = 0; k < n; k++) { y[i] += B[i][j][k] * x[j] * x[k]; J[i][j] += B[i][j][k] * x[k]; J[i][k] += B[i][j][k] * x[j]; H[i][j][k] += B[i][j][k]; H[i][k][j] += B[i][j][k]; } }
    }
    V y2(m); const int rc0 = zos_forward(t, m, n, 1, x.data(), y2.data());
    V z(n); V uu(m, 1.0);
    const int rcr = fos_reverse(t, m, n, uu.data(), z.data()), both = std::min(rc0, rcr);
    int rc;
#define CODE(w, e) CK(rc == (e), "%s m=%d n=%d: code %d instead of %d", w, m, n, rc, (e))
    y2.assign(m, 0); rc = function(t, m, n, x.data(), y2.data()); CODE("function", rc0);
    for (int i = 0; i < m; i++) CK(near(y2[i], y[i]), "function m=%d n=%d [%d] %g %g", m, n, i, y2[i], y[i]);
    { Mat M(m, n); rc = jacobian(t, m, n, x.data(), M.p);
      if (sw != 2) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CK(near(M.p[i][j], J[i][j]), "jacobian m=%d n=%d [%d][%d] = %g instead of %g", m, n, i, j, M.p[i][j], J[i][j]);
      if (sw != 2) CODE("jacobian", both); }
    if (sw == 2) continue;
    for (int r = -1; r <= n + 2; r++) {
      Mat M(m, n); V yy(m); rc = large_jacobian(t, m, n, r, x.data(), yy.data(), M.p); CODE("large_jacobian", rc0);
      for (int i = 0; i < m; i++) { CK(near(yy[i], y[i]), "large_jacobian m=%d n=%d runs=%d value", m, n, r); for (int j = 0; j < n; j++) CK(near(M.p[i][j], J[i][j]), "large_jacobian m=%d n=%d runs=%d [%d][%d] = %g instead of %g", m, n, r, i, j, M.p[i][j], J[i][j]); }
    }
    for (int rep = 0; rep < 2; rep++) {
      if (rep) zos_forward(t, m, n, 1, x.data(), y2.data());
      rc = vec_jac(t, m, n, rep, x.data(), u.data(), z.data()); CODE(rep ? "vec_jac(repeat)" : "vec_jac", rep ? rcr : both);
      for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += u[i] * J[i][j]; CK(near(z[j], s), "vec_jac m=%d n=%d repeat=%d [%d] = %g instead of %g", m, n, rep, j, z[j], s); }
    }
    rc = jac_vec(t, m, n, x.data(), v.data(), y2.data()); CODE("jac_vec", rc0);
    for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += J[i][j] * v[j]; CK(near(y2[i], s), "jac_vec m=%d n=%d [%d] = %g instead of %g", m, n, i, y2[i], s); }
    rc = lagra_hess_vec(t, m, n, x.data(), v.data(), u.data(), z.data()); CODE("lagra_hess_vec", both);
    for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) for (int k = 0; k < n; k++) s += u[i] * H[i][j][k] * v[k]; CK(near(z[j], s), "lagra_hess_vec m=%d n=%d [%d] = %g instead of %g", m, n, j, z[j], s); }
    if (m == 1) {
      rc = gradient(t, n, x.data(), z.data()); CODE("gradient", both);
      for (int j = 0; j < n; j++) CK(near(z[j], J[0][j]), "gradient n=%d [%d] = %g instead of %g", n, j, z[j], J[0][j]);
      rc = hess_vec(t, n, x.data(), v.data(), z.data()); CODE("hess_vec", both);
      for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += H[0][j][k] * v[k]; CK(near(z[j], s), "hess_vec n=%d [%d] = %g instead of %g", n, j, z[j], s); }
      for (int w = 0; w < 2; w++) {
        Mat M(n, n); rc = w ? hessian2(t, n, x.data(), M.p) : hessian(t, n, x.data(), M.p); CODE(w ? "hessian2" : "hessian", both);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CK(near(M.p[i][j], j <= i ? H[0][i][j] : 77.5), "hessian%s n=%d [%d][%d] = %g instead of %g", w ? "2" : "", n, i, j, M.p[i][j], j <= i ? H[0][i][j] : 77.5);
      }
      for (int q = 1; q < 4; q++) {
        Mat W(n, q), D(n, q); for (int i = 0; i < n; i++) for (int l = 0; l < q; l++) D.p[i][l] = U(g);
        rc = hess_mat(t, n, q, x.data(), D.p, W.p); CODE("hess_mat", both);
        for (int i = 0; i < n; i++) for (int l = 0; l < q; l++) { double s = 0; for (int k = 0; k < n; k++) s += H[0][i][k] * D.p[k][l]; CK(near(W.p[i][l], s), "hess_mat n=%d q=%d [%d][%d] = %g instead of %g", n, q, i, l, W.p[i][l], s); }
      }
    }
  }
  return bad ? 1 : 0;
}

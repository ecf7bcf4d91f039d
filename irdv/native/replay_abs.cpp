// Random piecewise smooth programs through the abs-normal sweeps, against a direct evaluation.
#include <adolc/adolc.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <vector>
using V = std::vector<double>;
struct Op { int k, r, a, b; double c; };
static std::mt19937 rng;
static int pick(int n) { return std::uniform_int_distribution<int>(0, n - 1)(rng); }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static int S = 5;
struct Prog { int n; std::vector<Op> ops; int s = 0; };

static Prog random_prog() {
  Prog p; p.n = 2 + pick(2);
  int m = 3 + pick(8);
  for (int i = 0; i < m; i++) {
    Op o{pick(8), pick(S), pick(S), pick(S), (double)(pick(7) - 3)};
    if (o.k >= 6) o.k = 3;
    if (o.k == 3) p.s++;
    p.ops.push_back(o);
  }
  return p;
}
static void record(const Prog &p, const V &x, short T) {
  setCurrentTape(T);
  currentTape().enableMinMaxUsingAbs();
  trace_on(T);
  {
    std::vector<adouble> z(S);
    for (int i = 0; i < S; i++) z[i] = 0.5 * i;
    for (int i = 0; i < p.n; i++) z[i] <<= x[i];
    for (auto &o : p.ops) switch (o.k) {
      case 0: z[o.r] = z[o.a] + z[o.b]; break;
      case 1: z[o.r] = z[o.a] - o.c; break;
      case 2: z[o.r] = z[o.a] * o.c; break;
      case 3: z[o.r] = fabs(z[o.a]); break;
      case 4: z[o.r] += z[o.a]; break;
      case 5: z[o.r] = sin(z[o.a]) * z[o.b]; break;
    }
    double y;
    z[S - 1] >>= y; z[0] >>= y;
  }
  trace_off();
}
struct Ref { V z; std::vector<V> t; V sw; std::vector<V> swt; std::vector<int> sig; };
// mode 0: abs-normal (increments), 1: fixed signature (no direction), 2: with direction; 3: plain values
static Ref forward(const Prog &p, const V &x, const std::vector<V> &X, int P, int mode, const std::vector<short> &sb, const std::vector<short> &sd) {
  Ref R; R.z.assign(S, 0); R.t.assign(S, V(P, 0.0));
  for (int i = 0; i < S; i++) R.z[i] = 0.5 * i;
  for (int i = 0; i < p.n; i++) { R.z[i] = x[i]; R.t[i] = X[i]; }
  int s = 0;
  for (auto &o : p.ops) {
    V u(P); double v = 0; double a = R.z[o.a], b = R.z[o.b]; V ta = R.t[o.a], tb = R.t[o.b];
    switch (o.k) {
    case 0: v = a + b; for (int q = 0; q < P; q++) u[q] = ta[q] + tb[q]; break;
    case 1: v = a - o.c; u = ta; break;
    case 2: v = a * o.c; for (int q = 0; q < P; q++) u[q] = ta[q] * o.c; break;
    case 4: v = R.z[o.r] + a; for (int q = 0; q < P; q++) u[q] = R.t[o.r][q] + ta[q]; break;
    case 5: v = std::sin(a) * b; for (int q = 0; q < P; q++) u[q] = std::cos(a) * ta[q] * b + std::sin(a) * tb[q]; break;
    case 3:
      R.sw.push_back(a);
      if ((mode == 1 || mode == 2) && sb[s] == 0) {
        a = 0;
        if (mode == 2) ta[0] = sd[s] > 0 ? std::fmax(0, ta[0]) : sd[s] < 0 ? std::fmin(0, ta[0]) : 0.0;
        R.z[o.a] = a; R.t[o.a] = ta;
      }
      { int y = a > 1e-12 ? 1 : a < -1e-12 ? -1 : 0;
        for (int q = 0; q < P && y == 0; q++) y = ta[q] > 0 ? 1 : ta[q] < 0 ? -1 : 0;
        R.sig.push_back(y); R.swt.push_back(ta);
        v = std::fabs(a);
        for (int q = 0; q < P; q++) u[q] = mode == 0 ? std::fabs(a + ta[q]) - std::fabs(a) : y * ta[q]; }
      s++; break;
    }
    R.z[o.r] = v; R.t[o.r] = u;
  }
  return R;
}
static int fail(const char *what, int i, double got, double want) { std::printf("MISMATCH %s[%d]: %.17g, directly %.17g\n", what, i, got, want); return 1; }
static double **mat(std::vector<V> &M) { static std::vector<std::vector<double *>> keep; keep.emplace_back(); for (auto &r : M) keep.back().push_back(r.data()); keep.back().push_back(nullptr); return keep.back().data(); }

static int one(short T) {
  Prog p = random_prog();
  V x0(p.n), x(p.n);
  for (auto &q : x0) q = pick(7) - 3;
  for (auto &q : x) q = pick(9) - 4;
  record(p, x0, T);
  const int n = p.n, s = p.s, P = 1 + pick(4);
  if (s == 0) return 0;
  if ((int)get_num_switches(T) != s) return fail("get_num_switches", 0, get_num_switches(T), s);
  std::vector<V> X(n, V(P)); for (auto &r : X) for (auto &q : r) q = pick(5) - 2;
  std::vector<short> sb(s), sd(s), sg(s, 7); for (auto &q : sb) q = pick(3) - 1; for (auto &q : sd) q = pick(3) - 1;
  V y(2), sw(s, -99.);
  zos_pl_forward(T, 2, n, 0, x.data(), y.data(), sw.data());
  Ref R = forward(p, x, X, P, 0, sb, sd);
  auto vals = [&](const char *w, Ref &R) { int yi[2] = {S - 1, 0}; for (int i = 0; i < 2; i++) if (!near(y[i], R.z[yi[i]])) return fail(w, i, y[i], R.z[yi[i]]);
    for (int i = 0; i < s; i++) if (!near(sw[i], R.sw[i])) return fail((std::string(w) + " switching variable").c_str(), i, sw[i], R.sw[i]); return 0; };
  if (vals("zos_pl_forward", R)) return 1;
  for (int mode = 0; mode < 3; mode++) {
    // vector
    std::vector<V> Y(2, V(P, -7.)), swt(s, V(P, -7.));
    std::fill(sw.begin(), sw.end(), -99.); std::fill(sg.begin(), sg.end(), 7);
    const char *nm = mode == 0 ? "fov_pl_forward" : mode == 1 ? "fov_pl_sig_forward without direction" : "fov_pl_sig_forward";
    if (mode == 0) fov_pl_forward(T, 2, n, P, x.data(), mat(X), y.data(), mat(Y), sw.data(), mat(swt), sg.data());
    else fov_pl_sig_forward(T, 2, n, P, x.data(), mat(X), s, sb.data(), mode == 2 ? sd.data() : nullptr, y.data(), mat(Y), sw.data(), mat(swt), sg.data());
    R = forward(p, x, X, P, mode, sb, sd);
    if (vals(nm, R)) return 1;
    int yi[2] = {S - 1, 0};
    for (int i = 0; i < s; i++) { if (sg[i] != R.sig[i]) return fail((std::string(nm) + " sign").c_str(), i, sg[i], R.sig[i]);
      for (int q = 0; q < P; q++) if (!near(swt[i][q], R.swt[i][q])) return fail((std::string(nm) + " switching tangent").c_str(), i, swt[i][q], R.swt[i][q]); }
    for (int i = 0; i < 2; i++) for (int q = 0; q < P; q++) if (!near(Y[i][q], R.t[yi[i]][q])) return fail((std::string(nm) + " tangent").c_str(), i, Y[i][q], R.t[yi[i]][q]);
    // scalar
    V X1(n), Y1(2, -7.), swt1(s, -7.); std::vector<V> XX(n, V(1)); for (int i = 0; i < n; i++) { X1[i] = X[i][0]; XX[i][0] = X[i][0]; }
    std::fill(sw.begin(), sw.end(), -99.); std::fill(sg.begin(), sg.end(), 7);
    nm = mode == 0 ? "fos_pl_forward" : mode == 1 ? "fos_pl_sig_forward without direction" : "fos_pl_sig_forward";
    if (mode == 0) fos_pl_forward(T, 2, n, x.data(), X1.data(), y.data(), Y1.data(), sw.data(), swt1.data());
    else fos_pl_sig_forward(T, 2, n, x.data(), X1.data(), s, sb.data(), mode == 2 ? sd.data() : nullptr, y.data(), Y1.data(), sw.data(), swt1.data(), sg.data());
    R = forward(p, x, XX, 1, mode, sb, sd);
    if (vals(nm, R)) return 1;
    for (int i = 0; i < s; i++) { if (mode && sg[i] != R.sig[i]) return fail((std::string(nm) + " sign").c_str(), i, sg[i], R.sig[i]);
      if (!near(swt1[i], R.swt[i][0])) return fail((std::string(nm) + " switching tangent").c_str(), i, swt1[i], R.swt[i][0]); }
    for (int i = 0; i < 2; i++) if (!near(Y1[i], R.t[yi[i]][0])) return fail((std::string(nm) + " tangent").c_str(), i, Y1[i], R.t[yi[i]][0]);
  }
  // reverse
  const int Q = 1 + pick(3);
  std::vector<V> L(Q, V(2)), LS(Q, V(s)), Z(Q, V(n, -5.)), ZS(Q, V(s, -5.)), WZ(Q, V(n)), WZS(Q, V(s)), SZ(1, V(n));
  std::vector<short> gs(s); for (auto &q : gs) q = pick(3) - 1;
  for (auto &r : L) for (auto &q : r) q = pick(5) - 2;
  for (auto &r : LS) for (auto &q : r) q = pick(5) - 2;
  // values before each operation
  std::vector<V> hist; { V z(S); for (int i = 0; i < S; i++) z[i] = 0.5 * i; for (int i = 0; i < n; i++) z[i] = x[i];
    for (auto &o : p.ops) { hist.push_back(z); double a = z[o.a], b = z[o.b]; z[o.r] = o.k == 0 ? a + b : o.k == 1 ? a - o.c : o.k == 2 ? a * o.c : o.k == 3 ? std::fabs(a) : o.k == 4 ? z[o.r] + a : std::sin(a) * b; } }
  for (int row = 0; row <= Q; row++) {
    bool sig = row == Q; int q0 = sig ? 0 : row;
    V A(S, 0.0); A[S - 1] += L[q0][0]; A[0] += L[q0][1];
    int k = s - 1;
    for (int i = (int)p.ops.size() - 1; i >= 0; i--) { Op o = p.ops[i]; double w = A[o.r]; V &z = hist[i]; if (o.k != 4) A[o.r] = 0;
      switch (o.k) { case 0: A[o.a] += w; A[o.b] += w; break; case 1: A[o.a] += w; break; case 2: A[o.a] += o.c * w; break; case 4: A[o.a] += w; break;
        case 5: A[o.a] += std::cos(z[o.a]) * z[o.b] * w; A[o.b] += std::sin(z[o.a]) * w; break;
        case 3: if (sig) A[o.a] += gs[k] * w; else { WZS[row][k] = w; A[o.a] += LS[row][k]; } k--; break; } }
    for (int i = 0; i < n; i++) (sig ? SZ[0] : WZ[row])[i] = A[i];
  }
  for (int rep = 0; rep < 3; rep++) {
    zos_pl_forward(T, 2, n, 1, x.data(), y.data(), sw.data());
    if (rep == 0) {
      fov_pl_reverse(T, 2, n, s, Q, mat(L), mat(LS), mat(Z), mat(ZS));
      for (int r = 0; r < Q; r++) { for (int i = 0; i < n; i++) if (!near(Z[r][i], WZ[r][i])) return fail("fov_pl_reverse", i, Z[r][i], WZ[r][i]);
        for (int i = 0; i < s; i++) if (!near(ZS[r][i], WZS[r][i])) return fail("fov_pl_reverse switch", i, ZS[r][i], WZS[r][i]); }
    } else if (rep == 1) {
      V z(n, -5.), zs(s, -5.); fos_pl_reverse(T, 2, n, s, L[0].data(), LS[0].data(), z.data(), zs.data());
      for (int i = 0; i < n; i++) if (!near(z[i], WZ[0][i])) return fail("fos_pl_reverse", i, z[i], WZ[0][i]);
      for (int i = 0; i < s; i++) if (!near(zs[i], WZS[0][i])) return fail("fos_pl_reverse switch", i, zs[i], WZS[0][i]);
    } else {
      V z(n, -5.); fos_pl_sig_reverse(T, 2, n, s, gs.data(), L[0].data(), z.data());
      for (int i = 0; i < n; i++) if (!near(z[i], SZ[0][i])) return fail("fos_pl_sig_reverse", i, z[i], SZ[0][i]);
    }
  }
  return 0;
}
int main(int c, char **v) {
  const unsigned seed = c > 1 ? std::atoi(v[1]) : 1;
  const short T = createNewTape();
  for (unsigned i = 0; i < 400; i++) { rng.seed(seed * 1000 + i); if (one(T)) { std::printf("program %u\n", seed * 1000 + i); return 1; } }
  std::printf("ok\n");
}

// Runs programs given as raw tape records on the real library.
// input: see irdv/replay.py; all numbers that may be locations use the token
// L<k> (k-th variable of the program).
#include <adolc/adolc.h>
#include <adolc/interfaces.h>
#include <adolc/valuetape/valuetape.h>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;

static size_t base;
static double num(const string &s) {
  if (s[0] == 'L')
    return static_cast<double>(base + std::stoul(s.substr(1)));
  return std::strtod(s.c_str(), nullptr);
}
static double rdnum(std::istream &in) {
  string s;
  in >> s;
  return num(s);
}
template <typename T> struct Mat {
  vector<vector<T>> d;
  vector<T *> r;
  Mat(size_t n, size_t m) : d(n, vector<T>(m ? m : 1)), r(n ? n : 1) {
    for (size_t i = 0; i < n; ++i)
      r[i] = d[i].data();
  }
  T **p() { return r.data(); }
};
struct Ten : Mat<double> {
  vector<double **> s;
  Ten(size_t n, size_t p, size_t d) : Mat<double>(n * p, d), s(n ? n : 1) {
    for (size_t i = 0; i < n; ++i)
      s[i] = r.data() + i * p;
  }
  double ***p() { return s.data(); }
};
template <typename T> static void pr(const char *nm, const vector<T> &v) {
  std::printf("%s", nm);
  for (auto x : v)
    std::printf(" %.17g", static_cast<double>(x));
  std::printf("\n");
}
template <typename T> static void prm(const char *nm, Mat<T> &m) {
  for (auto &v : m.d)
    pr(nm, v);
}

int main() {
  short tp = createNewTape();
  setCurrentTape(tp);
  std::istream &in = std::cin;
  string w;
  size_t n = 0, nd = 0;
  while (in >> w) {
    if (w == "program") {
      size_t np, nr;
      in >> n >> np >> nr;
      trace_on(tp, 1);
      auto &tape = findTape(tp);
      {
        vector<pdouble *> ps;
        for (size_t k = 0; k < np; ++k)
          ps.push_back(new pdouble(rdnum(in)));
        adouble *a = new adouble[n];
        base = a[0].loc();
        for (size_t k = 0; k < n; ++k) {
          if (a[k].loc() != base + k) {
            std::printf("layout\n");
            return 3;
          }
          a[k] <<= 1.0;
        }
        for (size_t k = 0; k < nr; ++k) {
          int op, nl, nv;
          in >> op >> nl >> nv;
          vector<double> l(nl), v(nv);
          for (auto &x : l)
            x = rdnum(in);
          for (auto &x : v)
            x = rdnum(in);
          tape.put_op(static_cast<OPCODES>(op));
          for (auto x : l)
            tape.put_loc(static_cast<size_t>(x));
          if (op == take_stock_op)
            tape.put_vals_notWriteBlock(v.data(), v.size());
          else
            for (auto x : v)
              tape.put_val(x);
        }
        double y;
        for (size_t k = 0; k < n; ++k)
          a[k] >>= y;
        delete[] a;
      }
      trace_off();
      nd = n;
      std::printf("base %zu\n", base);
    } else if (w == "zos" || w == "fos") {
      int keep;
      in >> keep;
      vector<double> x(n), X(n), y(n), Y(n);
      for (auto &q : x)
        q = rdnum(in);
      if (w == "fos")
        for (auto &q : X)
          q = rdnum(in);
      int rc = w == "zos" ? zos_forward(tp, nd, n, keep, x.data(), y.data())
                          : fos_forward(tp, nd, n, keep, x.data(), X.data(), y.data(), Y.data());
      std::printf("rc %d\n", rc);
      pr("y", y);
      if (w == "fos")
        pr("Y", Y);
    } else if (w == "fov" || w == "fovo") {
      size_t p, off = 0;
      in >> p;
      if (w == "fovo")
        in >> off;
      vector<double> x(n), y(n);
      Mat<double> X(n, p + off), Y(n, p + off);
      for (auto &q : x)
        q = rdnum(in);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < p; ++j)
          X.d[i][off + j] = rdnum(in);
      int rc = w == "fov" ? fov_forward(tp, nd, n, p, x.data(), X.p(), y.data(), Y.p())
                          : fov_offset_forward(tp, nd, n, p, off, x.data(), X.p(), y.data(), Y.p());
      std::printf("rc %d\n", rc);
      pr("y", y);
      prm("Y", Y);
    } else if (w == "hos") {
      int d, keep;
      in >> d >> keep;
      vector<double> x(n), y(n);
      Mat<double> X(n, d), Y(n, d);
      for (auto &q : x)
        q = rdnum(in);
      for (auto &r : X.d)
        for (auto &q : r)
          q = rdnum(in);
      int rc = hos_forward(tp, nd, n, d, keep, x.data(), X.p(), y.data(), Y.p());
      std::printf("rc %d\n", rc);
      pr("y", y);
      prm("T", Y);
    } else if (w == "hov" || w == "hovwk") {
      int d, keep, p;
      in >> d >> keep >> p;
      vector<double> x(n), y(n);
      Ten X(n, p, d), Y(n, p, d);
      for (auto &q : x)
        q = rdnum(in);
      for (auto &r : X.d)
        for (auto &q : r)
          q = rdnum(in);
      int rc = w == "hov" ? hov_forward(tp, nd, n, d, p, x.data(), X.p(), y.data(), Y.p())
                          : hov_wk_forward(tp, nd, n, d, keep, p, x.data(), X.p(), y.data(), Y.p());
      std::printf("rc %d\n", rc);
      pr("y", y);
      for (auto &v : Y.d)
        pr("T", v);
    } else if (w == "hosr" || w == "hosti" || w == "hosov") {
      int d, p;
      in >> d >> p;
      Mat<double> U(n, d + 1);
      vector<double> u(n);
      for (auto &r : U.d)
        for (auto &q : r)
          q = rdnum(in);
      for (size_t i = 0; i < n; ++i)
        u[i] = U.d[i][0];
      Ten Z(p, n, d + 1);
      int rc = w == "hosr"    ? hos_reverse(tp, nd, n, d, u.data(), Z.p()[0])
               : w == "hosti" ? hos_ti_reverse(tp, nd, n, d, U.p(), Z.p()[0])
                              : hos_ov_reverse(tp, nd, n, d, p, U.p(), Z.p());
      std::printf("rc %d\n", rc);
      for (auto &v : Z.d)
        pr("Z", v);
    } else if (w == "hovr" || w == "hovti") {
      int d, p;
      in >> d >> p;
      Ten U(p, n, d + 1), Z(p, n, d + 1);
      Mat<double> u(p, n);
      for (auto &r : U.d)
        for (auto &q : r)
          q = rdnum(in);
      for (int l = 0; l < p; ++l)
        for (size_t i = 0; i < n; ++i)
          u.d[l][i] = U.d[l * n + i][0];
      Mat<short> nz(p, n);
      int rc = w == "hovr" ? hov_reverse(tp, nd, n, d, p, u.p(), Z.p(), nz.p())
                           : hov_ti_reverse(tp, nd, n, d, p, U.p(), Z.p(), nz.p());
      std::printf("rc %d\n", rc);
      for (auto &v : Z.d)
        pr("Z", v);
      prm("N", nz);
    } else if (w == "fosr") {
      vector<double> u(n), z(n);
      for (auto &q : u)
        q = rdnum(in);
      int rc = fos_reverse(tp, nd, n, u.data(), z.data());
      std::printf("rc %d\n", rc);
      pr("Z", z);
    } else if (w == "fovr") {
      size_t p;
      in >> p;
      Mat<double> U(p, n), Z(p, n);
      for (auto &r : U.d)
        for (auto &q : r)
          q = rdnum(in);
      int rc = fov_reverse(tp, nd, n, p, U.p(), Z.p());
      std::printf("rc %d\n", rc);
      prm("Z", Z);
    } else if (w == "intf") {
      int tight;
      size_t p;
      in >> tight >> p;
      vector<double> x(n), y(n);
      Mat<bitword_t> X(n, p), Y(n, p);
      for (auto &q : x)
        q = rdnum(in);
      for (auto &r : X.d)
        for (auto &q : r)
          in >> q;
      int rc = tight ? int_forward_tight(tp, nd, n, p, x.data(), X.p(), y.data(), Y.p())
                     : int_forward_safe(tp, nd, n, p, X.p(), Y.p());
      std::printf("rc %d\n", rc);
      if (tight)
        pr("y", y);
      prm("B", Y);
    } else if (w == "intr") {
      int tight;
      size_t p;
      in >> tight >> p;
      Mat<bitword_t> U(p, n), Z(p, n);
      for (auto &r : U.d)
        for (auto &q : r)
          in >> q;
      int rc = tight ? int_reverse_tight(tp, nd, n, p, U.p(), Z.p()) : int_reverse_safe(tp, nd, n, p, U.p(), Z.p());
      std::printf("rc %d\n", rc);
      prm("B", Z);
    }
    std::fflush(stdout);
  }
  return 0;
}

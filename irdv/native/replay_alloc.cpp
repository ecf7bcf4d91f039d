// array helpers against their documented behaviour, for small sizes
#include <adolc/adalloc.h>
#include <cstdio>
#include <cstdlib>
#include <vector>
static int bad = 0;
#define CK(c, ...) do { if (!(c)) { if (!bad++) { printf("MISMATCH " __VA_ARGS__); printf("\n"); } } } while (0)
int main() {
  for (size_t m = 1; m < 8; m++) {
    double *a = myalloc1(m);
    for (size_t i = 0; i < m; i++) CK(a[i] == 0, "myalloc1(%zu) element %zu not zero", m, i);
    for (size_t i = 0; i < m; i++) a[i] = 1;
    myfree1(a);
    unsigned int *u = myalloc1_uint(m); for (size_t i = 0; i < m; i++) u[i] = 7;
    size_t *l = myalloc1_ulong(m); for (size_t i = 0; i < m; i++) l[i] = 7;
    for (size_t i = 0; i < m; i++) CK(u[i] == 7 && l[i] == 7, "myalloc1_uint/ulong(%zu) overlap", m);
    myfree1_uint(u); myfree1_ulong(l);
    double **I = myallocI2(m);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) CK(I[i][j] == (i == j), "myallocI2(%zu)[%zu][%zu] = %g", m, i, j, I[i][j]);
    myfreeI2(m, I);
    for (size_t n = 1; n < 8; n++) {
      double **b = myalloc2(m, n);
      for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CK(b[i][j] == 0, "myalloc2(%zu,%zu)[%zu][%zu] not zero", m, n, i, j);
      for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) b[i][j] = 1 + i * 100 + j;
      for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CK(b[i][j] == 1 + i * 100 + j, "myalloc2(%zu,%zu) rows overlap at [%zu][%zu]", m, n, i, j);
      myfree2(b);
      size_t **s = myalloc2_ulong(m, n);
      for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) s[i][j] = 1 + i * 100 + j;
      for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CK(s[i][j] == 1 + i * 100 + j, "myalloc2_ulong(%zu,%zu) rows overlap", m, n);
      myfree2_ulong(s);
      for (int nodata = 0; nodata < 2; nodata++) {
        size_t bytes = m * 8 + m * n * 8;
        char *mem = (char *)malloc(bytes);
        double **dp = nullptr; double ***dpp = nullptr;
        char *end = nodata ? populate_dppp_nodata(&dpp, mem, m, n) : populate_dpp(&dp, mem, m, n);
        CK(end == mem + bytes, "populate_dpp%s(%zu,%zu) returns offset %ld instead of %zu", nodata ? "p_nodata" : "", m, n, (long)(end - mem), bytes);
        for (size_t i = 0; i < m; i++) {
          char *row = nodata ? (char *)dpp[i] : (char *)dp[i];
          CK(row == mem + m * 8 + i * n * 8, "populate_dpp%s(%zu,%zu) row %zu at offset %ld", nodata ? "p_nodata" : "", m, n, i, (long)(row - mem));
        }
        free(mem);
      }
      for (size_t p = 1; p < 8; p++) {
        double ***c = myalloc3(m, n, p);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < p; k++) {
          CK(c[i][j][k] == 0, "myalloc3(%zu,%zu,%zu) not zero", m, n, p);
          c[i][j][k] = 1 + i * 10000 + j * 100 + k;
        }
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < p; k++)
          CK(c[i][j][k] == 1 + i * 10000 + j * 100 + k, "myalloc3(%zu,%zu,%zu) elements overlap at [%zu][%zu][%zu]", m, n, p, i, j, k);
        myfree3(c);
        size_t bytes = m * 8 + m * n * 8 + m * n * p * 8;
        char *mem = (char *)malloc(bytes);
        double ***e = nullptr;
        char *end = populate_dppp(&e, mem, m, n, p);
        CK(end == mem + bytes, "populate_dppp(%zu,%zu,%zu) returns offset %ld instead of %zu", m, n, p, (long)(end - mem), bytes);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++)
          CK((char *)(e[i] + j) == mem + m * 8 + (i * n + j) * 8 && (char *)e[i][j] == mem + m * 8 + m * n * 8 + (i * n + j) * p * 8,
             "populate_dppp(%zu,%zu,%zu) entry [%zu][%zu] misplaced", m, n, p, i, j);
        free(mem);
      }
    }
  }
  CK(!myalloc1(0) && !myalloc2(0, 3) && !myalloc2(3, 0) && !myalloc3(0, 2, 2) && !myalloc3(2, 0, 2) && !myalloc3(2, 2, 0), "array without elements is not null");
  myfree1(nullptr); myfree2(nullptr); myfree3(nullptr);
  return bad ? 1 : 0;
}

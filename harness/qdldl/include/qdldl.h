// Stand-in for the QDLDL package (not installed here): same interface, the up-looking LDL' factorisation it documents.
#pragma once
#include "tools/qdldl/qdldl_types.h"
inline int QDLDL_etree(const int n, const int* Ap, const int* Ai, int* work, int* Lnz, int* etree) {
  for (int i = 0; i < n; i++) { work[i] = 0; Lnz[i] = 0; etree[i] = -1; if (Ap[i] == Ap[i + 1]) return -1; }
  int sum = 0;
  for (int j = 0; j < n; j++) { work[j] = j;
    for (int p = Ap[j]; p < Ap[j + 1]; p++) { int i = Ai[p]; if (i > j) return -1; while (work[i] != j) { if (etree[i] == -1) etree[i] = j; Lnz[i]++; work[i] = j; i = etree[i]; } } }
  for (int i = 0; i < n; i++) sum += Lnz[i];
  return sum;
}
inline int QDLDL_factor(const int n, const int* Ap, const int* Ai, const double* Ax, int* Lp, int* Li, double* Lx, double* D, double* Dinv, const int* Lnz, const int* etree,
                        unsigned char* bwork, int* iwork, double* fwork) {
  int *yIdx = iwork, *elim = iwork + n, *next = iwork + 2 * n, pos = 0;
  Lp[0] = 0;
  for (int i = 0; i < n; i++) { Lp[i + 1] = Lp[i] + Lnz[i]; bwork[i] = 0; fwork[i] = 0; D[i] = 0; next[i] = Lp[i]; }
  for (int k = 0; k < n; k++) { int ny = 0;
    for (int p = Ap[k]; p < Ap[k + 1]; p++) { const int b = Ai[p]; if (b == k) { D[k] = Ax[p]; continue; }
      fwork[b] = Ax[p]; if (bwork[b]) continue;
      int ne = 0; for (int i = b; i != -1 && i < k && !bwork[i]; i = etree[i]) { bwork[i] = 1; elim[ne++] = i; }
      while (ne) yIdx[ny++] = elim[--ne]; }
    for (int i = ny - 1; i >= 0; i--) { const int c = yIdx[i], t = next[c]; const double y = fwork[c];
      for (int j = Lp[c]; j < t; j++) fwork[Li[j]] -= Lx[j] * y;
      Li[t] = k; Lx[t] = y * Dinv[c]; D[k] -= y * Lx[t]; next[c]++; fwork[c] = 0; bwork[c] = 0; }
    if (D[k] == 0) return -1;
    pos += D[k] > 0; Dinv[k] = 1 / D[k]; }
  return pos;
}
inline void QDLDL_solve(const int n, const int* Lp, const int* Li, const double* Lx, const double* Dinv, double* x) {
  for (int i = 0; i < n; i++) for (int j = Lp[i]; j < Lp[i + 1]; j++) x[Li[j]] -= Lx[j] * x[i];
  for (int i = 0; i < n; i++) x[i] *= Dinv[i];
  for (int i = n - 1; i >= 0; i--) for (int j = Lp[i]; j < Lp[i + 1]; j++) x[i] -= Lx[j] * x[Li[j]];
}

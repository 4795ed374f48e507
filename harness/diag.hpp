// what one run of the library shows to the user (see diag.cpp)
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct DiagIn {
  int  kind, n, cfg, m0, verb, style;  // style: bit 0 columns, bit 1 one-based, bit 2 complex, bit 3 symmetric mode, bit 4 Hermitian matrix
};
struct DiagOut {
  std::vector<uint64_t> dig;   // one number per step
  std::string           out, err, thrown;
  long                  levels = 0, nnz = 0, nnza = 0;
  std::vector<long>     m, n, stats;
  long                  rank = 0, size = 0;
};
int  diag_configs();
void diag_plain(const DiagIn &, DiagOut &);
void diag_debug(const DiagIn &, DiagOut &);

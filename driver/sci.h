// Reals as a pair: seven-digit signed mantissa and decimal exponent (0, 0 for zero).
#ifndef VERIF_SCI_H
#define VERIF_SCI_H
#include "common.h"
static inline void sci(std::vector<i64>& v, double x)
{
    if (x == 0) { v.push_back(0); v.push_back(0); return; }
    if (!std::isfinite(x)) { v.push_back(Q_NAN); v.push_back(0); return; }
    char b[64];
    snprintf(b, sizeof b, "%.6e", x);
    char* e = strchr(b, 'e');
    v.push_back(llround(atof(std::string(b, e).c_str()) * 1e6));
    v.push_back(atoi(e + 1));
}
#endif

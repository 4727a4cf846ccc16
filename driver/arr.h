// Arrays for the conformance drivers: exact-size heap blocks (so AddressSanitizer
// sees any access outside them), optionally with gaps between rows that are checked.
#ifndef VERIF_ARR_H
#define VERIF_ARR_H
#include "common.h"
#include <complex>
#include <cstring>
#include <initializer_list>
#include <vector>

typedef std::vector<i64> Sh;

struct Arr
{
    sdp_Mem* m = 0;
    sdp_MemType type = SDP_MEM_VOID;
    Sh shape, stride; // stride in bytes
    std::vector<unsigned char> snap;
    unsigned char* buf = 0;
    size_t bytes = 0, isz = 0;
    i64 n = 0;

    Arr() {}
    // layout: 0 contiguous (library-owned); 1 contiguous, wrapped;
    // 2 gaps after every row; 3 gaps in every dimension; 4 axes stored reversed (no gaps).
    Arr(sdp_MemType t, const Sh& sh, int layout = 0) { make(t, sh, layout); }
    Arr(const Arr&) = delete;
    Arr& operator=(const Arr&) = delete;
    ~Arr()
    {
        if (m) sdp_mem_free(m);
        free(buf);
    }
    void make(sdp_MemType t, const Sh& sh, int layout = 0)
    {
        type = t; shape = sh; isz = sdp_mem_type_size(t);
        n = 1;
        for (i64 s : sh) n *= s;
        const int d = (int) sh.size();
        stride.assign(d, 0);
        i64 acc = (i64) isz;
        sdp_Error st = SDP_SUCCESS;
        if (layout == 4)
        {
            for (int i = 0; i < d; ++i) { stride[i] = acc; acc *= sh[i]; }
        }
        else
        {
            for (int i = d - 1; i >= 0; --i)
            {
                if (layout == 3 && i == d - 1) acc *= 2;
                stride[i] = acc;
                acc *= sh[i];
                if (layout >= 2) acc += (i64) isz * (i == d - 1 ? 1 : 3) * (layout == 3 ? 2 : 1);
            }
        }
        if (layout == 0)
        {
            m = sdp_mem_create(t, SDP_MEM_CPU, d, shape.data(), &st);
            if (m && n) memset(sdp_mem_data(m), 0, n * isz);
            bytes = (size_t) n * isz;
        }
        else
        {
            i64 last = (i64) isz;
            for (int i = 0; i < d; ++i) last += (sh[i] - 1) * stride[i];
            bytes = n ? (size_t) last : 0;
            buf = (unsigned char*) malloc(bytes ? bytes : 1);
            memset(buf, 0xA5, bytes);
            m = sdp_mem_create_wrapper(buf, t, SDP_MEM_CPU, d, shape.data(),
                    stride.data(), &st);
            if (st) { fprintf(stderr, "wrapper failed %d\n", st); _exit(98); }
        }
        if (st) { fprintf(stderr, "create failed %d\n", st); _exit(98); }
    }
    unsigned char* base() const { return (unsigned char*) sdp_mem_data(m); }
    i64 off(i64 flat) const
    {
        i64 o = 0;
        for (int i = (int) shape.size() - 1; i >= 0; --i)
        {
            o += (flat % shape[i]) * stride[i];
            flat /= shape[i];
        }
        return o;
    }
    void set(i64 flat, cd v)
    {
        unsigned char* p = base() + off(flat);
        switch (type)
        {
        case SDP_MEM_CHAR: *(char*) p = (char) v.real(); break;
        case SDP_MEM_INT: *(int*) p = (int) v.real(); break;
        case SDP_MEM_FLOAT: *(float*) p = (float) v.real(); break;
        case SDP_MEM_DOUBLE: *(double*) p = v.real(); break;
        case SDP_MEM_COMPLEX_FLOAT: *(cf*) p = cf((float) v.real(), (float) v.imag()); break;
        case SDP_MEM_COMPLEX_DOUBLE: *(cd*) p = v; break;
        default: break;
        }
    }
    cd get(i64 flat) const
    {
        const unsigned char* p = base() + off(flat);
        switch (type)
        {
        case SDP_MEM_CHAR: return *(const char*) p;
        case SDP_MEM_INT: return *(const int*) p;
        case SDP_MEM_FLOAT: return *(const float*) p;
        case SDP_MEM_DOUBLE: return *(const double*) p;
        case SDP_MEM_COMPLEX_FLOAT: return cd(*(const cf*) p);
        case SDP_MEM_COMPLEX_DOUBLE: return *(const cd*) p;
        default: return 0;
        }
    }
    double re(i64 flat) const { return get(flat).real(); }
    void fill(std::function<cd(i64)> f) { for (i64 i = 0; i < n; ++i) set(i, f(i)); }
    void take() { snap.assign(base(), base() + bytes); }
    // Unchanged since take()?
    bool same() const { return memcmp(snap.data(), base(), bytes) == 0; }
    // Bytes between the elements unchanged since construction?
    bool gaps_ok() const
    {
        if (!buf) return true;
        std::vector<unsigned char> is(bytes, 0);
        for (i64 i = 0; i < n; ++i) memset(&is[off(i)], 1, isz);
        for (size_t i = 0; i < bytes; ++i) if (!is[i] && buf[i] != 0xA5) return false;
        return true;
    }
    std::vector<i64> q(double scale = 1.0, double tol = 1e-3) const
    {
        std::vector<i64> r;
        const bool c = sdp_mem_type_size(type) && (type & SDP_MEM_COMPLEX);
        for (i64 i = 0; i < n; ++i)
        {
            cd v = get(i);
            r.push_back(qx(v.real(), scale, tol));
            if (c) r.push_back(qx(v.imag(), scale, tol));
        }
        return r;
    }
    std::vector<i64> qround(double scale) const
    {
        std::vector<i64> r;
        const bool c = (type & SDP_MEM_COMPLEX) != 0;
        for (i64 i = 0; i < n; ++i)
        {
            cd v = get(i);
            r.push_back(qr(v.real(), scale));
            if (c) r.push_back(qr(v.imag(), scale));
        }
        return r;
    }
};
static const double C0 = 299792458.0;
#endif

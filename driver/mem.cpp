// Replays call scripts generated from spec/MemGen.tla into the library and
// records what every call did.
#include "script.h"
#include <algorithm>
#include <sanitizer/asan_interface.h>

static sdp_MemType type_of(const std::string& t)
{
    return t == "char" ? SDP_MEM_CHAR : t == "int" ? SDP_MEM_INT :
            t == "float" ? SDP_MEM_FLOAT : t == "double" ? SDP_MEM_DOUBLE :
            t == "cf" ? SDP_MEM_COMPLEX_FLOAT : t == "cd" ? SDP_MEM_COMPLEX_DOUBLE :
            SDP_MEM_VOID;
}
static std::string name_of(sdp_MemType t)
{
    switch (t)
    {
    case SDP_MEM_CHAR: return "char";
    case SDP_MEM_INT: return "int";
    case SDP_MEM_FLOAT: return "float";
    case SDP_MEM_DOUBLE: return "double";
    case SDP_MEM_COMPLEX_FLOAT: return "cf";
    case SDP_MEM_COMPLEX_DOUBLE: return "cd";
    case SDP_MEM_VOID: return "void";
    default: return "other";
    }
}
static int nc(sdp_MemType t) { return (t & SDP_MEM_COMPLEX) ? 2 : 1; }
// Independent of the library on purpose.
static int esize(sdp_MemType t)
{
    int b = t == SDP_MEM_CHAR ? 1 : (t & SDP_MEM_DOUBLE) ? 8 : 4;
    return b * nc(t);
}

struct Buf { char* p; sdp_MemType t; i64 n; bool ext; bool live; };

static i64 get(const Buf& b, i64 i)
{
    switch (b.t & ~SDP_MEM_COMPLEX)
    {
    case SDP_MEM_CHAR: return ((signed char*) b.p)[i];
    case SDP_MEM_INT: return ((int*) b.p)[i];
    case SDP_MEM_FLOAT: return qx(((float*) b.p)[i], 1, 0);
    default: return qx(((double*) b.p)[i], 1, 0);
    }
}
static void put(const Buf& b, i64 i, int v)
{
    switch (b.t & ~SDP_MEM_COMPLEX)
    {
    case SDP_MEM_CHAR: ((signed char*) b.p)[i] = (signed char) v; break;
    case SDP_MEM_INT: ((int*) b.p)[i] = v; break;
    case SDP_MEM_FLOAT: ((float*) b.p)[i] = (float) v; break;
    default: ((double*) b.p)[i] = v; break;
    }
}

static void run_script(Rng& rng, Out& out)
{
    (void) rng;
    const std::vector<Op>& sc = scripts[out.idx];
    std::vector<sdp_Mem*> hs;
    std::vector<Buf> bufs;
    std::vector<int> hbuf;    // Buffer of each handle (-1: none).
    sdp_Error st = SDP_SUCCESS;
    {
        sdp_Error s0 = SDP_SUCCESS;
        J n;
        n.t("ty", name_of(sdp_mem_type(0))).n("loc", sdp_mem_location(0))
                .n("nd", sdp_mem_num_dims(0)).n("ne", sdp_mem_num_elements(0))
                .n("cc", sdp_mem_is_c_contiguous(0)).n("ro", sdp_mem_is_read_only(0))
                .n("fp", sdp_mem_is_floating_point(0)).n("cx", sdp_mem_is_complex(0))
                .n("c4", sdp_mem_is_complex4(0)).n("db", sdp_mem_is_double(0))
                .n("sh", sdp_mem_shape_dim(0, 0))
                .n("str", sdp_mem_stride_bytes_dim(0, 0))
                .n("data", sdp_mem_data(0) || sdp_mem_data_const(0));
        sdp_mem_free(0); sdp_mem_ref_dec(0); sdp_mem_set_read_only(0, 1);
        sdp_mem_clear_contents(0, &s0); sdp_mem_clear_portion(0, 0, 4, &s0);
        sdp_mem_copy_contents(0, 0, 0, 0, 4, &s0);
        n.n("st", s0).n("inc", sdp_mem_ref_inc(0) != 0);
        out.put(J().t("e", "Begin").raw("null", n.str()));
    }
    for (const Op& o : sc)
    {
        std::map<std::string, std::string> a = o.a;
        const std::string op = a["op"];
        const std::vector<i64> shape = ints(a["shape"]);
        auto I = [&](const char* k) { return atoll(a[k].c_str()); };
        sdp_Mem* h = a.count("h") ? hs[I("h") - 1] : 0;
        sdp_Mem* ret = 0;
        int own_of = 0;       // 1: the result owns fresh memory (if it has any).
        i64 r = 0;
        bool newh = false;
        const i64* shp = shape.empty() ? 0 : shape.data();
        if (op == "NewExt")
        {
            Buf b; b.t = type_of(a["type"]); b.n = I("n") * nc(b.t);
            b.p = (char*) malloc(I("n") * esize(b.t)); b.ext = true; b.live = true;
            for (i64 i = 0; i < b.n; ++i) put(b, i, (int) i + 1);
            bufs.push_back(b);
        }
        else if (op == "ResetStatus") st = SDP_SUCCESS;
        else if (op == "Create")
        {
            ret = sdp_mem_create(type_of(a["type"]), (sdp_MemLocation) I("loc"),
                    (int) shape.size(), shp, &st);
            newh = true; own_of = 1;
        }
        else if (op == "Wrap")
        {
            const Buf& b = bufs[I("b") - 1];
            std::vector<i64> stride = ints(a["stride"]);
            for (auto& x : stride) x *= esize(b.t);
            ret = sdp_mem_create_wrapper(b.p + I("off") * esize(b.t), b.t,
                    (sdp_MemLocation) I("loc"), (int) shape.size(), shp,
                    stride.empty() ? 0 : stride.data(), &st);
            newh = true;
        }
        else if (op == "Slice")
        {
            std::vector<i64> offs = ints(a["offs"]);
            ret = sdp_mem_create_wrapper_for_slice(h, offs.data(),
                    (int) shape.size(), shp, &st);
            newh = true;
        }
        else if (op == "Alias") { ret = sdp_mem_create_alias(h); newh = true; }
        else if (op == "Copy")
        {
            ret = sdp_mem_create_copy(h, (sdp_MemLocation) I("loc"), &st);
            newh = true; own_of = 1;
        }
        else if (op == "Convert")
        {
            ret = sdp_mem_convert_precision(h, type_of(a["type"]), &st);
            newh = true; own_of = 1;
        }
        else if (op == "Clear") sdp_mem_clear_contents(h, &st);
        else if (op == "ClearPortion") sdp_mem_clear_portion(h, I("start"), I("n"), &st);
        else if (op == "CopyContents")
        {
            if (out.idx % 2)
                sdp_mem_copy_contents(hs[I("dst") - 1], h, I("od"), I("os"), I("n"), &st);
            else
                sdp_mem_copy_contents_async(hs[I("dst") - 1], h, I("od"), I("os"),
                        I("n"), 0, &st);
        }
        else if (op == "SetValue") sdp_mem_set_value(h, (int) I("v"), &st);
        else if (op == "Scale") sdp_mem_scale_real(h, (double) I("v"), &st);
        else if (op == "Random")
        {
            // Every component of the array must become a value in [0, 1],
            // reported as 9; what is not written gets its old value back.
            Buf& b = bufs[hbuf[I("h") - 1]];
            std::vector<char> old(b.p, b.p + b.n / nc(b.t) * esize(b.t));
            std::vector<i64> at(1, ((char*) sdp_mem_data(h) - b.p) / esize(b.t) * nc(b.t));
            for (int d = 0; d < sdp_mem_num_dims(h); ++d)
            {
                std::vector<i64> q;
                for (i64 x : at) for (i64 k = 0; k < sdp_mem_shape_dim(h, d); ++k)
                    q.push_back(x + k * sdp_mem_stride_bytes_dim(h, d) / esize(b.t) * nc(b.t));
                at = q;
            }
            std::sort(at.begin(), at.end());
            at.erase(std::unique(at.begin(), at.end()), at.end());
            const bool fp = (b.t & SDP_MEM_FLOAT) || (b.t & SDP_MEM_DOUBLE);
            if (fp) for (i64 x : at) for (int c = 0; c < nc(b.t); ++c) put(b, x + c, -5);
            auto val = [&](i64 i) { return (b.t & SDP_MEM_DOUBLE) ? ((double*) b.p)[i] : (double) ((float*) b.p)[i]; };
            sdp_mem_random_fill(h, &st);
            bool same = at.size() > 1;
            if (fp) for (i64 x : at) same = same && val(x) == val(at[0]);
            if (fp) for (i64 x : at) for (int c = 0; c < nc(b.t); ++c)
            {
                const double v = val(x + c);
                const int es = esize(b.t) / nc(b.t);
                if (v == -5) memcpy(b.p + (x + c) * es, &old[(x + c) * es], es);
                else put(b, x + c, v >= 0 && v <= 1 && !same ? 9 : -6);
            }
        }
        else if (op == "SetRO") sdp_mem_set_read_only(h, (int) I("v"));
        else if (op == "RefInc") r = sdp_mem_ref_inc(h) == h ? I("h") : -1;
        else if (op == "Free")
        {
            if (out.idx % 3) sdp_mem_free(h); else sdp_mem_ref_dec(h);
        }
        else if (op == "Match")
            r = sdp_mem_is_matching(h, hs[I("h2") - 1], (int) I("cl"));
        else if (op == "ChkWriteable") sdp_mem_check_writeable(h, &st);
        else if (op == "ChkContig") sdp_mem_check_c_contiguity(h, &st);
        else if (op == "ChkLocation")
            sdp_mem_check_location(h, (sdp_MemLocation) I("v"), &st);
        else if (op == "ChkNumDims") sdp_mem_check_num_dims(h, I("v"), &st);
        else if (op == "ChkDimSize")
            sdp_mem_check_dim_size(h, (int) I("d"), I("v"), &st);
        else if (op == "ChkShape")
            sdp_mem_check_shape(h, (int) shape.size(), shp, &st);
        else if (op == "ChkShapeDim")
            sdp_mem_check_shape_dim(h, (int) I("d"), I("v"), &st);
        else if (op == "ChkSame")
        {
            sdp_Mem* h2 = hs[I("h2") - 1];
            sdp_mem_check_same_shape(h, (int) I("d"), h2, (int) I("d2"), &st);
        }
        else if (op == "ChkType") sdp_mem_check_type(h, type_of(a["type"]), &st);
        else _exit(97);

        if (newh)
        {
            if (ret)
            {
                int b = -1;
                char* p = (char*) sdp_mem_data(ret);
                // Fresh memory: an address that is in no buffer that we know.
                if (p) for (size_t k = 0; k < bufs.size(); ++k)
                    if (bufs[k].live && p >= bufs[k].p &&
                            p < bufs[k].p + bufs[k].n / nc(bufs[k].t) * esize(bufs[k].t))
                        b = (int) k;
                if (p && b < 0 && own_of)
                {
                    Buf nb; nb.p = p; nb.t = sdp_mem_type(ret);
                    i64 ne = 1;
                    for (int d = 0; d < sdp_mem_num_dims(ret); ++d)
                        ne *= sdp_mem_shape_dim(ret, d);
                    nb.n = ne * nc(nb.t); nb.ext = false; nb.live = true;
                    bufs.push_back(nb);
                    b = (int) bufs.size() - 1;
                }
                else if (p && b < 0) b = 9998;
                hs.push_back(ret);
                hbuf.push_back(b);
                r = (i64) hs.size();
            }
        }
        // Snapshot.
        std::vector<i64> freed;
        for (auto x : hs) freed.push_back(__asan_address_is_poisoned(x) ? 1 : 0);
        std::vector<std::string> bl;
        for (auto& b : bufs)
        {
            if (__asan_address_is_poisoned(b.p)) b.live = false;
            std::vector<i64> d;
            if (b.live) for (i64 i = 0; i < b.n; ++i) d.push_back(get(b, i));
            bl.push_back(J().n("live", b.live).a("data", d).str());
        }
        std::vector<std::string> hl;
        for (size_t i = 0; i < hs.size(); ++i)
        {
            if (freed[i]) continue;
            const sdp_Mem* m = hs[i];
            const int b = hbuf[i];
            if (b >= 0 && b < 9000 && !bufs[b].live) continue;
            std::vector<i64> sh, sb, se;
            const int nd = sdp_mem_num_dims(m);
            for (int d = -1; d <= nd; ++d)
            {
                sh.push_back(sdp_mem_shape_dim(m, d));
                sb.push_back(sdp_mem_stride_bytes_dim(m, d));
                se.push_back(sdp_mem_stride_elements_dim(m, d));
            }
            const char* p = (const char*) sdp_mem_data_const(m);
            J ob;
            ob.t("ty", name_of(sdp_mem_type(m))).n("loc", sdp_mem_location(m))
                    .n("nd", nd).n("ne", sdp_mem_num_elements(m))
                    .n("cc", sdp_mem_is_c_contiguous(m))
                    .n("ro", sdp_mem_is_read_only(m))
                    .n("fp", sdp_mem_is_floating_point(m))
                    .n("cx", sdp_mem_is_complex(m)).n("c4", sdp_mem_is_complex4(m))
                    .n("db", sdp_mem_is_double(m))
                    .a("shape", sh).a("stride", sb).a("strel", se)
                    .n("buf", p ? b + 1 : 0)
                    .n("off", p && b >= 0 && b < 9000 ? p - bufs[b].p : 0);
            hl.push_back(J().n("i", (i64) i + 1).raw("o", ob.str()).str());
        }
        out.put(J().t("e", "Call").raw("op", o.json).n("ret", r).n("st", st)
                .a("freed", freed).raw("bufs", J::list(bl)).raw("hs", J::list(hl)));
    }
}

int main(int argc, char** argv) { return script_main(argc, argv, run_script); }

// Replays scripts of calls to the checks of the visibility data model (P31).
#include "script.h"
#include "ska-sdp-func/utility/sdp_data_model_checks.h"

static sdp_MemType type_of(const std::string& s)
{
    return s == "char" ? SDP_MEM_CHAR : s == "int" ? SDP_MEM_INT : s == "float" ? SDP_MEM_FLOAT :
           s == "double" ? SDP_MEM_DOUBLE : s == "cfloat" ? SDP_MEM_COMPLEX_FLOAT :
           s == "cdouble" ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_VOID;
}

static void run(Rng&, Out& out)
{
    sdp_Error st = SDP_SUCCESS;
    // The checks look at the description of an array, never at its elements.
    static char byte[16];
    for (auto& o : scripts[out.idx])
    {
        auto a = o.a;
        if (a["op"] == "Reset") { st = SDP_SUCCESS; out.put(J().t("e", "Reset")); continue; }
        sdp_MemType t = type_of(a["type"]);
        std::vector<i64> sh = ints(a["shape"]), stride(sh.size());
        const int gap = atoi(a["gap"].c_str()), loc = atoi(a["loc"].c_str());
        i64 acc = sdp_mem_type_size(t);
        for (int i = (int) sh.size() - 1; i >= 0; --i)
        {
            if (gap == i + 1) acc += sdp_mem_type_size(t);
            stride[i] = acc;
            acc *= sh[i];
        }
        sdp_Error s0 = SDP_SUCCESS;
        sdp_Mem* m = sdp_mem_create_wrapper(byte, t, (sdp_MemLocation) loc, (int) sh.size(),
                sh.data(), stride.data(), &s0);
        if (s0) { fprintf(stderr, "cannot wrap\n"); _exit(97); }
        const std::string k = a["kind"];
        std::vector<i64> res;
        if (a["op"] == "Check")
        {
            std::vector<i64> w = ints(a["want"]);
            sdp_MemType wt = type_of(a["wtype"]);
            sdp_MemLocation wl = (sdp_MemLocation) atoi(a["wloc"].c_str());
            if (k == "uvw") sdp_data_model_check_uvw(m, wt, wl, w[0], w[1], &st);
            else if (k == "vis") sdp_data_model_check_vis(m, wt, wl, w[0], w[1], w[2], w[3], &st);
            else sdp_data_model_check_weights(m, wt, wl, w[0], w[1], w[2], w[3], &st);
        }
        else
        {
            std::vector<i64> q = ints(a["asked"]);
            int type = -7, place = -7;
            i64 n[4] = {-7, -7, -7, -7};
            sdp_MemType* pt = q[0] ? (sdp_MemType*) &type : 0;
            sdp_MemLocation* pl = q[1] ? (sdp_MemLocation*) &place : 0;
            i64* p[4];
            for (int i = 0; i < 4; ++i) p[i] = q[2 + i] ? &n[i] : 0;
            if (k == "uvw") sdp_data_model_get_uvw_metadata(m, pt, pl, p[0], p[1], &st);
            else if (k == "vis") sdp_data_model_get_vis_metadata(m, pt, pl, p[0], p[1], p[2], p[3], &st);
            else sdp_data_model_get_weights_metadata(m, pt, pl, p[0], p[1], p[2], p[3], &st);
            res = {type, place, n[0], n[1]};
            if (k != "uvw") { res.push_back(n[2]); res.push_back(n[3]); }
        }
        out.put(J().t("e", "Call").raw("o", o.json).n("err", (int) st).a("out", res));
        sdp_mem_free(m);
    }
}

int main(int argc, char** argv) { return script_main(argc, argv, run); }

"""A stand-in for libska_sdp_func, made from the library's own headers.

Every declared function records how it was called (arguments as the C side sees
them) and does nothing else; handles, memory descriptors and sky coordinates are
numbered so that a trace can speak about them. Used to observe what the Python
functions hand to the C functions.
"""
import glob
import os
import re
import subprocess

PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <map>
#include <vector>
struct sdp_Mem; struct sdp_SkyCoord;
static std::string g_log;
static int g_err = 0, g_null = 0, g_memfail = 0, g_memerr = 0;
static long g_count = 0;
static std::map<const void*, std::string> g_names;
static int g_nm = 0, g_nh = 0, g_nk = 0;
struct Sky { std::string type; double v[3]; double epoch; };
static std::map<const void*, Sky> g_sky;
static std::string num(long long v) { return std::to_string(v); }
static std::string num(double v) { char b[64]; snprintf(b, 64, "%%.17g", v); return b; }
static std::string name(const void* p)
{
    if (!p) return "NULL";
    auto i = g_names.find(p);
    if (i != g_names.end()) return i->second;
    char b[64]; snprintf(b, 64, "?%%p", p); return b;
}
static std::string addr(const void* p)
{ return num((long long) (uintptr_t) p); }
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static void put(const std::string& s)
{ if (!g_log.empty()) g_log += ","; g_log += s; }
static double fresh_d() { ++g_count; return (double) (7 * g_count + 1) / 1024.0 - 3.0; }
static int fresh_i() { ++g_count; return (int) (100003 * g_count %% 2000000011) - 1000000; }
static std::string list(const int64_t* p, int n)
{
    std::string s = "[";
    for (int i = 0; i < n; ++i) { if (i) s += ","; s += q(num((long long) p[i])); }
    return s + "]";
}
extern "C" {
const char* stub_log() { return g_log.c_str(); }
void stub_clear() { g_log.clear(); }
void stub_set(int err, int null_handle, int memfail, int memerr)
{ g_err = err; g_null = null_handle; g_memfail = memfail; g_memerr = memerr; }

static sdp_Mem* mem_new(const void* data, int type, int loc, int n, const int64_t* shape,
        const int64_t* strides, int* status)
{
    std::string in = status ? num((long long) *status) : "-";
    int fail = g_memfail == 1;
    if (g_memfail > 0) --g_memfail;
    sdp_Mem* m = 0;
    if (fail) { if (status) *status = (int) g_memerr; }
    else
    {
        m = (sdp_Mem*) malloc(16);
        g_names[m] = "M" + num((long long) ++g_nm);
    }
    put("{\"k\":\"mem_new\",\"id\":" + q(name(m)) + ",\"in\":" + q(in) + ",\"a\":" + q(addr(data)) +
        ",\"ty\":" + num((long long) type) + ",\"loc\":" + num((long long) loc) +
        ",\"nd\":" + num((long long) n) + ",\"sh\":" + list(shape, n > 0 ? n : 0) +
        ",\"st\":" + list(strides, n > 0 ? n : 0) + "}");
    return m;
}
sdp_Mem* sdp_mem_create_wrapper(const void* data, int type, int location,
        int32_t num_dims, const int64_t* shape, const int64_t* strides, int* status)
{ return mem_new(data, type, location, num_dims, shape, strides, status); }
void sdp_mem_set_read_only(sdp_Mem* m, int32_t value)
{ put("{\"k\":\"mem_ro\",\"id\":" + q(name(m)) + ",\"v\":" + num((long long) !!value) + "}"); }
void sdp_mem_free(sdp_Mem* m)
{ put("{\"k\":\"mem_free\",\"id\":" + q(name(m)) + "}"); }
sdp_SkyCoord* sdp_sky_coord_create(const char* type, double c0, double c1, double c2)
{
    sdp_SkyCoord* s = (sdp_SkyCoord*) malloc(16);
    g_names[s] = "K" + num((long long) ++g_nk);
    g_sky[s] = Sky{type ? type : "NULL", {c0, c1, c2}, 2000.0};
    put("{\"k\":\"sky_new\",\"id\":" + q(name(s)) + ",\"ty\":" + q(g_sky[s].type) + ",\"v\":[" +
        q(num(c0)) + "," + q(num(c1)) + "," + q(num(c2)) + "],\"ep\":\"2000\"}");
    return s;
}
void sdp_sky_coord_free(sdp_SkyCoord* s)
{ put("{\"k\":\"sky_free\",\"id\":" + q(name(s)) + "}"); }
double sdp_sky_coord_epoch(const sdp_SkyCoord* s) { return g_sky[s].epoch; }
void sdp_sky_coord_set_epoch(sdp_SkyCoord* s, double e)
{
    g_sky[s].epoch = e;
    put("{\"k\":\"sky_set\",\"id\":" + q(name(s)) + ",\"ep\":" + q(num(e)) + "}");
}
const char* sdp_sky_coord_type(const sdp_SkyCoord* s) { return g_sky[s].type.c_str(); }
double sdp_sky_coord_value(const sdp_SkyCoord* s, int32_t d)
{ return d >= 0 && d < 3 ? g_sky[s].v[d] : 0.0; }
'''
OWN = {"sdp_mem_create_wrapper", "sdp_mem_set_read_only", "sdp_mem_free", "sdp_sky_coord_create",
       "sdp_sky_coord_free", "sdp_sky_coord_epoch", "sdp_sky_coord_set_epoch",
       "sdp_sky_coord_type", "sdp_sky_coord_value"}


def declarations(src):
    inc = "".join('#include "%s"\n' % h[len(src) + 1:]
                  for h in sorted(glob.glob(src + "/ska-sdp-func/*/*.h")) if "private" not in h)
    t = subprocess.run(["gcc", "-E", "-P", "-x", "c++", "-I", src, "-"], input=inc, text=True,
                       stdout=subprocess.PIPE, check=True).stdout
    x = re.sub(r"\s+", " ", t)
    seen = {}
    for r, n, a in re.findall(r"([A-Za-z_][\w ]*?[\s\*]+)(sdp_\w+)\(([^(){};]*)\);", x):
        r = re.sub(r"^extern\s+", "", r.strip())
        if n not in seen and not r.startswith("return"):
            seen[n] = (r, [q.strip() for q in a.split(",")] if a.strip() not in ("", "void") else [])
    return seen


def abi(ty):
    """The parameter as it is passed: structures by pointer, enumerations as int."""
    b = ty.replace("const ", "").replace(" ", "")
    if b in ("int*", "double*", "char*"):
        return ty
    if b == "sdp_Error*":
        return "int*"
    if b.endswith("*"):
        return "void*"
    return ty if b in ("double", "float", "int64_t", "int32_t", "int", "size_t") else "int"


def body(ret, fn, params):
    """One stub function."""
    sig, args, outs, status, handles = [], [], [], None, 0
    for i, p in enumerate(params):
        m = re.match(r"(.*?)(\w+)?(\[\d*\])?$", p)
        ty, arr = m.group(1).strip(), m.group(3)
        if not ty:                      # an unnamed parameter
            ty = m.group(2)
        if arr:
            ty += "*"
        v = "p%d" % i
        sig.append("%s %s" % (abi(ty), v))
        base = ty.replace("const ", "").replace(" ", "")
        if base == "sdp_Error*":
            status = v
        elif base == "int*":
            args.append('q(%s ? "&" + num((long long) *%s) : "NULL")' % (v, v))
            if not ty.startswith("const"):
                outs.append("if (%s) { *%s = fresh_i(); outs += (outs.empty() ? \"\" : \",\") + q(num((long long) *%s)); }" % (v, v, v))
        elif base == "double*":
            args.append('q(%s ? "&3" : "NULL")' % v)
            if not ty.startswith("const"):
                outs.append("if (%s) for (int j = 0; j < 3; ++j) { %s[j] = fresh_d(); outs += (outs.empty() ? \"\" : \",\") + q(num(%s[j])); }" % (v, v, v))
        elif base == "char*":
            args.append('q(%s ? %s : "NULL")' % (v, v))
        elif base.endswith("*"):
            args.append("q(name((const void*) %s))" % v)
            handles += 1
        elif base in ("double", "float"):
            args.append("q(num((double) %s))" % v)
        else:
            args.append("q(num((long long) %s))" % v)
    rb = ret.replace("const ", "").replace(" ", "")
    is_handle = rb.endswith("*") and rb != "char*"
    kind = "call"
    if "_free" in fn and handles and not is_handle:
        kind = "free"
    elif is_handle:
        kind = "new"
    elif ret != "void" and status is None and len(params) == 1 and handles == 1:
        kind = "get"
    s = ["%s %s(%s)\n{" % ("void" if ret == "void" else "const char*" if rb == "char*" else abi(ret), fn, ", ".join(sig)), "    std::string outs, ret;"]
    s.append("    std::string in = %s;" % ("num((long long) *%s)" % status if status else '"-"'))
    s.append("    std::string args = %s;" % (' + "," + '.join('std::string(%s)' % a for a in args)
                                             if args else '""'))
    s += ["    " + o for o in outs]
    back = ""
    if is_handle:
        s.append("    void* r = 0; if (!g_null) { r = malloc(16); g_names[r] = \"H\" + num((long long) ++g_nh); }")
        s.append("    g_null = 0; ret = name(r);")
        back = "    return (%s) r;" % abi(ret)
    elif rb in ("double", "float"):
        s.append("    %s r = (%s) fresh_d(); ret = num((double) r);" % (rb, rb))
        back = "    return r;"
    elif rb == "char*":
        back = '    return "";'
    elif ret != "void":
        s.append("    int r = fresh_i(); ret = num((long long) r);")
        back = "    return (%s) r;" % abi(ret)
    if status:
        s.append("    if (g_err) { *%s = (int) g_err; g_err = 0; }" % status)
    s.append('    put(std::string("{\\"k\\":\\"%s\\",\\"f\\":\\"%s\\",\\"in\\":") + q(in) + '
             '",\\"args\\":[" + args + "],\\"outs\\":[" + outs + "],\\"ret\\":" + q(ret) + "}");'
             % (kind, fn))
    if back:
        s.append(back)
    s.append("}")
    return "\n".join(s)


def build(src, out):
    """Writes libska_sdp_func.so into the directory out; returns the declarations."""
    os.makedirs(out, exist_ok=True)
    dec = declarations(src)
    code = PRE.replace("%%", "%")
    for n, (r, a) in sorted(dec.items()):
        if n not in OWN and not any(c in "".join(a) for c in ("&", "...", "FILE")):
            code += body(r, n, a) + "\n"
    code += "}\n"
    cpp = os.path.join(out, "stub.cpp")
    with open(cpp, "w") as f:
        f.write(code)
    so = os.path.join(out, "libska_sdp_func.so")
    subprocess.run(["g++", "-std=c++14", "-O0", "-w", "-shared", "-fPIC", cpp, "-o", so],
                   check=True)
    return dec

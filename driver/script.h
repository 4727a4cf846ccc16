// Call scripts written by the specification's generator.
#ifndef VERIF_SCRIPT_H
#define VERIF_SCRIPT_H
#include "common.h"
#include <fstream>
#include <map>
#include <sstream>

struct Op { std::map<std::string, std::string> a; std::string json; };
static std::vector<std::vector<Op> > scripts;

static std::vector<i64> ints(const std::string& s)
{
    std::vector<i64> r;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, ',')) if (!x.empty()) r.push_back(atoll(x.c_str()));
    return r;
}

static int script_main(int argc, char** argv, CaseFn fn)
{
    // Script file: lines "op=.. k=v ..<TAB>json"; blank line ends a script.
    std::ifstream f(getenv("SCRIPTS"));
    std::string line;
    std::vector<Op> cur;
    while (std::getline(f, line))
    {
        if (line.empty()) { scripts.push_back(cur); cur.clear(); continue; }
        size_t t = line.find('\t');
        Op o; o.json = line.substr(t + 1);
        std::stringstream ss(line.substr(0, t));
        std::string kv;
        while (ss >> kv)
        {
            size_t q = kv.find('=');
            o.a[kv.substr(0, q)] = kv.substr(q + 1);
        }
        cur.push_back(o);
    }
    std::string n = std::to_string(scripts.size());
    std::vector<char*> av(argv, argv + argc);
    av[3] = (char*) n.c_str();
    return driver_main(argc, av.data(), {{"script", fn, 1}});
}

#endif

// Replays call scripts generated from spec/TimersGen.tla, with a virtual clock.
#include "script.h"
#include <sys/time.h>
#include <time.h>
#include "ska-sdp-func/utility/sdp_timer.h"

static i64 now_ms = 0;
static bool virt = false;
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    tv->tv_sec = 1000 + now_ms / 1000;
    tv->tv_usec = (now_ms % 1000) * 1000;
    return 0;
}
extern "C" int clock_gettime(clockid_t, struct timespec* ts)
{
    ts->tv_sec = 1000 + now_ms / 1000;
    ts->tv_nsec = (now_ms % 1000) * 1000000;
    return 0;
}

static i64 ms(const char* p) { return qx(atof(p), 1000, 1e-3); }

static void run_script(Rng&, Out& out)
{
    (void) virt;
    unsetenv("SKA_SDP_FUNC_LOG_LEVEL");
    char path[64];
    snprintf(path, sizeof path, "/tmp/vtmr_%d.txt", (int) getpid());
    sdp_Timers* tm = sdp_timers_create("Root timer", SDP_TIMER_NATIVE, 1 + out.idx % 2);
    sdp_Timer* one = sdp_timer_create(SDP_TIMER_NATIVE);
    std::vector<sdp_TimerNode*> th(4, sdp_timers_root(tm));
    out.put(J().t("e", "Begin"));
    for (const Op& o : scripts[out.idx])
    {
        std::map<std::string, std::string> a = o.a;
        auto I = [&](const char* k) { return atoll(a[k].c_str()); };
        const std::string op = a["op"], nm = a["name"];
        i64 r = 0;
        std::vector<std::string> rep;
        if (op == "Tick") now_ms += I("n");
        else if (op == "Push") r = sdp_timers_push(tm, nm.c_str(), (int) I("i"), 0) != 0;
        else if (op == "Pop") r = sdp_timers_pop(tm, (int) I("i"), 0) != 0;
        else if (op == "PopPush")
            r = sdp_timers_pop_push(tm, nm.c_str(), (int) I("i"), 0) != 0;
        else if (op == "Set")
            r = sdp_timers_create_set(tm, nm.c_str(), (int) I("n"), 0) != 0;
        else if (op == "TSet")
            r = sdp_timers_create_set(tm, nm.c_str(), (int) I("n"), th[I("t")]) != 0;
        else if (op == "TPush")
        {
            th[I("t")] = sdp_timers_push(tm, nm.c_str(), (int) I("i"), th[I("t")]);
            r = th[I("t")] != 0;
        }
        else if (op == "TPop")
        {
            th[I("t")] = sdp_timers_pop(tm, (int) I("i"), th[I("t")]);
            r = th[I("t")] != 0;
        }
        else if (op == "TPopPush")
        {
            th[I("t")] = sdp_timers_pop_push(tm, nm.c_str(), (int) I("i"), th[I("t")]);
            r = th[I("t")] != 0;
        }
        else if (op == "Start") sdp_timer_start(one);
        else if (op == "Pause") sdp_timer_pause(one);
        else if (op == "Resume") sdp_timer_resume(one);
        else if (op == "Restart") sdp_timer_restart(one);
        else if (op == "Reset") sdp_timer_reset(one);
        else if (op == "Elapsed") r = qx(sdp_timer_elapsed(one), 1000, 1e-3);
        else if (op == "Report")
        {
            fflush(stdout);
            int save = dup(1);
            int fd = open(path, O_CREAT | O_TRUNC | O_RDWR, 0600);
            dup2(fd, 1);
            sdp_timers_report(tm, "f", "g", 1);
            fflush(stdout);
            dup2(save, 1);
            close(save);
            lseek(fd, 0, SEEK_SET);
            std::string txt;
            char buf[4096];
            ssize_t k;
            while ((k = read(fd, buf, sizeof buf)) > 0) txt.append(buf, k);
            close(fd);
            unlink(path);
            std::stringstream ss(txt);
            std::string line;
            while (std::getline(ss, line))
            {
                size_t b = line.find("|| | ");
                if (b == std::string::npos) { rep.push_back("{\"d\":-1}"); continue; }
                std::string x = line.substr(b + 5);
                size_t sp = x.find_first_not_of(' ');
                size_t col = x.rfind(": ");
                std::string name = x.substr(sp + 2, col - sp - 2);
                while (!name.empty() && name.back() == ' ') name.pop_back();
                size_t pc = x.find('(', col);
                rep.push_back(J().n("d", (i64) sp).t("sy", x.substr(sp, 1))
                        .t("n", name).n("ms", ms(x.c_str() + col + 2))
                        .n("pc", pc == std::string::npos ? -1 :
                            qr(atof(x.c_str() + pc + 1), 10)).str());
            }
        }
        else _exit(97);
        out.put(J().t("e", "Call").raw("op", o.json).n("ret", r)
                .raw("rep", J::list(rep)));
    }
    sdp_timer_free(one);
    sdp_timer_free(0);
    sdp_timers_free(tm);
    sdp_timers_free(0);
}

int main(int argc, char** argv) { return script_main(argc, argv, run_script); }

// Padded FFT sizes.
#include "arr.h"
#include <dlfcn.h>
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"

static void one(Rng& r, Out& out)
{
    typedef int (*Good)(int);
    static Good good = (Good) dlsym(RTLD_DEFAULT, "_Z21sdp_good_size_complexi");
    for (int k = 0; k < 8; ++k)
    {
        const i64 m = r.pick({20, 300, 5000, 200000});
        int n = (int) r.in(1, m);
        if (r.chance(1, 3)) // At or next to a smooth number.
        {
            i64 p = 1;
            while (p < m) p *= r.pick({2, 3, 5, 7, 11});
            n = (int) (p + r.in(-1, 1));
        }
        const int f = (int) r.pick({8, 8, 9, 10, 12, 16, 4, 7, 24, 1});
        out.put(J().t("e", "Padded").n("n", n).n("f", f)
                .n("r", sdp_fft_padded_size(n, f / 8.0)));
        if (good) out.put(J().t("e", "Good").n("n", n).n("f", 8).n("r", good(n)));
    }
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"sizes", one, 1}}); }

// Race replay driver: hjx_share builds the operands, then several threads make the same call at once, each with its own result.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <thread>
#include <vector>
typedef void (*F)(const double *, double *, const long *, long *);
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[2], "r");
    if (!f) return 9;
    size_t n, m;
    if (fscanf(f, "%zu %zu", &n, &m) != 2) return 9;
    std::vector<double> in(n);
    std::vector<long> ii(m);
    char buf[64];
    for (auto &d : in) {
        if (fscanf(f, "%63s", buf) != 1) return 9;
        uint64_t b = buf[0] == '-' ? 0x7ff8dead00000000ull : strtoull(buf, 0, 16);
        memcpy(&d, &b, 8);
    }
    for (auto &i : ii) if (fscanf(f, "%ld", &i) != 1) return 9;
    fclose(f);
    F share = (F)dlsym(RTLD_DEFAULT, "hjx_share"), s = (F)dlsym(RTLD_DEFAULT, argv[1]);
    if (!s) { printf("nosym\n"); return 9; }
    if (share) share(in.data(), nullptr, ii.data(), nullptr);
    std::atomic<int> ready{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 3; k++)
        t.emplace_back([&] {
            std::vector<double> out(120000);
            std::vector<long> oo(4000);
            ready++;
            while (ready < 3) std::this_thread::yield();
            for (int r = 0; r < 20; r++)
                try { s(in.data(), out.data(), ii.data(), oo.data()); } catch (...) {}
        });
    for (auto &x : t) x.join();
    printf("done\n");
    return 0;
}

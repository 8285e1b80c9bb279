// C21: memory words and device words.
#include "x1.h"
#include <time.h>
#include <sys/time.h>
static struct timeval clk;
static struct tm loc;
// The clock is an input.
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { *tv = clk; return 0; }
extern "C" struct tm *localtime(const time_t *t) noexcept
{
    CHECK(*t == clk.tv_sec, "the local time of this moment");
    return &loc;
}
// Other ways to ask for the time; universal time is any other time of day.
extern "C" struct tm *localtime_r(const time_t *t, struct tm *r) noexcept { *r = *localtime(t); return r; }
extern "C" struct tm *gmtime(const time_t *) noexcept
{
    static struct tm utc;
    utc = loc;
    ull h = sym_u64("utc_hour", 5), m = sym_u64("utc_minute", 6);
    sym_assume(h < 24 && m < 60);
    utc.tm_hour = (int)h;
    utc.tm_min = (int)m;
    return &utc;
}
extern "C" struct tm *gmtime_r(const time_t *t, struct tm *r) noexcept { *r = *gmtime(t); return r; }
extern "C" time_t time(time_t *t) noexcept { if (t) *t = clk.tv_sec; return clk.tv_sec; }
extern "C" int clock_gettime(clockid_t, struct timespec *ts) noexcept { ts->tv_sec = clk.tv_sec; ts->tv_nsec = clk.tv_usec * 1000; return 0; }
static Machine M, N;
static bool ordinary(ull a) { a &= 077777; return a < 077771 || a == 077777; }

extern "C" int harness(int arg)
{
    switch (arg) {
    case 0: { // two stores, one load, any (32-bit) addresses
        sym_memory(M, "mem");
        ull a = sym_u64("a", 32), b = sym_u64("b", 32), c = sym_u64("c", 32), v = sym_u64("v", 27), w = sym_u64("w", 27);
        sym_assume(ordinary(a) && ordinary(b) && ordinary(c));
        Word before = M.mem_load((unsigned)c);
        M.mem_store((unsigned)a, (Word)v);
        M.mem_store((unsigned)b, (Word)w);
        ull got = M.mem_load((unsigned)c);
        ull m = 077777;
        CHECK(got == ((c & m) == (b & m) ? w : (c & m) == (a & m) ? v : before), "the last word stored at the address");
        CHECK(M.mem_load((unsigned)c) == got, "loading again gives the same");
        CHECK(M.mem_fetch((unsigned)(c & m)) == got, "an order is fetched from the same word");
        sym_observe("got", got);
        sym_reach("word");
        break;
    }
    case 1: { // any 32-bit value stored: 27 bits come back
        ull a = sym_u64("a", 15), v = sym_u64("v", 32);
        sym_assume(ordinary(a));
        M.mem_store((unsigned)a, (Word)v);
        CHECK(M.mem_load((unsigned)a) == (v & M27), "27 bits");
        CHECK(M.mem_fetch((unsigned)a) == (v & M27), "27 bits");
        sym_reach("bits");
        break;
    }
    case 2: { // stores to the device words change no memory
        sym_memory(M, "mem");
        ull d = sym_u64("d", 15), c = sym_u64("c", 15), v = sym_u64("v", 27);
        sym_assume(!ordinary(d) && d != 077773 && ordinary(c));
        d = sym_concretize(d);
        Word before = M.mem_load((unsigned)c);
        M.mem_store((unsigned)d, (Word)v);
        CHECK(M.mem_load((unsigned)c) == before, "memory is unchanged");
        sym_reach("device");
        break;
    }
    case 3: { // character output writes to the stream only
        sym_memory(M, "mem");
        ull c = sym_u64("c", 15), v = sym_u64("v", 8);
        sym_assume(ordinary(c));
        v = sym_concretize(v);
        Word before = M.mem_load((unsigned)c);
        std::ostringstream os;
        std::streambuf *old = std::cout.rdbuf(os.rdbuf());
        M.mem_store(077773, (Word)v);
        std::cout.rdbuf(old);
        CHECK(M.mem_load((unsigned)c) == before, "memory is unchanged");
        CHECK(v > 121 || (v >= 93 && v <= 97) || !os.str().empty(), "a character is written");
        sym_reach("char");
        break;
    }
    default: { // time of day: 10..: given fraction of the second, any time; 20..: given time, four windows of 256 microseconds
        static const unsigned fr[] = {0, 1, 1953, 500000, 999999};
        static const unsigned tm3[][3] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {13, 37, 42}, {23, 59, 59}};
        if (arg < 10 || arg > 25 || (arg > 14 && arg < 20)) return 0;
        ull h = sym_u64("h", 5), mi = sym_u64("mi", 6), s = sym_u64("s", 6), us = sym_u64("us", 20), sec = sym_u64("sec", 40);
        if (arg < 20) us = fr[arg - 10];
        else { h = tm3[arg - 20][0]; mi = tm3[arg - 20][1]; s = tm3[arg - 20][2]; us = sym_concretize(sym_u64("uswin", 2)) * 249915 + sym_u64("uslow", 8); }
        sym_assume(h < 24 && mi < 60 && s <= 60 && us < 1000000);
        clk.tv_sec = (time_t)sec;
        clk.tv_usec = (long)us;
        memset(&loc, 0, sizeof loc);
        loc.tm_hour = (int)h; loc.tm_min = (int)mi; loc.tm_sec = (int)s;
        ull hi = M.mem_load(077775), lo = M.mem_load(077776);
        ull r = hi << 27 | lo;
        // |value - exact| <= 0.0021 s; value = mant * 2^(exp-40), exact in microseconds
        ull exact = ((h * 60 + mi) * 60 + s) * 1000000 + us;
        ull m = ref_mant(r);
        CHECK(hi <= M27 && lo <= M27 && !ref_neg(r), "two words of a non-negative real");
        int e = ref_exp(r);
        if (m == 0) { CHECK(exact <= 2100, "seconds since midnight"); sym_reach("midnight"); break; }
        CHECK(m >> 39, "normalised");
        CHECK(e <= 17, "less than a day and a half");
        if (e < -8) { CHECK(exact <= 4200, "seconds since midnight"); sym_reach("midnight"); break; }
        e = (int)sym_concretize((ull)(e + 8)) - 8;
        // compare m * 10^6 * 2^(e-40) with exact, both scaled by 2^(40-e) / 2^18
        unsigned __int128 val = (unsigned __int128)m * 1000000, want = (unsigned __int128)exact << (40 - e), tol = (unsigned __int128)2100 << (40 - e);
        unsigned __int128 d = val > want ? val - want : want - val;
        CHECK(d <= tol, "seconds since midnight");
        sym_reach("time");
        break;
    }
    case 5: { // random numbers: reproducible, in [0, 1)
        ull seed = sym_u64("seed", 4), seed2 = sym_u64("seed2", 3);
        seed = sym_concretize(seed);
        seed2 = sym_concretize(seed2);
        ull got[4];
        for (int k = 0; k < 2; k++) {
            Machine &m = k ? N : M;
            m.mem_store(077771, (Word)(seed << 20));
            m.mem_store(077772, (Word)(seed2 << 10 | 5));
            for (int i = 0; i < 4; i++) {
                ull hi = m.mem_load(077771), lo = m.mem_load(077772);
                ull r = hi << 27 | lo;
                CHECK(hi <= M27 && lo <= M27 && !ref_neg(r), "two words of a non-negative real");
                CHECK(ref_mant(r) == 0 || (ref_exp(r) <= 0), "less than one");
                CHECK(k == 0 || got[i] == r, "the same seed gives the same numbers");
                got[i] = r;
            }
        }
        sym_reach("random");
        break;
    }
    }
    return 0;
}

#include "amsym.h"
#include <amtl/am-time.h>
using namespace std::chrono;
typedef __int128 i128;
template <typename Rep, typename Period> struct Clock {
    typedef std::chrono::duration<Rep, Period> duration;
    typedef Rep rep;
    typedef Period period;
    typedef std::chrono::time_point<Clock> time_point;
    static const bool is_steady = false;
};
typedef Clock<int64_t, std::micro> Micro;
typedef Clock<int64_t, std::milli> Milli;
typedef Clock<int64_t, std::ratio<1>> Secs;
typedef Clock<int64_t, std::ratio<1, 10000000>> Ticks;     // 100 ns
static timespec any(i128& total) {
    timespec ts;
    ts.tv_sec = amsym_any<int64_t>("sec");
    ts.tv_nsec = amsym_any<int64_t>("nsec");
    const int64_t lim = INT64_MAX / 1000000000;
    amsym_assume(ts.tv_sec >= -lim && ts.tv_sec <= lim);
    int64_t s = ts.tv_sec * 1000000000, t;
    amsym_assume(!__builtin_add_overflow(s, (int64_t)ts.tv_nsec, &t));
    total = t;
    return ts;
}
ENTRY(to_duration) {
    i128 total;
    timespec ts = any(total);
    CHECKM(ke::TimespecToDuration(ts).count() == (int64_t)total, "the duration is exactly seconds and nanoseconds");
    COVER("end");
}
template <typename C> static void point(int64_t res) {
    i128 total;
    timespec ts = any(total);
    auto p = ke::TimespecToTimePoint<C>(ts);
    static_assert(std::is_same<decltype(p), std::chrono::time_point<C, nanoseconds>>::value, "");
    int64_t t = (int64_t)total, got = p.time_since_epoch().count();
    // Rounded toward zero to a multiple of the resolution: the multiple, less than one step nearer to zero.
    CHECKM(got == t / res * res, "the time point is that instant, rounded toward zero to the clock's resolution");
}
ENTRY(to_point_ns) { point<system_clock>(1); point<steady_clock>(1); COVER("end"); }
ENTRY(to_point_us) { point<Micro>(1000); COVER("end"); }
ENTRY(to_point_ms) { point<Milli>(1000000); COVER("end"); }
ENTRY(to_point_ticks) { point<Ticks>(100); COVER("end"); }
ENTRY(to_point_s) { point<Secs>(1000000000); COVER("end"); }
template <typename C, typename D, typename T> static void epoch() {
    typedef std::chrono::time_point<C, D> P;
    T t = amsym_any<T>("t");
    P p = ke::EpochValueToTimePoint<P>(t);
    CHECKM(p.time_since_epoch().count() == (typename D::rep)t, "the epoch count is preserved");
}
ENTRY(from_epoch) {
    epoch<system_clock, system_clock::duration, int64_t>();
    epoch<system_clock, seconds, int64_t>();
    epoch<system_clock, seconds, int32_t>();
    epoch<steady_clock, milliseconds, uint32_t>();
    epoch<Secs, duration<int32_t>, int32_t>();
    epoch<Micro, microseconds, int64_t>();
    epoch<Micro, duration<int64_t, std::ratio<60>>, int64_t>();
    COVER("end");
}

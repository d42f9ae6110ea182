// C32: the millisecond tick counter is the system clock in whole milliseconds, modulo 2^32, at every moment of time.
#include "mc.hpp"

#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <utki/time.hpp>

using namespace mc;

namespace {
// the clock under control
volatile bool active = false;
int64_t now_s = 0;
int64_t now_ns = 0;
int reads = 0;
// how far the clock advances with each reading
int64_t advance_ns = 0;

void get(int64_t& s, int64_t& ns)
{
	s = now_s;
	ns = now_ns;
	++reads;
	now_ns += advance_ns;
	while (now_ns >= 1000000000) {
		now_ns -= 1000000000;
		++now_s;
	}
}
} // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!active) {
		return int(syscall(SYS_clock_gettime, id, ts));
	}
	int64_t s, ns;
	get(s, ns);
	ts->tv_sec = time_t(s);
	ts->tv_nsec = long(ns);
	return 0;
}

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	if (!active) {
		return int(syscall(SYS_gettimeofday, tv, nullptr));
	}
	int64_t s, ns;
	get(s, ns);
	tv->tv_sec = time_t(s);
	tv->tv_usec = ns / 1000;
	return 0;
}

extern "C" int timespec_get(struct timespec* ts, int base) noexcept
{
	clock_gettime(CLOCK_REALTIME, ts);
	return base;
}

extern "C" time_t time(time_t* t) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) {
		*t = ts.tv_sec;
	}
	return ts.tv_sec;
}

namespace {
uint32_t read_at(int64_t s, int64_t ns)
{
	now_s = s;
	now_ns = ns;
	reads = 0;
	active = true;
	uint32_t r = utki::get_ticks_ms();
	active = false;
	return r;
}

uint32_t expected(int64_t s, int64_t ns)
{
	return uint32_t(uint64_t(s) * 1000u + uint64_t(ns) / 1000000u);
}

void check_at(int64_t s, int64_t ns)
{
	uint32_t g = read_at(s, ns);
	uint32_t e = expected(s, ns);
	MC_CHECK(reads > 0, "the clock was not read");
	MC_CHECK(g == e, "at %lld.%09lld s: ticks %u, expected %u", (long long)(s), (long long)(ns), g, e);
	steps();
}
} // namespace

// all milliseconds of the seconds around interesting moments
MC_SUITE(values)
{
	// every power of two of seconds and of milliseconds, both sides; the counter wraps each 4294967.296 s
	int kind = int(choose(3));
	int64_t s;
	if (kind == 0) {
		s = int64_t(1) << choose(33);
	} else if (kind == 1) {
		s = (int64_t(1) << choose(43)) / 1000;
	} else {
		// wrap arounds of the counter
		int64_t k = int64_t(choose(uint32_t(by_tier(450, 2000)))) + 1;
		s = k * (int64_t(1) << 32) / 1000;
	}
	s += int64_t(choose(3)) - 1;
	if (s < 0) {
		s = 0;
	}
	note("second %lld", (long long)(s));
	where("get_ticks_ms", uint64_t(s));
	advance_ns = 0;
	for (int ms = 0; ms != 1000; ++ms) {
		check_at(s, int64_t(ms) * 1000000);
		check_at(s, int64_t(ms) * 1000000 + 1);
		check_at(s, int64_t(ms) * 1000000 + 499999);
		check_at(s, int64_t(ms) * 1000000 + 999999);
	}
	state(uint64_t(s));
}

// elapsed time between two readings is right across any wrap around
MC_SUITE(elapsed)
{
	const std::vector<int64_t> starts = {0, 1, 1000, 2147483, 2147484, 4294966, 4294967, 4294968, 1700000000, 2147483646, 2147483647, 4294967295};
	int64_t s = pick(starts);
	int64_t ns = pick(std::vector<int64_t>{0, 1, 295000000, 296000000, 295999999, 647000000, 648000000, 999000000, 999999999});
	where("elapsed", uint64_t(s), uint64_t(ns));
	advance_ns = 0;
	uint32_t t0 = read_at(s, ns);
	for (int64_t d_ms : {int64_t(0), int64_t(1), int64_t(2), int64_t(999), int64_t(1000), int64_t(65535), int64_t(65536), int64_t(2147483647), int64_t(2147483648), int64_t(4294967294), int64_t(4294967295)}) {
		int64_t total_ns = ns + (d_ms % 1000) * 1000000;
		int64_t ss = s + d_ms / 1000 + total_ns / 1000000000;
		uint32_t t1 = read_at(ss, total_ns % 1000000000);
		MC_CHECK(uint32_t(t1 - t0) == uint32_t(d_ms), "%lld ms have passed since %lld.%09lld, ticks differ by %u", (long long)(d_ms), (long long)(s), (long long)(ns), uint32_t(t1 - t0));
		steps();
	}
	state(hasher().add(s).add(ns).h);
}

// the clock is going while it is being read: ticks never go back
MC_SUITE(running_clock)
{
	const std::vector<int64_t> starts = {0, 4294967, 1700000000, 2147483647};
	int64_t s = pick(starts);
	int64_t ns = pick(std::vector<int64_t>{0, 295900000, 999000000, 999999999});
	advance_ns = pick(std::vector<int64_t>{1, 1000, 100000, 999999, 1000000, 1000001, 70000000, 999999999});
	where("running clock", uint64_t(s), uint64_t(ns), uint64_t(advance_ns));
	uint32_t prev = 0;
	for (int i = 0; i != 2000; ++i) {
		int64_t s0 = s, n0 = ns;
		uint32_t t = read_at(s, ns);
		s = now_s;
		ns = now_ns;
		// the value belongs to the interval during which it was taken
		uint32_t lo = expected(s0, n0);
		uint32_t hi = expected(s, ns);
		MC_CHECK(uint32_t(t - lo) <= uint32_t(hi - lo), "ticks %u are outside of [%u, %u]", t, lo, hi);
		MC_CHECK(i == 0 || uint32_t(t - prev) < 0x80000000u, "ticks went back from %u to %u", prev, t);
		prev = t;
		steps();
	}
	advance_ns = 0;
	state(hasher().add(s).add(ns).h);
}

// the real clock
MC_SUITE(real_clock)
{
	where("real clock");
	for (int i = 0; i != 1000; ++i) {
		struct timespec a, b;
		clock_gettime(CLOCK_REALTIME, &a);
		uint32_t t = utki::get_ticks_ms();
		clock_gettime(CLOCK_REALTIME, &b);
		uint32_t lo = expected(a.tv_sec, a.tv_nsec);
		uint32_t hi = expected(b.tv_sec, b.tv_nsec);
		// someone may set the clock meanwhile
		if (b.tv_sec < a.tv_sec || b.tv_sec - a.tv_sec > 100 || uint32_t(hi - lo) > 200000) {
			continue;
		}
		MC_CHECK(uint32_t(t - lo) <= uint32_t(hi - lo), "ticks %u are outside of [%u, %u]", t, lo, hi);
		steps();
	}
}

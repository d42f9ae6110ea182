// Stateless, exhaustive choice-sequence explorer used by all the sequential harnesses.
//
// A suite body is a deterministic function which draws all of its non-determinism from mc::choose(n).
// The explorer executes the body for EVERY choice sequence (depth first), sharded over forked workers.
// Crashes (sanitizer reports, assertion aborts, std::terminate), hangs and failed MC_CHECKs are attributed to
// the choice sequence which was being executed and are re-executed in a fresh process before being reported.
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace mc {

enum class tier { quick, thorough };
extern tier current_tier;
inline bool thorough()
{
	return current_tier == tier::thorough;
}

// name of the build configuration this binary was compiled as
extern const char* config_name;

// pick value by tier
template <class T>
T by_tier(T q, T t)
{
	return thorough() ? t : q;
}

// true in builds with sanitizers, which are an order of magnitude slower
inline bool sanitized()
{
	return strncmp(config_name, "asan", 4) == 0;
}

// Non-deterministic choice in [0, n). n must be > 0.
uint32_t choose(uint32_t n);

template <class T>
const T& pick(const std::vector<T>& v)
{
	return v[choose(uint32_t(v.size()))];
}

template <class T, size_t N>
const T& pick(const T (&v)[N])
{
	return v[choose(uint32_t(N))];
}

// true when a human-readable description of the execution is wanted
extern bool verbose;

// append to the description of the current execution (only does anything when verbose)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// always kept: a short description of the innermost thing being done (survives a crash). Cheap, stores pointer+numbers.
void where(const char* what, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);

// hash of the choices made so far
uint64_t path();
// Mark the state as one which is going to be explored from here. Returns false if that has already been done on
// another path, in which case nothing new can be found by going on. Always true while following a known prefix.
bool first_visit(uint64_t h);

// index of this worker process
uint32_t worker();

// register a visited model state
void state(uint64_t h);
// count transitions (operations whose outcome was compared against the model)
void steps(uint64_t n = 1);
// heartbeat for long loops inside of one execution
void tick();

[[noreturn]] void fail(const char* file, int line, const char* cond, const char* fmt, ...)
	__attribute__((format(printf, 4, 5)));

#define MC_CHECK(cond, ...) \
	do { \
		if (!(cond)) { \
			::mc::fail(__FILE__, __LINE__, #cond, " " __VA_ARGS__); \
		} \
	} while (false)

// Report that a previously recorded genuine defect (see known_findings.txt) has shown up, identified by id.
// check.py turns ids which are not listed there into violations.
void known_finding(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

using body_fn = void (*)();

struct suite {
	const char* name;
	body_fn body;
	// hang limit multiplier
	double hang_scale;
	suite(const char* name, body_fn body, double hang_scale = 1);
};

#define MC_SUITE(id) \
	static void mc_body_##id(); \
	static ::mc::suite mc_suite_##id(#id, &mc_body_##id); \
	static void mc_body_##id()

// ---- small helpers

struct hasher {
	uint64_t h = 0xcbf29ce484222325ull;

	static uint64_t mix(uint64_t v)
	{
		v += 0x9e3779b97f4a7c15ull;
		v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ull;
		v = (v ^ (v >> 27)) * 0x94d049bb133111ebull;
		return v ^ (v >> 31);
	}

	hasher& add(uint64_t v)
	{
		this->h = mix(this->h ^ v) * 3;
		return *this;
	}

	hasher& add(std::string_view s)
	{
		this->add(uint64_t(s.size()));
		for (unsigned char c : s) {
			this->add(uint64_t(c));
		}
		return *this;
	}

	template <class T>
	hasher& add_range(const T& r)
	{
		uint64_t n = 0;
		for (const auto& e : r) {
			this->add(uint64_t(e));
			++n;
		}
		return this->add(n);
	}
};

inline uint64_t hash_str(std::string_view s)
{
	return hasher().add(s).h;
}

// printable form of arbitrary bytes
std::string quote(std::string_view s);

// deterministic pseudo random sequence used for filling of buffers (not for choosing cases!)
inline uint32_t lcg(uint32_t& s)
{
	s = s * 1664525u + 1013904223u;
	return s >> 8;
}

} // namespace mc

// C28: a failed assertion always stops the program after telling where and why, a satisfied one has no effect at all,
// debug-only facilities vanish from release builds, and logging delivers exactly what was printed, immediately.
#include "mc.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <thread>

#include <utki/debug.hpp>
#include <utki/log.hpp>
#include <utki/utility.hpp>

#ifdef assert
#	undef assert
#endif

using namespace mc;

namespace {

#ifdef DEBUG
constexpr bool debug_build = true;
#else
constexpr bool debug_build = false;
#endif

std::string slurp(int fd)
{
	std::string s;
	off_t n = lseek(fd, 0, SEEK_END);
	s.resize(size_t(n));
	if (n > 0) {
		ssize_t r = pread(fd, &s[0], size_t(n), 0);
		s.resize(r < 0 ? 0 : size_t(r));
	}
	return s;
}

int new_file()
{
	int fd = memfd_create("mc", MFD_CLOEXEC);
	if (fd < 0) {
		fprintf(stderr, "memfd_create failed\n");
		_exit(3);
	}
	return fd;
}

// redirects a standard descriptor to a fresh file for the time of its life
struct capture {
	int target;
	int saved;
	int file;

	capture(int target) :
		target(target)
	{
		std::cout.flush();
		fflush(nullptr);
		this->saved = fcntl(target, F_DUPFD_CLOEXEC, 50);
		this->file = new_file();
		dup2(this->file, target);
	}

	capture(const capture&) = delete;

	std::string content()
	{
		return slurp(this->file);
	}

	// give the descriptor back
	~capture()
	{
		std::cout.flush();
		fflush(nullptr);
		dup2(this->saved, this->target);
		close(this->saved);
		close(this->file);
	}
};

enum api {
	always_1,
	always_2,
	cond_1,
	cond_2,
	checker_1,
	checker_2,
	ptr_1,
	ptr_2,
	shared_1,
	shared_2,
	unique_1,
	unique_2,
	func_1,
	func_2,
	macro_1,
	macro_2,
	macro_checker_1,
	macro_checker_2,
	macro_ptr,
	macro_shared,
	num_api
};

const char* const api_name[num_api] = {
	"assert_always(c)",
	"assert_always(c, print)",
	"assert(c)",
	"assert(c, print)",
	"assert(checker)",
	"assert(checker, print)",
	"assert(ptr)",
	"assert(ptr, print)",
	"assert(shared_ptr)",
	"assert(shared_ptr, print)",
	"assert(unique_ptr)",
	"assert(unique_ptr, print)",
	"assert(function)",
	"assert(function, print)",
	"ASSERT(c)",
	"ASSERT(c, print)",
	"ASSERT(checker)",
	"ASSERT(checker, print)",
	"ASSERT(ptr, print)",
	"ASSERT(shared_ptr, print)"
};

bool is_always(int a)
{
	return a == always_1 || a == always_2;
}

bool has_print(int a)
{
	switch (a) {
		case always_2:
		case cond_2:
		case checker_2:
		case ptr_2:
		case shared_2:
		case unique_2:
		case func_2:
		case macro_2:
		case macro_checker_2:
		case macro_ptr:
		case macro_shared:
			return true;
		default:
			return false;
	}
}

bool is_macro(int a)
{
	return a >= macro_1;
}

bool has_checker(int a)
{
	return a == checker_1 || a == checker_2 || a == macro_checker_1 || a == macro_checker_2;
}

int checker_calls = 0;
int print_calls = 0;
// what the message printer does after printing the message
enum { print_returns, print_throws, print_throws_exception, print_breaks_stream, print_makes_stream_throw, num_print_ends };
int print_end = print_returns;
bool nested_print = false; // another assertion fails while printing the message
int macro_line = 0;

// evaluates the assertion a with given outcome of the condition
void run_assert(int a, bool ok, bool null_print, const std::string& msg, const utki::source_location& sl)
{
	std::function<void(std::ostream&)> print;
	if (!null_print) {
		print = [&](std::ostream& o) {
			++print_calls;
			o << msg;
			if (nested_print) {
				nested_print = false;
				utki::assert_always(false, [&](std::ostream& o) { o << "f.cpp:5 text of the inner one " << __FILE__; }, sl);
			}
			switch (print_end) {
				case print_throws:
					throw 13;
				case print_throws_exception:
					throw std::runtime_error("printer failed");
				case print_breaks_stream:
					o.setstate(std::ios::badbit);
					break;
				case print_makes_stream_throw:
					o.exceptions(std::ios::badbit | std::ios::failbit);
					break;
				default:
					break;
			}
		};
	}
	auto checker = [&]() {
		++checker_calls;
		return ok;
	};
	int x = 0;
	int* ptr = ok ? &x : nullptr;
	std::shared_ptr<int> sp;
	std::unique_ptr<int> up;
	std::function<int(int)> fn;
	if (ok) {
		sp = std::make_shared<int>(1);
		up = std::make_unique<int>(1);
		fn = [](int i) {
			return i;
		};
	}
	switch (a) {
		case always_1:
			utki::assert_always(ok, sl);
			break;
		case always_2:
			utki::assert_always(ok, print, sl);
			break;
		case cond_1:
			utki::assert(ok, sl);
			break;
		case cond_2:
			utki::assert(ok, print, sl);
			break;
		case checker_1:
			utki::assert(std::function<bool()>(checker), sl);
			break;
		case checker_2:
			utki::assert(std::function<bool()>(checker), print, sl);
			break;
		case ptr_1:
			utki::assert(ptr, sl);
			break;
		case ptr_2:
			utki::assert(ptr, print, sl);
			break;
		case shared_1:
			utki::assert(sp, sl);
			break;
		case shared_2:
			utki::assert(sp, print, sl);
			break;
		case unique_1:
			utki::assert(up, sl);
			break;
		case unique_2:
			utki::assert(up, print, sl);
			break;
		case func_1:
			utki::assert(fn, sl);
			break;
		case func_2:
			utki::assert(fn, print, sl);
			break;
		case macro_1: macro_line = __LINE__; ASSERT(ok) break;
		case macro_2: macro_line = __LINE__; ASSERT(ok, print) break;
		case macro_checker_1: macro_line = __LINE__; ASSERT(std::function<bool()>(checker)) break;
		case macro_checker_2: macro_line = __LINE__; ASSERT(std::function<bool()>(checker), print) break;
		case macro_ptr: macro_line = __LINE__; ASSERT(ptr, print) break;
		case macro_shared: macro_line = __LINE__; ASSERT(sp, print) break;
		default:
			break;
	}
}

struct outcome {
	bool aborted = false;
	bool survived = false;
	int status = 0;
	std::string out;
	std::string err;
};

enum sink { to_file, to_closed, to_full };

template <class F>
outcome in_child(F f, int err_sink = to_file)
{
	int out = new_file();
	int err = new_file();
	std::cout.flush();
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) {
		fprintf(stderr, "fork failed\n");
		_exit(3);
	}
	if (pid == 0) {
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		signal(SIGABRT, SIG_DFL);
		alarm(60);
		dup2(out, 1);
		if (err_sink == to_file) {
			dup2(err, 2);
		} else if (err_sink == to_closed) {
			close(2);
		} else {
			int f = open("/dev/full", O_WRONLY);
			if (f >= 0) {
				dup2(f, 2);
			}
		}
		f();
		// nothing may be written later than the program is stopped
		_exit(77);
	}
	outcome r;
	while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {
	}
	r.aborted = WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT;
	r.survived = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 77;
	r.out = slurp(out);
	r.err = slurp(err);
	close(out);
	close(err);
	return r;
}

std::string long_text(size_t n)
{
	std::string s;
	for (size_t i = 0; i != n; ++i) {
		s += char('a' + i % 26);
	}
	return s;
}

} // namespace

// every way of asserting, both outcomes, with and without a message, for several locations
MC_SUITE(assertions)
{
	int a = int(choose(num_api));
	bool ok = choose(2);
	bool null_print = has_print(a) ? choose(2) : true;
	const std::vector<std::string> msgs = {"the explanation", "", "two\nlines", "100% %s %n", long_text(5000)};
	std::string msg = null_print ? std::string() : pick(msgs);
	const std::vector<std::pair<const char*, uint32_t>> locs = {
		{"some/dir/file.cpp", 1},
		{"x.hpp", 4294967295u},
		{"", 0},
		{"name with spaces.cxx", 12345}
	};
	auto loc = is_macro(a) ? std::make_pair(__FILE__, uint32_t(0)) : pick(locs);
	utki::source_location sl(loc.second, 0, loc.first);
	note("%s condition=%d message=%s at %s:%u", api_name[a], int(ok), quote(msg.substr(0, 30)).c_str(), loc.first, loc.second);
	where(api_name[a], ok);

	bool active = debug_build || is_always(a);
	bool fires = active && !ok;

	checker_calls = 0;
	print_calls = 0;
	if (!fires) {
		std::string out;
		std::string err;
		{
			capture co(1);
			capture ce(2);
			run_assert(a, ok, null_print, msg, sl);
			err = ce.content();
			out = co.content();
		}
		MC_CHECK(out.empty() && err.empty(), "%s: satisfied assertion wrote %s %s", api_name[a], quote(out).c_str(), quote(err).c_str());
		MC_CHECK(print_calls == 0, "%s: message of a satisfied assertion was made", api_name[a]);
		if (has_checker(a)) {
			MC_CHECK(
				checker_calls == (active ? 1 : 0),
				"%s: the condition was evaluated %d times in %s build",
				api_name[a],
				checker_calls,
				debug_build ? "debug" : "release"
			);
		}
	} else {
		auto r = in_child([&]() {
			run_assert(a, ok, null_print, msg, sl);
		});
		MC_CHECK(!r.survived, "%s: program went on after the failed assertion", api_name[a]);
		MC_CHECK(r.aborted, "%s: program was not stopped by abort(): status %x", api_name[a], unsigned(r.status));
		MC_CHECK(r.out.empty(), "%s: wrote to standard output: %s", api_name[a], quote(r.out).c_str());
		std::string at;
		if (is_macro(a)) {
			// the line is known only after the child has run, take it from a run which does not fire
			run_assert(a, true, true, msg, sl);
			at = std::string(__FILE__) + ":" + std::to_string(macro_line);
		} else {
			at = std::string(loc.first) + ":" + std::to_string(loc.second);
		}
		MC_CHECK(r.err.find(at) != std::string::npos, "%s: location %s is missing in %s", api_name[a], at.c_str(), quote(r.err).c_str());
		MC_CHECK(
			r.err.find("assertion failed") != std::string::npos,
			"%s: does not say that assertion failed: %s",
			api_name[a],
			quote(r.err).c_str()
		);
		MC_CHECK(r.err.find(msg) != std::string::npos, "%s: message %s is missing in %s", api_name[a], quote(msg).c_str(), quote(r.err).c_str());
		MC_CHECK(!r.err.empty() && r.err.back() == '\n', "%s: message is cut: %s", api_name[a], quote(r.err).c_str());
	}
	steps();
	state(hasher().add(a).add(ok).add(null_print).add(msg).add(loc.second).h);
}

// the program is stopped also when there is nowhere to report to, when the report cannot be made, and in any state of
// standard streams
MC_SUITE(assertions_adverse)
{
	int a = int(choose(num_api));
	constexpr int special = 8 + num_print_ends;
	int how = int(choose(special + 4));
	note("%s situation %d", api_name[a], how);
	where(api_name[a], how);
	if (!(debug_build || is_always(a))) {
		// nothing shall ever happen
		auto r = in_child([&]() {
			run_assert(a, false, false, "text", utki::source_location(5, 0, "f.cpp"));
		}, how == 0 || how == 7 ? to_closed : to_file);
		MC_CHECK(r.survived, "%s: stopped release build, status %x", api_name[a], unsigned(r.status));
		MC_CHECK(r.out.empty() && r.err.empty(), "%s: wrote %s", api_name[a], quote(r.err).c_str());
		steps();
		return;
	}
	bool expect_text = true;
	auto r = in_child(
		[&]() {
			utki::source_location sl(5, 0, "f.cpp");
			switch (how) {
				case 2:
					std::cerr.setstate(std::ios::badbit);
					break;
				case 3:
					// the failure happens while an exception is being handled
					try {
						throw 1;
					} catch (int) {
						run_assert(a, false, false, "text", sl);
					}
					break;
				case 4:
					// the failure happens during stack unwinding
					try {
						utki::scope_exit se([&]() {
							run_assert(a, false, false, "text", sl);
						});
						throw 1;
					} catch (int) {
					}
					break;
				case 5:
					std::cerr << std::hex << std::uppercase;
					std::cerr.width(30);
					break;
				case 6:
					// no exception can get out of it
					try {
						run_assert(a, false, false, "text", sl);
					} catch (...) {
					}
					break;
				case 7:
					std::cerr.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
					break;
				case special:
					// handlers of the program do not save it
					std::set_terminate([]() {
						_exit(77);
					});
					std::set_new_handler([]() {
						_exit(77);
					});
					std::atexit([]() {
						_exit(77);
					});
					std::at_quick_exit([]() {
						_exit(77);
					});
					break;
				case special + 1: {
					// not in the main thread
					std::thread t([&]() {
						run_assert(a, false, false, "text", sl);
					});
					t.join();
					break;
				}
				case special + 2:
					// another assertion fails while the message is being printed
					nested_print = true;
					break;
				case special + 3:
					// from within a function which lets no exceptions out
					[&]() noexcept {
						run_assert(a, false, false, "text", sl);
					}();
					break;
				default:
					if (how >= 8) {
						print_end = how - 8;
					}
					break;
			}
			try {
				run_assert(a, false, false, "text", sl);
			} catch (...) {
			}
		},
		how == 0 || how == 7 ? to_closed : (how == 1 ? to_full : to_file)
	);
	if (how <= 2 || how == 7) {
		expect_text = false;
	}
	MC_CHECK(r.aborted, "%s: situation %d: was not stopped by abort(): status %x", api_name[a], how, unsigned(r.status));
	if (expect_text) {
		MC_CHECK(
			r.err.find(is_macro(a) ? __FILE__ : "f.cpp:5") != std::string::npos,
			"%s: situation %d: no location in %s",
			api_name[a],
			how,
			quote(r.err).c_str()
		);
		if (has_print(a)) {
			MC_CHECK(r.err.find("text") != std::string::npos, "%s: situation %d: no message in %s", api_name[a], how, quote(r.err).c_str());
		}
	}
	steps();
	state(hasher().add(a).add(how).h);
}

#if CFG_CPP >= 20
// location taken automatically
MC_SUITE(assertions_default_location)
{
	int a = int(choose(10));
	where("assert with default location", a);
	bool ok = choose(2);
	auto print = [](std::ostream& o) {
		o << "the text";
	};
	int line = 0;
	int x = 0;
	int* p = ok ? &x : nullptr;
	auto sp = ok ? std::make_shared<int>(1) : nullptr;
	auto up = ok ? std::make_unique<int>(1) : nullptr;
	std::function<void()> fn;
	if (ok) {
		fn = []() {};
	}
	auto f = [&](bool only_line) {
		switch (a) {
			// clang-format off
			case 0: line = __LINE__; if (!only_line) utki::assert_always(ok); break;
			case 1: line = __LINE__; if (!only_line) utki::assert_always(ok, print); break;
			case 2: line = __LINE__; if (!only_line) utki::assert(ok); break;
			case 3: line = __LINE__; if (!only_line) utki::assert(ok, print); break;
			case 4: line = __LINE__; if (!only_line) utki::assert([&]() { return ok; }); break;
			case 5: line = __LINE__; if (!only_line) utki::assert([&]() { return ok; }, print); break;
			case 6: line = __LINE__; if (!only_line) utki::assert(p); break;
			case 7: line = __LINE__; if (!only_line) utki::assert(sp, print); break;
			case 8: line = __LINE__; if (!only_line) utki::assert(up); break;
			default: line = __LINE__; if (!only_line) utki::assert(fn, print); break;
			// clang-format on
		}
	};
	f(true);
	std::string at = std::string(__FILE__) + ":" + std::to_string(line);
	auto r = in_child([&]() {
		f(false);
	});
	if (!ok && (debug_build || a < 2)) {
		MC_CHECK(r.aborted, "variant %d: was not stopped by abort(): status %x", a, unsigned(r.status));
		MC_CHECK(r.err.find(at) != std::string::npos, "variant %d: location %s is missing in %s", a, at.c_str(), quote(r.err).c_str());
	} else {
		MC_CHECK(r.survived, "variant %d: stopped the program: status %x", a, unsigned(r.status));
		MC_CHECK(r.err.empty() && r.out.empty(), "variant %d: wrote something", a);
	}
	steps();
	state(hasher().add(a).add(ok).h);
}
#endif

namespace {
struct streamable {
	int v;

	friend std::ostream& operator<<(std::ostream& o, const streamable& s)
	{
		return o << "<" << s.v << ">";
	}
};

struct print_error {};
} // namespace

// all sequences of operations on the log
MC_SUITE(logging)
{
	int depth = by_tier(4, 5);
	constexpr int num_ops = 17;
	std::vector<int> seq;
	for (int i = 0; i != depth; ++i) {
		int o = int(choose(num_ops + 1));
		if (o == num_ops) {
			break;
		}
		seq.push_back(o);
	}

	// a failed check ends the process, thus no check shall be done while the output is redirected
	std::vector<std::string> got;
	std::vector<std::string> expected;
	std::vector<bool> exact;
	std::vector<int> calls;
	std::vector<int> expected_calls;
	std::string model;
	std::string err;
	{
		capture ce(2);
		capture co(1);
		for (int o : seq) {
			where("log operation", uint64_t(o));
			int n = 0;
			int en = 0;
			bool flushed = true;
			switch (o) {
				case 0:
					utki::log([&](std::ostream& os) {
						++n;
						os << "one";
					});
					en = 1;
					model += "one";
					break;
				case 1:
					utki::log([&](std::ostream& os) {
						++n;
						os << "a" << 1 << std::endl << 'c';
						os.flush();
						os << "tail";
					});
					en = 1;
					model += "a1\nctail";
					break;
				case 2:
					utki::log(nullptr);
					break;
				case 3:
					utki::log(std::function<void(std::ostream&)>());
					break;
				case 4:
					utki::logcat("x", 12, 'y', 0.5, std::string("str"), std::string_view("view"), streamable{3}, true);
					model += "x12y0.5strview<3>1";
					break;
				case 5:
					utki::logcat();
					break;
				case 6:
					utki::logcat(std::string("nul\0inside\n", 11));
					model += std::string("nul\0inside\n", 11);
					break;
				case 7:
					utki::log_debug([&](std::ostream& os) {
						++n;
						os << "dbg";
					});
					if (debug_build) {
						en = 1;
						model += "dbg";
					}
					break;
				case 8:
					utki::logcat_debug("d", 5);
					if (debug_build) {
						model += "d5";
					}
					break;
				case 9:
					LOG([&](auto& os) {
						++n;
						os << "LOG";
					})
					if (debug_build) {
						en = 1;
						model += "LOG";
					}
					break;
				case 10:
					utki::run_debug([&]() {
						++n;
					});
					en = debug_build ? 1 : 0;
					break;
				case 11:
					utki::run_debug(nullptr);
					utki::log_debug(nullptr);
					break;
				case 12:
					// other output of the program, keeps its place
					std::cout << "direct";
					model += "direct";
					flushed = false;
					break;
				case 13: {
					std::string l = long_text(20000);
					utki::logcat(l);
					model += l;
					break;
				}
				case 14:
					// printing throws
					try {
						utki::log([&](std::ostream& os) {
							++n;
							os << "part";
							throw print_error();
						});
						n = 100;
					} catch (print_error&) {
					}
					en = 1;
					model += "part";
					flushed = false;
					break;
				case 15:
					// nested
					utki::log([&](std::ostream& os) {
						++n;
						os << "(";
						utki::logcat("inner");
						os << ")";
					});
					en = 1;
					model += "(inner)";
					break;
				default: {
					const char* cs = "cstr";
					const uint8_t num = 65;
					utki::logcat(-1, ' ', 18446744073709551615ull, ' ', cs, '\n', num);
					model += "-1 18446744073709551615 cstr\nA";
					break;
				}
			}
			got.push_back(co.content());
			expected.push_back(model);
			exact.push_back(flushed);
			calls.push_back(n);
			expected_calls.push_back(en);
			steps();
		}
		err = ce.content();
	}
	// an operation which has nothing to print does not have to flush what others have left
	bool pending = false;
	for (size_t i = 0; i != seq.size(); ++i) {
		bool prints = i == 0 ? !expected[i].empty() : expected[i].size() != expected[i - 1].size();
		if (!exact[i]) {
			pending = true;
		} else if (prints) {
			pending = false;
		}
		const char* what = pending ? "is not a prefix of what was printed" : "is not what was printed";
		bool ok = pending ? expected[i].compare(0, got[i].size(), got[i]) == 0 : got[i] == expected[i];
		MC_CHECK(
			ok,
			"after operation %d (number %zu): output %s %s %s",
			seq[i],
			i,
			quote(got[i].substr(0, 200)).c_str(),
			what,
			quote(expected[i].substr(0, 200)).c_str()
		);
		MC_CHECK(calls[i] == expected_calls[i], "operation %d: callback was called %d times instead of %d", seq[i], calls[i], expected_calls[i]);
	}
	MC_CHECK(err.empty(), "logging wrote to standard error: %s", quote(err).c_str());
	state(hasher().add(model).h);
}

// what was logged is there even when the program stops right after it
MC_SUITE(log_then_stop)
{
	int op = int(choose(3));
	int stop = int(choose(4));
	bool direct = choose(2);
	note("log variant %d, stop %d", op, stop);
	where("log then stop", uint64_t(op), uint64_t(stop));
	auto r = in_child([&]() {
		if (direct) {
			std::cout << "before ";
		}
		switch (op) {
			case 0:
				utki::log([](std::ostream& o) {
					o << "logged";
				});
				break;
			case 1:
				utki::logcat("log", "ged");
				break;
			default:
				utki::log([](std::ostream& o) {
					o << "log";
				});
				utki::log([](std::ostream& o) {
					o << "ged";
				});
				break;
		}
		switch (stop) {
			case 0:
				abort();
				break;
			case 1:
				_exit(1);
				break;
			case 2:
				raise(SIGKILL);
				break;
			default:
				utki::assert_always(false, utki::source_location(1, 0, "f"));
				break;
		}
	});
	std::string exp = direct ? "before logged" : "logged";
	MC_CHECK(r.out == exp, "the log is %s instead of %s", quote(r.out).c_str(), quote(exp).c_str());
	MC_CHECK(!r.survived, "was not stopped");
	steps();
	state(hasher().add(op).add(stop).add(direct).h);
}

// each of the standard streams is recognised as terminal or not independently of others
MC_SUITE(terminals)
{
	int kinds[3];
	for (int& k : kinds) {
		k = int(choose(3)); // 0 file, 1 terminal, 2 closed
	}
	where("terminals");
	int m = posix_openpt(O_RDWR | O_NOCTTY);
	if (m < 0 || grantpt(m) != 0 || unlockpt(m) != 0) {
		if (m >= 0) {
			close(m);
		}
		return; // no pseudo terminals here
	}
	char name[200];
	int s = ptsname_r(m, name, sizeof(name)) == 0 ? open(name, O_RDWR | O_NOCTTY) : -1;
	if (s < 0) {
		close(m);
		return;
	}
	int res = new_file();
	auto r = in_child([&]() {
		int f = open("/dev/null", O_RDWR);
		// keep the descriptors used here out of the way of standard ones
		int hi_f = fcntl(f, F_DUPFD, 20);
		int hi_s = fcntl(s, F_DUPFD, 20);
		int hi_r = fcntl(res, F_DUPFD, 20);
		for (int i = 0; i != 3; ++i) {
			if (kinds[i] == 2) {
				close(i);
			} else {
				dup2(kinds[i] == 1 ? hi_s : hi_f, i);
			}
		}
		char b[6];
		for (int k = 0; k != 2; ++k) {
			b[3 * k + 0] = utki::is_terminal_cin() ? '1' : '0';
			b[3 * k + 1] = utki::is_terminal_cout() ? '1' : '0';
			b[3 * k + 2] = utki::is_terminal_cerr() ? '1' : '0';
		}
		if (write(hi_r, b, 6) != 6) {
			_exit(5);
		}
	});
	std::string got = slurp(res);
	close(res);
	close(s);
	close(m);
	MC_CHECK(r.survived, "failed, status %x", unsigned(r.status));
	std::string exp;
	for (int k = 0; k != 2; ++k) {
		for (int i = 0; i != 3; ++i) {
			exp += kinds[i] == 1 ? '1' : '0';
		}
	}
	MC_CHECK(got == exp, "in, out, err are terminals: %s, reported: %s", exp.c_str(), got.c_str());
	steps();
	state(hasher().add(kinds[0]).add(kinds[1]).add(kinds[2]).h);
}

// the report is complete also on a terminal
MC_SUITE(assertion_on_terminal)
{
	int a = int(choose(2));
	bool on_terminal = choose(2);
	where("assertion on terminal");
	int m = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
	if (m < 0 || grantpt(m) != 0 || unlockpt(m) != 0) {
		if (m >= 0) {
			close(m);
		}
		return;
	}
	char name[200];
	int s = ptsname_r(m, name, sizeof(name)) == 0 ? open(name, O_RDWR | O_NOCTTY) : -1;
	if (s < 0) {
		close(m);
		return;
	}
	auto r = in_child([&]() {
		if (on_terminal) {
			dup2(s, 2);
		}
		run_assert(a == 0 ? always_1 : always_2, false, false, "the reason", utki::source_location(77, 0, "file.cpp"));
	});
	std::string got = r.err;
	if (on_terminal) {
		char b[4096];
		ssize_t n = read(m, b, sizeof(b));
		got.assign(b, n > 0 ? size_t(n) : 0);
	}
	close(s);
	close(m);
	MC_CHECK(r.aborted, "was not stopped by abort(): status %x", unsigned(r.status));
	MC_CHECK(got.find("file.cpp:77") != std::string::npos, "no location in %s", quote(got).c_str());
	MC_CHECK(got.find("assertion failed") != std::string::npos, "no text in %s", quote(got).c_str());
	if (a == 1) {
		MC_CHECK(got.find("the reason") != std::string::npos, "no message in %s", quote(got).c_str());
	}
	if (!on_terminal) {
		MC_CHECK(got.find('\033') == std::string::npos, "terminal control sequence in a file: %s", quote(got).c_str());
	}
	steps();
	state(hasher().add(a).add(on_terminal).h);
}

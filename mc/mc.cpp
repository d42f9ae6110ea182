// The explorer engine. See mc.hpp.
#include "mc.hpp"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

#ifndef MC_CONFIG
#	define MC_CONFIG "unknown"
#endif

namespace mc {

tier current_tier = tier::quick;
const char* config_name = MC_CONFIG;
bool verbose = false;

namespace {

constexpr size_t max_depth = 1 << 15;
constexpr uint64_t shard_product = 256;
constexpr size_t table_bits = 25;
constexpr size_t table_size = size_t(1) << table_bits;
constexpr size_t max_samples = 12;

struct wshm {
	std::atomic<uint64_t> heartbeat;
	uint64_t execs;
	uint64_t transitions;
	uint64_t max_depth_seen;
	uint32_t trace_len;
	uint32_t trace[max_depth];
	char msg[8192];
	const char* where_what; // pointer into read only data of the same binary: valid in the parent too
	uint64_t where_args[3];
	uint32_t failed;
	uint32_t done;
	uint32_t incomplete;
	uint32_t num_samples;
	uint32_t sample_len[max_samples];
	uint32_t sample[max_samples][256];
};

struct gshm {
	std::atomic<uint64_t> num_states;
	std::atomic<uint64_t> table_full;
	std::atomic<uint32_t> stop;
	std::atomic<uint32_t> num_known;
	struct {
		char id[64];
		char text[256];
		uint32_t trace_len;
		uint32_t trace[64];
		char suite[64];
	} known[16];
};

std::vector<suite*>& suites()
{
	static std::vector<suite*> s;
	return s;
}

gshm* g = nullptr;
std::atomic<uint64_t>* table = nullptr;
std::atomic<uint64_t>* visited = nullptr; // states whose exploration has begun, see first_visit()
wshm* all_w = nullptr;
wshm* w = nullptr;

struct frame {
	uint32_t val;
	uint32_t n;
};

std::vector<frame> stack_;
size_t pos = 0;
bool replaying = false;
std::vector<uint32_t> replay_trace;
uint32_t worker_index = 0;
uint32_t num_workers = 1;
uint64_t path_product = 1;
bool shard_checked = false;
uint64_t path_hash = 0;
bool owned = true;
uint64_t suite_salt = 0;
std::string notes;
double deadline = 0; // absolute, CLOCK_MONOTONIC

struct prune {};

double now()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

void* shmap(size_t size)
{
	void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		_exit(97);
	}
	return p;
}

} // namespace

suite::suite(const char* name, body_fn body, double hang_scale) :
	name(name),
	body(body),
	hang_scale(hang_scale)
{
	suites().push_back(this);
}

uint32_t choose(uint32_t n)
{
	if (n == 0) {
		fprintf(stderr, "mc: choose(0)\n");
		_exit(98);
	}
	uint32_t ret;
	if (replaying) {
		ret = pos < replay_trace.size() ? replay_trace[pos] : 0;
		if (ret >= n) {
			fprintf(stderr, "mc: replay choice %u out of range %u at %zu\n", ret, n, pos);
			_exit(98);
		}
	} else {
		if (pos < stack_.size()) {
			if (stack_[pos].n != n) {
				fprintf(stderr, "mc: non-deterministic body: n=%u was %u at depth %zu\n", n, stack_[pos].n, pos);
				_exit(98);
			}
			ret = stack_[pos].val;
		} else {
			stack_.push_back(frame{0, n});
			ret = 0;
		}
	}
	if (pos >= max_depth) {
		fprintf(stderr, "mc: too deep\n");
		_exit(98);
	}
	w->trace[pos] = ret;
	++pos;
	w->trace_len = uint32_t(pos);

	if (!shard_checked && !replaying) {
		path_hash = hasher{path_hash}.add(ret + 1).h;
		path_product *= n;
		if (path_product >= shard_product) {
			shard_checked = true;
			owned = (path_hash >> 20) % num_workers == worker_index;
			if (!owned) {
				throw prune();
			}
		}
	}
	return ret;
}

void note(const char* fmt, ...)
{
	if (!verbose) {
		return;
	}
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (notes.size() < 20000) {
		notes += buf;
		notes += "; ";
	}
}

void where(const char* what, uint64_t a, uint64_t b, uint64_t c)
{
	w->where_what = what;
	w->where_args[0] = a;
	w->where_args[1] = b;
	w->where_args[2] = c;
}

uint64_t path()
{
	hasher h;
	for (size_t i = 0; i != pos; ++i) {
		h.add(uint64_t(w->trace[i]));
	}
	return h.h;
}

bool first_visit(uint64_t h)
{
	if (replaying || !shard_checked || pos < stack_.size()) {
		return true;
	}
	h = hasher{h}.add(suite_salt ^ 0x5151).h;
	if (h == 0) {
		h = 1;
	}
	size_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - table_bits);
	for (unsigned probe = 0; probe < 64; ++probe) {
		uint64_t v = visited[i].load(std::memory_order_relaxed);
		if (v == h) {
			return false;
		}
		if (v == 0) {
			if (visited[i].compare_exchange_strong(v, h, std::memory_order_relaxed)) {
				return true;
			}
			if (v == h) {
				return false;
			}
		}
		i = (i + 1) & (table_size - 1);
	}
	return true;
}

uint32_t worker()
{
	return worker_index;
}

void steps(uint64_t n)
{
	w->transitions += n;
}

void tick()
{
	w->heartbeat.store(w->heartbeat.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
}

void state(uint64_t h)
{
	h = hasher{h}.add(suite_salt).h;
	if (h == 0) {
		h = 1;
	}
	size_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - table_bits);
	for (unsigned probe = 0; probe < 64; ++probe) {
		uint64_t v = table[i].load(std::memory_order_relaxed);
		if (v == h) {
			return;
		}
		if (v == 0) {
			if (table[i].compare_exchange_strong(v, h, std::memory_order_relaxed)) {
				g->num_states.fetch_add(1, std::memory_order_relaxed);
				return;
			}
			if (v == h) {
				return;
			}
		}
		i = (i + 1) & (table_size - 1);
	}
	g->table_full.fetch_add(1, std::memory_order_relaxed);
}

void known_finding(const char* id, const char* fmt, ...)
{
	uint32_t n = g->num_known.load();
	for (uint32_t i = 0; i < n && i < 16; ++i) {
		if (strcmp(g->known[i].id, id) == 0) {
			return;
		}
	}
	uint32_t i = g->num_known.fetch_add(1);
	if (i >= 16) {
		return;
	}
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(g->known[i].text, sizeof(g->known[i].text), fmt, ap);
	va_end(ap);
	g->known[i].trace_len = uint32_t(pos < 64 ? pos : 64);
	memcpy(g->known[i].trace, w->trace, g->known[i].trace_len * sizeof(uint32_t));
	strncpy(g->known[i].id, id, 63);
}

void fail(const char* file, int line, const char* cond, const char* fmt, ...)
{
	const char* slash = strrchr(file, '/');
	int k = snprintf(
		w->msg,
		sizeof(w->msg),
		"%s:%d: check failed: %s:",
		slash ? slash + 1 : file,
		line,
		cond
	);
	if (k > 0 && size_t(k) < sizeof(w->msg)) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(w->msg + k, sizeof(w->msg) - size_t(k), fmt, ap);
		va_end(ap);
	}
	w->failed = 1;
	_exit(99);
}

std::string quote(std::string_view s)
{
	std::string r = "\"";
	size_t n = 0;
	for (unsigned char c : s) {
		if (++n > 400) {
			r += "...(" + std::to_string(s.size()) + " bytes)";
			break;
		}
		if (c == '"' || c == '\\') {
			r += '\\';
			r += char(c);
		} else if (c >= 0x20 && c < 0x7f) {
			r += char(c);
		} else {
			char b[8];
			snprintf(b, sizeof(b), "\\x%02x", c);
			r += b;
		}
	}
	return r + "\"";
}

namespace {

void run_body(suite& s)
{
	pos = 0;
	w->trace_len = 0;
	path_product = 1;
	path_hash = 0;
	shard_checked = num_workers <= 1;
	owned = true;
	try {
		s.body();
	} catch (prune&) {
		throw;
	} catch (std::exception& e) {
		fail("body", 0, "no unexpected exception", "%s: %s", typeid(e).name(), e.what());
	} catch (...) {
		fail("body", 0, "no unexpected exception", "unknown type");
	}
}

[[noreturn]] void worker_main(suite& s)
{
	uint64_t next_sample = 1;
	stack_.clear();
	for (;;) {
		bool pruned = false;
		uint64_t tr = w->transitions;
		try {
			run_body(s);
		} catch (prune&) {
			pruned = true;
		}
		if (!pruned) {
			if (!shard_checked) {
				// short path: executed by every worker, counted by one
				owned = (path_hash >> 20) % num_workers == worker_index;
			}
			if (owned) {
				++w->execs;
				if (pos > w->max_depth_seen) {
					w->max_depth_seen = pos;
				}
				if (w->execs == next_sample && w->num_samples < max_samples && pos <= 256) {
					w->sample_len[w->num_samples] = uint32_t(pos);
					memcpy(w->sample[w->num_samples], w->trace, pos * sizeof(uint32_t));
					++w->num_samples;
					next_sample *= 7;
				}
			} else {
				w->transitions = tr;
			}
		}
		tick();
		// backtrack
		stack_.resize(pos);
		while (!stack_.empty() && stack_.back().val + 1 >= stack_.back().n) {
			stack_.pop_back();
		}
		if (stack_.empty()) {
			break;
		}
		++stack_.back().val;
		if ((w->execs & 0x3f) == 0) {
			if (g->stop.load(std::memory_order_relaxed)) {
				w->incomplete = 1;
				break;
			}
			if (deadline != 0 && now() > deadline) {
				w->incomplete = 1;
				break;
			}
		}
	}
	w->done = 1;
	_exit(0);
}

std::string read_tail(const std::string& path, size_t n)
{
	std::string r;
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) {
		return r;
	}
	fseek(f, 0, SEEK_END);
	long sz = ftell(f);
	long from = sz > long(n) ? sz - long(n) : 0;
	fseek(f, from, SEEK_SET);
	r.resize(size_t(sz - from));
	size_t got = fread(r.data(), 1, r.size(), f);
	r.resize(got);
	fclose(f);
	return r;
}

void redirect(const std::string& path)
{
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
	if (fd >= 0) {
		dup2(fd, 1);
		dup2(fd, 2);
		if (fd > 2) {
			close(fd);
		}
	}
}

std::string json_escape(const std::string& s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += char(c);
		} else if (c == '\n') {
			r += "\\n";
		} else if (c < 0x20 || c >= 0x7f) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			r += b;
		} else {
			r += char(c);
		}
	}
	return r;
}

std::string trace_str(const uint32_t* t, size_t n)
{
	std::string r;
	for (size_t i = 0; i != n; ++i) {
		if (i) {
			r += ',';
		}
		r += std::to_string(t[i]);
	}
	return r;
}

struct outcome {
	bool failed = false;
	std::string kind; // "check", "crash", "hang", "internal"
	std::string message;
	std::vector<uint32_t> trace;
	uint32_t worker = 0;
};

std::string scratch = "/tmp";
double hang_limit = 20;

// wait for the children; returns first failure
outcome supervise(suite& s, std::vector<pid_t>& pids, double limit, const std::string& tag)
{
	outcome out;
	size_t alive = pids.size();
	std::vector<uint64_t> hb(pids.size(), 0);
	std::vector<double> hb_time(pids.size(), now());
	std::vector<bool> hung(pids.size(), false);
	useconds_t nap = 500;
	while (alive > 0) {
		bool progress = false;
		for (size_t i = 0; i != pids.size(); ++i) {
			if (pids[i] == 0) {
				continue;
			}
			int st = 0;
			pid_t r = waitpid(pids[i], &st, WNOHANG);
			if (r == 0) {
				uint64_t h = all_w[i].heartbeat.load();
				if (h != hb[i]) {
					hb[i] = h;
					hb_time[i] = now();
				} else if (now() - hb_time[i] > limit * s.hang_scale) {
					hung[i] = true;
					kill(pids[i], SIGKILL);
					hb_time[i] = now();
				}
				continue;
			}
			progress = true;
			pids[i] = 0;
			--alive;
			wshm& x = all_w[i];
			bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && x.done && !hung[i];
			if (ok || out.failed) {
				continue;
			}
			if (g->stop.load() && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !hung[i]) {
				continue;
			}
			out.failed = true;
			out.worker = uint32_t(i);
			out.trace.assign(x.trace, x.trace + x.trace_len);
			if (hung[i]) {
				out.kind = "hang";
				out.message = "no progress (does not terminate)";
			} else if (x.failed) {
				out.kind = "check";
				out.message = x.msg;
			} else if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
				out.kind = "internal";
				out.message = read_tail(scratch + "/" + tag + "." + std::to_string(i) + ".log", 2000);
			} else {
				out.kind = "crash";
				out.message = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) + ": "
											  : "exit status " + std::to_string(WEXITSTATUS(st)) + ": ";
				out.message += read_tail(scratch + "/" + tag + "." + std::to_string(i) + ".log", 3500);
			}
			if (x.where_what) {
				out.message += "\n[at: ";
				out.message += x.where_what;
				for (auto a : x.where_args) {
					out.message += " " + std::to_string(a);
				}
				out.message += "]";
			}
			g->stop = 1;
		}
		if (out.failed) {
			// give the others a moment, then end them
			usleep(50000);
			for (auto p : pids) {
				if (p) {
					kill(p, SIGKILL);
				}
			}
		}
		if (!progress && alive) {
			usleep(nap);
			if (nap < 20000) {
				nap *= 2;
			}
		} else {
			nap = 500;
		}
	}
	return out;
}

void reset_shm()
{
	for (uint32_t i = 0; i != 64; ++i) {
		auto* p = reinterpret_cast<char*>(&all_w[i]);
		memset(p, 0, sizeof(wshm));
	}
	g->stop = 0;
}

pid_t spawn(suite& s, uint32_t idx, uint32_t n, const std::string& tag)
{
	fflush(stdout);
	fflush(stderr);
	pid_t p = fork();
	if (p < 0) {
		perror("fork");
		_exit(97);
	}
	if (p == 0) {
		w = &all_w[idx];
		worker_index = idx;
		num_workers = n;
		redirect(scratch + "/" + tag + "." + std::to_string(idx) + ".log");
		worker_main(s);
	}
	return p;
}

// fork a child which executes one trace; returns outcome and the description
outcome run_one(suite& s, const std::vector<uint32_t>& trace, bool want_notes, double limit, std::string* notes_out)
{
	reset_shm();
	char* nbuf = static_cast<char*>(shmap(32768));
	std::string tag = std::string(s.name) + ".one";
	pid_t p = fork();
	if (p == 0) {
		w = &all_w[0];
		worker_index = 0;
		num_workers = 1;
		redirect(scratch + "/" + tag + ".0.log");
		replaying = true;
		replay_trace = trace;
		verbose = want_notes;
		struct flush_notes {
			char* b;
			~flush_notes()
			{
				strncpy(b, notes.c_str(), 32000);
			}
		};
		{
			flush_notes fl{nbuf};
			run_body(s);
		}
		w->done = 1;
		_exit(0);
	}
	std::vector<pid_t> pids{p};
	outcome o = supervise(s, pids, limit, tag);
	if (notes_out) {
		*notes_out = nbuf;
	}
	munmap(nbuf, 32768);
	return o;
}

std::vector<uint32_t> parse_trace(const char* p)
{
	std::vector<uint32_t> r;
	while (*p) {
		char* e;
		r.push_back(uint32_t(strtoul(p, &e, 10)));
		if (e == p) {
			break;
		}
		p = *e == ',' ? e + 1 : e;
	}
	return r;
}

std::string self_exe;

// run "self replay ..." in a fresh process; returns 0 = held, 1 = violated, other = error
int fresh_replay(
	suite& s,
	const std::vector<uint32_t>& trace,
	bool shard,
	uint32_t idx,
	uint32_t n,
	double hang,
	const std::string& outfile
)
{
	pid_t p = fork();
	if (p == 0) {
		std::vector<std::string> a{
			self_exe,
			shard ? "replay-shard" : "replay",
			"--tier",
			thorough() ? "thorough" : "quick",
			"--suite",
			s.name,
			"--trace",
			trace_str(trace.data(), trace.size()),
			"--shard",
			std::to_string(idx) + "/" + std::to_string(n),
			"--hang",
			std::to_string(hang),
			"--scratch",
			scratch
		};
		redirect(outfile);
		std::vector<char*> av;
		for (auto& x : a) {
			av.push_back(x.data());
		}
		av.push_back(nullptr);
		execv(self_exe.c_str(), av.data());
		_exit(97);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if (WIFEXITED(st)) {
		return WEXITSTATUS(st);
	}
	return 97;
}

} // namespace

int main_(int argc, char** argv)
{
	std::string cmd = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt;
	for (int i = 2; i + 1 < argc; i += 2) {
		opt[argv[i]] = argv[i + 1];
	}
	if (opt.count("--tier") && opt["--tier"] == "thorough") {
		current_tier = tier::thorough;
	}
	if (opt.count("--scratch")) {
		scratch = opt["--scratch"];
	}
	if (opt.count("--hang")) {
		hang_limit = atof(opt["--hang"].c_str());
	}
	uint32_t W = opt.count("--workers") ? uint32_t(atoi(opt["--workers"].c_str())) : 8;
	if (W > 64) {
		W = 64;
	}
	char exe[4096];
	ssize_t k = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	if (k > 0) {
		exe[k] = 0;
		self_exe = exe;
	}

#if !defined(MC_ASAN)
	{
		rlimit rl{size_t(6) << 30, size_t(6) << 30};
		setrlimit(RLIMIT_AS, &rl);
	}
#endif
	{
		rlimit rl{0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		rlimit fs{size_t(1) << 30, size_t(1) << 30};
		setrlimit(RLIMIT_FSIZE, &fs);
	}

	g = static_cast<gshm*>(shmap(sizeof(gshm)));
	table = static_cast<std::atomic<uint64_t>*>(shmap(table_size * sizeof(uint64_t)));
	visited = static_cast<std::atomic<uint64_t>*>(shmap(table_size * sizeof(uint64_t)));
	all_w = static_cast<wshm*>(shmap(64 * sizeof(wshm)));
	w = &all_w[63];

	if (cmd == "list") {
		for (auto* s : suites()) {
			printf("%s\n", s->name);
		}
		return 0;
	}

	auto find = [&](const std::string& n) -> suite* {
		for (auto* s : suites()) {
			if (n == s->name) {
				return s;
			}
		}
		return nullptr;
	};

	if (cmd == "replay") {
		suite* s = find(opt["--suite"]);
		if (!s) {
			fprintf(stderr, "no such suite\n");
			return 97;
		}
		std::string n;
		outcome o = run_one(*s, parse_trace(opt["--trace"].c_str()), false, hang_limit, nullptr);
		// once more, only to obtain the description
		run_one(*s, parse_trace(opt["--trace"].c_str()), true, o.kind == "hang" ? 2 : hang_limit, &n);
		printf("suite: %s\ntrace: %s\ndescription: %s\n", s->name, opt["--trace"].c_str(), n.c_str());
		if (o.failed) {
			printf("VIOLATED (%s)\n%s\n", o.kind.c_str(), o.message.c_str());
			return o.kind == "internal" ? 97 : 1;
		}
		printf("held\n");
		return 0;
	}
	if (cmd == "replay-shard") {
		suite* s = find(opt["--suite"]);
		if (!s) {
			return 97;
		}
		auto sh = opt["--shard"];
		uint32_t idx = uint32_t(atoi(sh.c_str()));
		uint32_t n = uint32_t(atoi(sh.c_str() + sh.find('/') + 1));
		reset_shm();
		std::string tag = std::string(s->name) + ".shard";
		// supervise() addresses workers by index: make index idx the only live one
		std::vector<pid_t> pids(idx + 1, 0);
		pids[idx] = spawn(*s, idx, n, tag);
		// supervise counts all pids as alive, so hand it only what is live
		int st = 0;
		uint64_t hb = 0;
		double t = now();
		bool hung = false;
		for (;;) {
			pid_t r = waitpid(pids[idx], &st, WNOHANG);
			if (r != 0) {
				break;
			}
			uint64_t h = all_w[idx].heartbeat.load();
			if (h != hb) {
				hb = h;
				t = now();
			} else if (now() - t > hang_limit * s->hang_scale) {
				hung = true;
				kill(pids[idx], SIGKILL);
			}
			usleep(5000);
		}
		wshm& x = all_w[idx];
		bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && x.done && !hung;
		printf(
			"suite: %s shard %u/%u: %s\ntrace: %s\n%s\n%s\n",
			s->name,
			idx,
			n,
			ok ? "held" : "VIOLATED",
			trace_str(x.trace, x.trace_len).c_str(),
			x.failed ? x.msg : "",
			ok ? "" : read_tail(scratch + "/" + tag + "." + std::to_string(idx) + ".log", 3000).c_str()
		);
		if (!ok && WIFEXITED(st) && WEXITSTATUS(st) == 98) {
			return 97;
		}
		return ok ? 0 : 1;
	}
	if (cmd != "run") {
		fprintf(stderr, "usage: run|replay|replay-shard|list\n");
		return 97;
	}

	double t0 = now();
	if (opt.count("--budget")) {
		deadline = t0 + atof(opt["--budget"].c_str());
	}
	uint64_t execs = 0, transitions = 0, maxd = 0;
	bool incomplete = false;
	std::string suites_json, samples_json;
	std::string violation_json;
	int rc = 0;
	for (auto* s : suites()) {
		if (opt.count("--suite") && opt["--suite"] != s->name) {
			continue;
		}
		double ts = now();
		suite_salt = hash_str(s->name);
		uint64_t st0 = g->num_states.load();
		reset_shm();
		std::vector<pid_t> pids;
		for (uint32_t i = 0; i != W; ++i) {
			pids.push_back(spawn(*s, i, W, s->name));
		}
		outcome o = supervise(*s, pids, hang_limit, s->name);
		uint64_t e = 0, tr = 0;
		bool inc = false;
		std::vector<std::vector<uint32_t>> samples;
		for (uint32_t i = 0; i != W; ++i) {
			e += all_w[i].execs;
			tr += all_w[i].transitions;
			inc = inc || all_w[i].incomplete;
			if (all_w[i].max_depth_seen > maxd) {
				maxd = all_w[i].max_depth_seen;
			}
			if (all_w[i].num_samples && samples.size() < 2) {
				uint32_t j = all_w[i].num_samples - 1;
				samples.emplace_back(all_w[i].sample[j], all_w[i].sample[j] + all_w[i].sample_len[j]);
			}
		}
		execs += e;
		transitions += tr;
		incomplete = incomplete || inc;
		char buf[512];
		snprintf(
			buf,
			sizeof(buf),
			"%s{\"suite\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"complete\":%s,\"wall_s\":%.2f}",
			suites_json.empty() ? "" : ",",
			s->name,
			(unsigned long long)e,
			(unsigned long long)(g->num_states.load() - st0),
			(unsigned long long)tr,
			inc || o.failed ? "false" : "true",
			now() - ts
		);
		suites_json += buf;
		printf(
			"[%s] %-28s executions=%llu states=%llu transitions=%llu %.2fs%s\n",
			config_name,
			s->name,
			(unsigned long long)e,
			(unsigned long long)(g->num_states.load() - st0),
			(unsigned long long)tr,
			now() - ts,
			inc ? " INCOMPLETE" : ""
		);
		fflush(stdout);
		if (o.failed) {
			// re-execute before reporting
			std::string rout = scratch + "/" + s->name + ".replay.txt";
			int r = 97;
			bool shard = false;
			if (o.kind != "internal") {
				r = fresh_replay(*s, o.trace, false, o.worker, W, hang_limit * 3, rout);
				if (r == 0) {
					shard = true;
					r = fresh_replay(*s, o.trace, true, o.worker, W, hang_limit * 3, rout);
				}
			}
			if (r == 1) {
				rc = 1;
				violation_json = std::string("{\"suite\":\"") + s->name + "\",\"kind\":\"" + o.kind + "\",\"shard\":" +
					(shard ? "true" : "false") + ",\"worker\":" + std::to_string(o.worker) + ",\"workers\":" +
					std::to_string(W) + ",\"trace\":\"" + trace_str(o.trace.data(), o.trace.size()) +
					"\",\"message\":\"" + json_escape(o.message) + "\",\"replay_output\":\"" +
					json_escape(read_tail(rout, 12000)) + "\"}";
				break;
			}
			if (o.kind == "hang" && r == 0) {
				// slow machine rather than a hang: it finished when re-run with a longer limit
				printf("[%s] %s: stalled but completed on re-run; treated as incomplete\n", config_name, s->name);
				incomplete = true;
				continue;
			}
			rc = 2;
			printf(
				"[%s] %s: NOT REPRODUCED (%s) trace=%s\n%s\n",
				config_name,
				s->name,
				o.kind.c_str(),
				trace_str(o.trace.data(), o.trace.size()).c_str(),
				o.message.c_str()
			);
			break;
		}
		for (auto& t : samples) {
			std::string n;
			run_one(*s, t, true, hang_limit, &n);
			if (n.size() > 500) {
				n.resize(500);
			}
			if (!samples_json.empty()) {
				samples_json += ",";
			}
			samples_json += "{\"suite\":\"" + std::string(s->name) + "\",\"choices\":\"" +
				trace_str(t.data(), t.size()) + "\",\"execution\":\"" + json_escape(n) + "\"}";
		}
	}
	std::string known_json;
	for (uint32_t i = 0; i < g->num_known.load() && i < 16; ++i) {
		std::string e = std::string("{\"id\":\"") + json_escape(g->known[i].id) + "\",\"text\":\"" +
			json_escape(g->known[i].text) + "\",\"trace\":\"" + trace_str(g->known[i].trace, g->known[i].trace_len) + "\"}";
		known_json += (i ? "," : "") + e;
	}
	if (opt.count("--out")) {
		FILE* f = fopen(opt["--out"].c_str(), "w");
		if (f) {
			fprintf(
				f,
				"{\"config\":\"%s\",\"rc\":%d,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,"
				"\"max_depth\":%llu,\"complete\":%s,\"state_table_overflow\":%llu,\"wall_s\":%.2f,\"suites\":[%s],\"samples\":[%s],\"known\":[%s],\"violation\":%s}\n",
				config_name,
				rc,
				(unsigned long long)execs,
				(unsigned long long)g->num_states.load(),
				(unsigned long long)transitions,
				(unsigned long long)maxd,
				incomplete ? "false" : "true",
				(unsigned long long)g->table_full.load(),
				now() - t0,
				suites_json.c_str(),
				samples_json.c_str(),
				known_json.c_str(),
				violation_json.empty() ? "null" : violation_json.c_str()
			);
			fclose(f);
		}
	}
	return rc;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
#endif

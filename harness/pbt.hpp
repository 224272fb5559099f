// Small property-based-testing engine used by all checks.
//
// Every random decision of a case is drawn through Gen and recorded as a
// sequence of integers ("choices").  A failing case is shrunk by minimising this
// sequence, and the sequence itself is the replay file.  A case is a pure
// function of (family, choices) and of the code under test.
//
// Cases run in forked worker processes; the choices live in shared memory, so a
// crash, a sanitizer report, an abort or a hang of the code under test still
// leaves the parent with the exact case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

static const size_t max_choices = 1u << 20;

struct Slot { // lives in shared memory, one per worker
	volatile uint64_t case_started_ms; // 0 = idle
	volatile uint64_t family, index;
	volatile uint64_t finished_cases;
	volatile uint64_t choice_count;
	volatile int failed; // 1: Failure thrown
	char msg[4096];
	char desc[8192]; // description of the case; survives a crash
	uint64_t choices[max_choices];
};

inline uint64_t now_ms() {
	timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

// stream that writes the description of the case into shared memory
struct DescBuf : std::streambuf {
	explicit DescBuf(char *p, size_t n) : base(p), cap(n) { clear(); }
	void clear() { len = 0; base[0] = 0; }
	int overflow(int c) override { put((char)c); return c; }
	std::streamsize xsputn(const char *s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
	void put(char c) { if (len + 1 < cap) { base[len++] = c; base[len] = 0; } }
	char *base; size_t cap, len = 0;
};

class Gen {
public:
	Gen(uint64_t seed, Slot *slot, bool thorough) : rng(seed), replay(nullptr), slot(slot), thorough_(thorough), buf(slot->desc, sizeof(slot->desc)), desc(&buf) { slot->choice_count = 0; }
	Gen(const std::vector<uint64_t> *replay, Slot *slot, bool thorough) : rng(0), replay(replay), slot(slot), thorough_(thorough), buf(slot->desc, sizeof(slot->desc)), desc(&buf) { slot->choice_count = 0; }

	bool thorough() const { return thorough_; }

	// uniform in [0,n)
	uint64_t below(uint64_t n) {
		if (n <= 1) return 0;
		uint64_t v;
		if (replay) {
			v = pos < replay->size() ? (*replay)[pos] : 0;
			++pos;
			if (v >= n) v = v % n;
		} else {
			uint64_t r = splitmix(rng);
			v = (uint64_t)(((unsigned __int128)r * n) >> 64);
		}
		record(v);
		return v;
	}
	uint64_t bits64() {
		uint64_t v;
		if (replay) { v = pos < replay->size() ? (*replay)[pos] : 0; ++pos; }
		else v = splitmix(rng);
		record(v);
		return v;
	}
	// inclusive range; shrinks towards lo
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
	int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	// true with probability num/den, shrinks to false
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	// skewed towards small values: picks a scale first
	uint64_t small(uint64_t max) {
		unsigned k = 0; while ((max >> k) != 0) ++k;
		unsigned b = range(0, k);
		uint64_t m = b >= 64 ? max : std::min<uint64_t>(max, ((uint64_t)1 << b) - 1);
		return range(0, m);
	}

	void label(const std::string &l) { if (labels) (*labels)[l]++; }
	void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
	// human readable description used for samples and failure reports
	std::ostream &note() { return desc; }
	std::string description() const { return slot->desc; }

	std::map<std::string, uint64_t> *labels = nullptr;
	bool is_nontrivial = false;
	uint64_t choice_hash = 1469598103934665603ull;

private:
	void record(uint64_t v) {
		size_t c = slot->choice_count;
		if (c < max_choices) { slot->choices[c] = v; slot->choice_count = c + 1; }
		choice_hash = (choice_hash ^ v) * 1099511628211ull;
		choice_hash ^= choice_hash >> 29;
	}
	uint64_t rng;
	const std::vector<uint64_t> *replay;
	size_t pos = 0;
	Slot *slot;
	bool thorough_;
	DescBuf buf;
	std::ostream desc;
};

[[noreturn]] inline void fail(const std::string &msg) { throw Failure{msg}; }
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(cond, text) do { if (!(cond)) { std::ostringstream pbt_o; pbt_o << text; ::pbt::fail(std::string(pbt_o.str()) + " [" #cond " at " __FILE__ ":" PBT_STR(__LINE__) "]"); } } while (0)
#define REQUIRE_EQ(a, b, text) do { auto &&pbt_a = (a); auto &&pbt_b = (b); if (!(pbt_a == pbt_b)) { std::ostringstream pbt_o; pbt_o << text << ": got " << ::pbt::show(pbt_a) << ", expected " << ::pbt::show(pbt_b); ::pbt::fail(std::string(pbt_o.str()) + " [" #a " == " #b " at " __FILE__ ":" PBT_STR(__LINE__) "]"); } } while (0)

inline std::string show(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c; }
	return r + "\"";
}
inline std::string show(const char *s) { return s ? show(std::string(s)) : "null"; }
template <class T> auto show(const T &x) -> decltype(std::to_string(x)) { return std::to_string(x); }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(float b) { char t[64]; snprintf(t, 64, "%.9g", b); return t; }
inline std::string show(double b) { char t[64]; snprintf(t, 64, "%.17g", b); return t; }
template <class A, class B> std::string show(const std::pair<A, B> &p);
template <class T, class A> std::string show(const std::vector<T, A> &v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) {
		if (i) r += ",";
		if (r.size() > 1500) { r += "... (" + std::to_string(v.size()) + " elements)"; break; }
		r += show((T)v[i]);
	}
	return r + "]";
}
template <class A, class B> std::string show(const std::pair<A, B> &p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }

struct Family {
	std::string name;
	uint64_t quick, thorough; // number of cases per variant
	std::function<void(Gen &)> run;
	unsigned timeout_s = 60;
	// a finding of this family is reported if it fails in at least one of this
	// many reruns (schedule dependent families use more than 3)
	unsigned reruns = 3;
	// run after all other families by one worker, so that the threads of a case have the cores to themselves
	bool alone = false;
};

struct Check {
	std::string id;
	std::string rule;
	std::vector<Family> families;
};

inline std::string json_escape(const std::string &s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r;
}

// ---- scratch directory of the current process (removed by the driver) ----
inline std::string &scratch_root() { static std::string s; return s; }
inline std::string scratch_file(const std::string &name) {
	static int last_pid = -1; static std::string dir;
	if (last_pid != (int)getpid()) {
		last_pid = getpid();
		dir = scratch_root() + "/p" + std::to_string(last_pid);
		mkdir(dir.c_str(), 0700);
	}
	return dir + "/" + name;
}

struct Options {
	std::string tier = "quick", variant = "default", out, replay_dir = ".", replay, scratch, only;
	uint64_t seed = 1;
	double scale = 1.0;
	unsigned jobs = 8;
	unsigned wall = 240; // stop starting new cases after this many seconds
};

struct Outcome { enum Kind { ok, discard, failure, crash, hang } kind = ok; std::string msg; };

class Runner {
public:
	Runner(const Check &c, const Options &o) : check(c), opt(o) {}

	int main() {
		if (!opt.replay.empty()) return replay_main();
		start = now_ms();
		unsigned jobs = opt.jobs;
		std::vector<Slot *> slots(jobs);
		for (auto &s : slots) s = new_slot();
		std::string tmp = scratch_root();
		std::vector<pid_t> pids(jobs);
		std::vector<uint64_t> resume(jobs, 0);
		auto spawn = [&](unsigned w) {
			fflush(stdout); fflush(stderr);
			pid_t p = fork();
			if (p == 0) { worker(w, jobs, slots[w], tmp, resume[w]); _exit(0); }
			pids[w] = p;
		};
		for (unsigned w = 0; w < jobs; ++w) spawn(w);
		unsigned alive = jobs;
		bool violated = false;
		while (alive) {
			int st; pid_t p = waitpid(-1, &st, WNOHANG);
			if (p <= 0) {
				usleep(20000);
				for (unsigned w = 0; w < jobs; ++w) if (pids[w] > 0) {
					uint64_t t = slots[w]->case_started_ms;
					if (t && now_ms() > t + 1000ull * check.families[slots[w]->family].timeout_s) {
						kill_group(pids[w]);
						waitpid(pids[w], &st, 0);
						if (handle(slots[w], Outcome{Outcome::hang, "case did not finish within " + std::to_string(check.families[slots[w]->family].timeout_s) + " s"})) { violated = true; }
						pids[w] = 0; --alive;
						if (!violated) { resume[w] = slots[w]->finished_cases + 1; slots[w]->finished_cases = resume[w]; slots[w]->case_started_ms = 0; spawn(w); ++alive; }
						break;
					}
				}
			} else {
				for (unsigned w = 0; w < jobs; ++w) if (pids[w] == p) {
					pids[w] = 0; --alive;
					if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
						Outcome oc = classify(slots[w], st, tmp + "/w" + std::to_string(w) + ".err");
						if (handle(slots[w], oc)) violated = true;
						else { resume[w] = slots[w]->finished_cases + 1; slots[w]->finished_cases = resume[w]; slots[w]->case_started_ms = 0; spawn(w); ++alive; }
					}
				}
			}
			if (violated) {
				for (unsigned w = 0; w < jobs; ++w) if (pids[w] > 0) { kill_group(pids[w]); waitpid(pids[w], &st, 0); }
				break;
			}
		}
		write_result(tmp, jobs, violated);
		return violated ? 1 : 0;
	}

private:
	const Check &check;
	Options opt;
	uint64_t start = 0;
	std::string replay_path, violation_msg;
	unsigned unreproduced = 0;
	std::vector<std::string> unreproduced_msgs;

	static void kill_group(pid_t p) { kill(-p, SIGKILL); kill(p, SIGKILL); }

	static Slot *new_slot() {
		void *m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); exit(2); }
		return (Slot *)m;
	}

	uint64_t case_count(const Family &f) const {
		double n = (opt.tier == "thorough" ? f.thorough : f.quick) * opt.scale;
		return n < 1 ? 1 : (uint64_t)n;
	}

	void child_setup(const std::string &err) {
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
		if (fd >= 0) { dup2(fd, 2); close(fd); }
		int n = open("/dev/null", O_RDWR);
		if (n >= 0) { dup2(n, 0); dup2(n, 1); close(n); }
	}

	void worker(unsigned w, unsigned jobs, Slot *slot, const std::string &tmp, uint64_t skip) {
		child_setup(tmp + "/w" + std::to_string(w) + ".err");
		std::map<std::string, uint64_t> labels;
		std::unordered_set<uint64_t> distinct;
		uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
		std::vector<std::string> samples;
		uint64_t n = 0;
		uint64_t last_flush = now_ms();
		auto flush = [&] {
			std::ofstream o(tmp + "/w" + std::to_string(w) + "." + std::to_string(skip) + ".stat");
			o << evaluations << " " << nontrivial << " " << discarded << "\n";
			o << labels.size() << "\n";
			for (auto &l : labels) o << l.second << " " << l.first << "\n";
			o << samples.size() << "\n";
			for (auto &s : samples) o << s << "\n";
			o << distinct.size() << "\n";
			for (auto h : distinct) o << h << "\n";
		};
		std::map<std::string, unsigned> sampled;
		// families are interleaved so that a wall clock stop hits all of them evenly
		for (bool alone : {false, true}) {
		uint64_t maxn = 0;
		for (auto &f : check.families) if (f.alone == alone && (opt.only.empty() || opt.only == f.name)) maxn = std::max(maxn, case_count(f));
		std::vector<double> credit(check.families.size(), 0);
		std::vector<uint64_t> next(check.families.size(), 0);
		for (uint64_t step = 0; step < maxn; ++step) {
			if (now_ms() - start > 1000ull * opt.wall) { labels["(stopped by wall clock)"]++; break; }
			for (size_t fi = 0; fi < check.families.size(); ++fi) {
				auto &f = check.families[fi];
				if (f.alone != alone || (!opt.only.empty() && opt.only != f.name)) continue;
				uint64_t want = (uint64_t)((double)(step + 1) * case_count(f) / maxn + 1e-9);
				while (next[fi] < want) {
					uint64_t i = next[fi]++;
					if ((alone ? 0 : (i * 2654435761u + fi) % jobs) != w) continue;
					uint64_t me = n++;
					if (me < skip) continue;
					uint64_t s = hash_str(check.id + "/" + f.name);
					s ^= opt.seed * 0x9E3779B97F4A7C15ull; splitmix(s);
					s ^= i * 0xD1B54A32D192ED03ull; splitmix(s);
					slot->family = fi; slot->index = i; slot->failed = 0; slot->msg[0] = 0;
					slot->finished_cases = me;
					slot->case_started_ms = now_ms();
					Gen g(s, slot, opt.tier == "thorough");
					g.labels = &labels;
					try {
						f.run(g);
						++evaluations;
						labels["family:" + f.name]++;
						if (g.is_nontrivial) {
							++nontrivial;
							labels["nontrivial:" + f.name]++;
							distinct.insert(g.choice_hash ^ (fi * 0x9E3779B97F4A7C15ull));
							std::string d = g.description();
							if (w == 0 && !d.empty() && sampled[f.name] < 3) {
								sampled[f.name]++;
								if (d.size() > 600) d = d.substr(0, 600) + "...";
								for (auto &c : d) if (c == '\n') c = ' ';
								samples.push_back(f.name + ": " + d);
							}
						}
					} catch (Discard &) { ++discarded; }
					catch (Failure &e) { report(slot, g, e.msg); }
					catch (std::exception &e) { report(slot, g, std::string("unexpected exception: ") + e.what()); }
					catch (...) { report(slot, g, "unexpected exception of unknown type"); }
					slot->case_started_ms = 0;
					if (now_ms() - last_flush > 3000) { flush(); last_flush = now_ms(); }
				}
			}
		}
		}
		flush();
		std::string d = scratch_root() + "/p" + std::to_string((int)getpid());
		(void)!system(("rm -rf '" + d + "'").c_str());
	}

	static void report(Slot *slot, Gen &g, const std::string &msg) {
		std::string m = msg;
		std::string d = g.description();
		if (!d.empty()) m += " | case: " + d;
		snprintf(slot->msg, sizeof(slot->msg), "%s", m.c_str());
		slot->failed = 1;
		_exit(77);
	}

	Outcome classify(Slot *slot, int st, const std::string &errfile) {
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && slot->failed) return Outcome{Outcome::failure, slot->msg};
		std::string m;
		if (WIFSIGNALED(st)) m = "killed by signal " + std::to_string(WTERMSIG(st));
		else m = "process exited with code " + std::to_string(WEXITSTATUS(st));
		std::ifstream in(errfile); std::string l; unsigned n = 0;
		while (std::getline(in, l)) {
			if (l.find("SUMMARY: ") != std::string::npos || l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("/src/") != std::string::npos || l.find("/include/routingkit/") != std::string::npos) {
				m += " | " + l; if (++n > 8) break;
			}
		}
		if (slot->desc[0]) m += std::string(" | case: ") + slot->desc;
		return Outcome{Outcome::crash, m};
	}

	// runs one case in a forked child
	Outcome try_choices(const Family &f, const std::vector<uint64_t> &ch, Slot *slot, unsigned timeout_s, std::vector<uint64_t> *used = nullptr) {
		std::string err = scratch_root() + "/try.err";
		fflush(stdout); fflush(stderr);
		slot->failed = 0; slot->msg[0] = 0;
		pid_t p = fork();
		if (p == 0) {
			child_setup(err);
			Gen g(&ch, slot, opt.tier == "thorough");
			std::map<std::string, uint64_t> labels; g.labels = &labels;
			try { f.run(g); }
			catch (Discard &) { _exit(78); }
			catch (Failure &e) { report(slot, g, e.msg); }
			catch (std::exception &e) { report(slot, g, std::string("unexpected exception: ") + e.what()); }
			catch (...) { report(slot, g, "unexpected exception of unknown type"); }
			_exit(0);
		}
		uint64_t t0 = now_ms(); int st = 0;
		for (;;) {
			pid_t r = waitpid(p, &st, WNOHANG);
			if (r == p) break;
			if (now_ms() - t0 > 1000ull * timeout_s) {
				kill_group(p); waitpid(p, &st, 0);
				cleanup_scratch(p);
				return Outcome{Outcome::hang, "case did not finish within " + std::to_string(timeout_s) + " s | case: " + slot->desc};
			}
			usleep(now_ms() - t0 < 20 ? 200 : 3000);
		}
		cleanup_scratch(p);
		if (used) used->assign(slot->choices, slot->choices + slot->choice_count);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return Outcome{};
		if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return Outcome{Outcome::discard, ""};
		return classify(slot, st, err);
	}

	void cleanup_scratch(pid_t p) {
		std::string d = scratch_root() + "/p" + std::to_string((int)p);
		struct stat s; if (!stat(d.c_str(), &s)) (void)!system(("rm -rf '" + d + "'").c_str());
	}

	static bool bad(const Outcome &o) { return o.kind >= Outcome::failure; }

	// returns true if the failure is reproducible and was reported
	bool handle(Slot *wslot, const Outcome &first) {
		const Family &f = check.families[wslot->family];
		uint64_t idx = wslot->index;
		std::vector<uint64_t> ch(wslot->choices, wslot->choices + wslot->choice_count);
		Slot *slot = new_slot();
		fprintf(stderr, "[%s/%s/%s case %llu] first failure: %s\n", check.id.c_str(), opt.variant.c_str(), f.name.c_str(), (unsigned long long)idx, first.msg.c_str());
		// reproduce
		unsigned limit = first.kind == Outcome::hang ? std::max(f.timeout_s, std::min(2 * f.timeout_s, 120u)) : f.timeout_s; // a hang is confirmed with more time
		unsigned tries = first.kind == Outcome::hang ? 2 : f.reruns, hits = 0;
		Outcome o = first;
		for (unsigned i = 0; i < tries; ++i) {
			Outcome r = try_choices(f, ch, slot, limit);
			if (bad(r)) { ++hits; o = r; }
		}
		bool deterministic = hits == tries;
		if (!deterministic && hits > 0 && f.reruns <= 3 && first.kind != Outcome::hang) {
			// partly reproducible (uninitialised memory for example): insist on two reproductions
			for (unsigned i = 0; i < 7; ++i) { Outcome r = try_choices(f, ch, slot, limit); ++tries; if (bad(r)) { ++hits; o = r; } }
		}
		if (hits == 0 || (!deterministic && f.reruns <= 3 && hits < 2)) {
			// not reproducible: inconclusive, never a violation
			++unreproduced; unreproduced_msgs.push_back(f.name + ": " + first.msg);
			munmap(slot, sizeof(Slot));
			return false;
		}
		if (deterministic && o.kind != Outcome::hang) shrink(f, ch, o, slot);
		violation_msg = o.msg;
		write_replay(f, ch, idx, o, hits, tries);
		munmap(slot, sizeof(Slot));
		return true;
	}

	void shrink(const Family &f, std::vector<uint64_t> &ch, Outcome &best, Slot *slot) {
		uint64_t t0 = now_ms();
		unsigned tries = 0;
		const uint64_t budget_ms = 60000;
		auto alive = [&] { return now_ms() - t0 < budget_ms && tries < 4000; };
		auto attempt = [&](const std::vector<uint64_t> &c) {
			++tries;
			std::vector<uint64_t> used;
			Outcome o = try_choices(f, c, slot, std::min(f.timeout_s, 20u), &used);
			if (!bad(o) || o.kind == Outcome::hang) return false;
			// keep the part of the sequence that was actually consumed
			if (used.size() < c.size() || (used.size() == c.size() && used < c)) ch = used; else ch = c;
			best = o;
			return true;
		};
		bool progress = true;
		while (progress && alive()) {
			progress = false;
			// truncate
			for (size_t len = ch.size(); len > 0 && alive();) {
				size_t cut = len / 2; bool any = false;
				while (cut > 0 && alive()) {
					std::vector<uint64_t> c(ch.begin(), ch.end() - std::min(cut, ch.size()));
					if (attempt(c)) { any = progress = true; break; }
					cut /= 2;
				}
				if (!any) break;
				len = ch.size();
			}
			// delete spans
			for (size_t span = std::max<size_t>(1, ch.size() / 2); span >= 1 && alive(); span /= 2) {
				for (size_t i = 0; i + span <= ch.size() && alive();) {
					std::vector<uint64_t> c(ch);
					c.erase(c.begin() + i, c.begin() + i + span);
					if (attempt(c)) progress = true; else i += span;
				}
				if (span == 1) break;
			}
			// zero spans
			for (size_t span = std::max<size_t>(1, ch.size() / 4); span >= 1 && alive(); span /= 2) {
				for (size_t i = 0; i + span <= ch.size() && alive(); i += span) {
					bool z = true; for (size_t j = i; j < i + span; ++j) z &= ch[j] == 0;
					if (z) continue;
					std::vector<uint64_t> c(ch);
					for (size_t j = i; j < i + span; ++j) c[j] = 0;
					if (attempt(c)) progress = true;
				}
				if (span == 1) break;
			}
			// reduce values
			for (size_t i = 0; i < ch.size() && alive(); ++i) {
				uint64_t lo = 0;
				while (i < ch.size() && ch[i] > lo && alive()) {
					uint64_t mid = lo + (ch[i] - lo) / 2;
					std::vector<uint64_t> c(ch); c[i] = mid;
					if (mid != ch[i] && attempt(c)) progress = true; else lo = mid + 1;
				}
			}
		}
	}

	void write_replay(const Family &f, const std::vector<uint64_t> &ch, uint64_t idx, const Outcome &o, unsigned hits, unsigned tries) {
		mkdir(opt.replay_dir.c_str(), 0755);
		char name[256];
		snprintf(name, sizeof name, "%s/%s-%s-%s-%llu.replay", opt.replay_dir.c_str(), check.id.c_str(), opt.variant.c_str(), f.name.c_str(), (unsigned long long)idx);
		std::ofstream out(name);
		out << "property " << check.id << "\nvariant " << opt.variant << "\nfamily " << f.name << "\ntier " << opt.tier << "\nseed " << opt.seed << "\ncase " << idx
			<< "\nreproduced " << hits << "/" << tries << "\nmessage " << [&] { std::string m = o.msg; for (auto &c : m) if (c == '\n') c = ' '; return m; }()
			<< "\nchoices " << ch.size();
		for (auto c : ch) out << " " << c;
		out << "\n";
		replay_path = name;
	}

	int replay_main() {
		std::ifstream in(opt.replay); std::string key, fam; std::vector<uint64_t> ch;
		std::string line;
		while (std::getline(in, line)) {
			std::istringstream l(line); l >> key;
			if (key == "family") l >> fam;
			else if (key == "tier") l >> opt.tier;
			else if (key == "choices") { size_t n; l >> n; ch.resize(n); for (auto &c : ch) l >> c; }
		}
		for (auto &f : check.families) if (f.name == fam) {
			Slot *slot = new_slot();
			Outcome o = try_choices(f, ch, slot, f.timeout_s);
			printf("%s\n", bad(o) ? ("FAIL " + o.msg).c_str() : "PASS");
			return bad(o) ? 1 : 0;
		}
		printf("unknown family\n");
		return 2;
	}

	void write_result(const std::string &tmp, unsigned jobs, bool violated) {
		uint64_t ev = 0, nt = 0, dis = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> distinct;
		(void)jobs;
		FILE *ls = popen(("ls '" + tmp + "' | grep '\\.stat$'").c_str(), "r");
		char buf[512];
		while (ls && fgets(buf, sizeof buf, ls)) {
			std::string n(buf); while (!n.empty() && (n.back() == '\n')) n.pop_back();
			std::ifstream in(tmp + "/" + n);
			uint64_t a, b, c; if (!(in >> a >> b >> c)) continue;
			ev += a; nt += b; dis += c;
			size_t k; in >> k;
			for (size_t i = 0; i < k; ++i) { uint64_t v; std::string l; in >> v; in.get(); std::getline(in, l); labels[l] += v; }
			in >> k; in.get();
			for (size_t i = 0; i < k; ++i) { std::string s; std::getline(in, s); samples.push_back(s); }
			in >> k;
			for (size_t i = 0; i < k; ++i) { uint64_t h; in >> h; distinct.insert(h); }
		}
		if (ls) pclose(ls);
		std::ofstream o(opt.out);
		o << "{\"property\":\"" << check.id << "\",\"variant\":\"" << opt.variant << "\",\"evaluations\":" << ev << ",\"nontrivial\":" << nt
			<< ",\"distinct_nontrivial\":" << distinct.size() << ",\"discarded\":" << dis << ",\"rule\":\"" << json_escape(check.rule) << "\",\"violated\":" << (violated ? "true" : "false")
			<< ",\"replay\":\"" << json_escape(replay_path) << "\",\"message\":\"" << json_escape(violation_msg) << "\",\"unreproduced\":" << unreproduced << ",\"unreproduced_messages\":[";
		for (size_t i = 0; i < unreproduced_msgs.size(); ++i) o << (i ? "," : "") << "\"" << json_escape(unreproduced_msgs[i]) << "\"";
		o << "],\"wall_ms\":" << (now_ms() - start) << ",\"labels\":{";
		bool first = true;
		for (auto &l : labels) { o << (first ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second; first = false; }
		o << "},\"samples\":[";
		for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << json_escape(samples[i]) << "\"";
		o << "]}\n";
	}
};

Check make_check(); // implemented by each check_*.cpp

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) {
	pbt::Options o;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--tier") o.tier = v;
		else if (k == "--seed") o.seed = std::stoull(v);
		else if (k == "--variant") o.variant = v;
		else if (k == "--out") o.out = v;
		else if (k == "--replay-dir") o.replay_dir = v;
		else if (k == "--replay") o.replay = v;
		else if (k == "--scratch") o.scratch = v;
		else if (k == "--scale") o.scale = std::stod(v);
		else if (k == "--jobs") o.jobs = std::stoul(v);
		else if (k == "--wall") o.wall = std::stoul(v);
		else if (k == "--only") o.only = v;
		else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
	}
	if (o.scratch.empty()) { fprintf(stderr, "--scratch needed\n"); return 2; }
	pbt::scratch_root() = o.scratch;
	signal(SIGPIPE, SIG_IGN);
	pbt::Check c = pbt::make_check();
	return pbt::Runner(c, o).main();
}
#endif

// Running the command-line programs of /repo inside a scratch directory.
#pragma once
#include "pbt.hpp"
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace tools {
inline std::string slurp(const std::string &f) { std::ifstream in(f, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
inline void spit(const std::string &f, const std::string &d) { std::ofstream o(f, std::ios::binary); o.write(d.data(), d.size()); }
inline bool exists(const std::string &f) { struct stat s; return !stat(f.c_str(), &s); }

struct Result { std::string out, err; };
// every program must end by itself, without a signal or a sanitizer report; programs report exceptions in their output
inline Result run(const std::string &tool, const std::vector<std::string> &args, const std::string &input = "") {
	const char *exe = getenv(("TOOL_" + tool).c_str());
	if (!exe) { fprintf(stderr, "TOOL_%s is not set\n", tool.c_str()); _exit(3); }
	std::string fi = pbt::scratch_file("stdin"), fo = pbt::scratch_file("stdout"), fe = pbt::scratch_file("stderr"); spit(fi, input);
	std::vector<char *> av; av.push_back((char *)exe); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
	pid_t p = fork();
	if (p == 0) {
		int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), c = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(a, 0); dup2(b, 1); dup2(c, 2); for (int i = 3; i < 64; ++i) close(i);
		execv(exe, av.data()); _exit(127);
	}
	int st = 0; if (p < 0) throw pbt::Discard{}; // out of processes
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	Result r{slurp(fo), slurp(fe)}; unlink(fi.c_str()); unlink(fo.c_str()); unlink(fe.c_str());
	std::string tail = r.err.size() > 600 ? r.err.substr(0, 600) : r.err;
	REQUIRE(!WIFSIGNALED(st), tool << " was killed by signal " << WTERMSIG(st) << ": " << tail);
	REQUIRE(WEXITSTATUS(st) < 64, tool << " exited with " << WEXITSTATUS(st) << ": " << tail);
	return r;
}
inline bool mentions_exception(const Result &r) { for (auto *s : {&r.out, &r.err}) if (s->find("xception") != std::string::npos) return true; return false; }
template <class T> void save(const std::string &f, const std::vector<T> &v) { spit(f, std::string((const char *)v.data(), v.size() * sizeof(T))); }
template <class T> std::vector<T> load(const std::string &f) { std::string s = slurp(f); std::vector<T> v(s.size() / sizeof(T)); memcpy((void *)v.data(), s.data(), v.size() * sizeof(T)); return v; }
}

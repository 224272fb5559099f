// Fault injection below the C++ library: while a plan is armed, read/write calls on one file misbehave.
// The definitions below replace those of the C library in this program (libstdc++ calls them through the PLT).
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace faults {
enum Kind { shorts, interrupts, io_error, early_end };  // the first two are normal and must not matter
struct Plan { Kind kind; uint64_t after; uint64_t seed; dev_t dev; ino_t ino; };
inline Plan &plan() { static Plan p; return p; }
inline std::atomic<bool> &armed() { static std::atomic<bool> a(false); return a; }
inline std::atomic<uint64_t> &done() { static std::atomic<uint64_t> d(0); return d; }
inline std::atomic<uint64_t> &hits() { static std::atomic<uint64_t> d(0); return d; }
inline uint64_t next() { uint64_t &s = plan().seed; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11; }
struct Armed {
	Armed(const std::string &file, Kind kind, uint64_t after, uint64_t seed) {
		struct stat st; if (stat(file.c_str(), &st)) return;
		plan() = Plan{kind, after, seed | 1, st.st_dev, st.st_ino}; done() = 0; hits() = 0; armed() = true;
	}
	~Armed() { armed() = false; }
};
inline bool concerns(int fd) { struct stat st; return armed() && !fstat(fd, &st) && st.st_dev == plan().dev && st.st_ino == plan().ino; }
// how many of n bytes may be transferred; -1: fail with errno; -2: end of data
inline long allow(size_t n, bool writing) {
	Plan &p = plan();
	if (n == 0) return 0;
	switch (p.kind) {
	case shorts: if (next() % 2) { ++hits(); return 1 + next() % n; } return n;
	case interrupts: if (next() % 2) { ++hits(); errno = EINTR; return -1; } return n;
	default:
		if (done() >= p.after) { ++hits(); if (p.kind == early_end && !writing) return -2; errno = writing ? ENOSPC : EIO; return -1; }
		return std::min<uint64_t>(n, p.after - done());
	}
}
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
	if (!faults::concerns(fd)) return syscall(SYS_read, fd, b, n);
	long k = faults::allow(n, false);
	if (k < 0) return k == -2 ? 0 : -1;
	ssize_t r = syscall(SYS_read, fd, b, (size_t)k); if (r > 0) faults::done() += r; return r;
}
extern "C" ssize_t write(int fd, const void *b, size_t n) {
	if (!faults::concerns(fd)) return syscall(SYS_write, fd, b, n);
	long k = faults::allow(n, true);
	if (k < 0) return -1;
	ssize_t r = syscall(SYS_write, fd, b, (size_t)k); if (r > 0) faults::done() += r; return r;
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
	if (!faults::concerns(fd)) return syscall(SYS_writev, fd, v, c);
	size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
	long k = faults::allow(n, true);
	if (k < 0) return -1;
	ssize_t total = 0;
	for (int i = 0; i < c && k > 0; ++i) { size_t m = std::min<size_t>(k, v[i].iov_len); ssize_t r = syscall(SYS_write, fd, v[i].iov_base, m); if (r < 0) return total ? total : -1; total += r; faults::done() += r; k -= r; if ((size_t)r < m) break; }
	return total;
}

// P23: the asynchronous reader delivers the bytes of its source, in order, whatever the thread schedule; file sources.
#include "pbt.hpp"
#include "faults.hpp"
#include "buffered_asynchronous_reader.h"
#include "file_data_source.h"
#include <atomic>
#include <chrono>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
using namespace RoutingKit;
typedef unsigned long long ull;

static char byte_at(uint64_t p) { uint64_t s = p * 0x9e3779b97f4a7c15ull + 77; return (char)pbt::splitmix(s); }
struct SourceError { int code; };
static void delay(unsigned kind, uint64_t &rng) { // 0 none, 1 now and then a yield, 2 often a short sleep, 3 rarely a longer sleep
	uint64_t r = pbt::splitmix(rng);
	if (kind == 1 && r % 3 == 0) std::this_thread::yield();
	if (kind == 2 && r % 2 == 0) std::this_thread::sleep_for(std::chrono::microseconds(1 + r / 2 % 60));
	if (kind == 3 && r % 16 == 0) std::this_thread::sleep_for(std::chrono::microseconds(400));
}
struct Plan { uint64_t length; unsigned block, chunk_style, slow_source, slow_consumer, op_style; uint64_t fail_after, seed; unsigned max_ops, finish; bool moves; };

static void run_plan(const Plan &p, bool &saw_end, bool &saw_error, uint64_t &delivered) {
	uint64_t rng = p.seed, crng = p.seed ^ 0x5555; uint64_t pos = 0; std::atomic<int> in_source{0}; std::atomic<uint64_t> produced{0}; std::string source_trouble;
	auto source = [&](char *buf, ull n) -> ull {
		if (in_source.fetch_add(1) != 0) source_trouble = "the source is called by two threads at once";
		if (n < p.block) source_trouble = "the source was asked for less than a block";
		delay(p.slow_source, rng); if (pos >= p.fail_after) { in_source.fetch_sub(1); throw SourceError{42}; }
		uint64_t left = p.length - pos, k = std::min<uint64_t>(n, left);
		if (k) switch (p.chunk_style) { case 1: k = 1; break; case 2: k = 1 + pbt::splitmix(rng) % k; break; case 3: if (pbt::splitmix(rng) % 2) k = 1 + pbt::splitmix(rng) % k; break; case 4: k = std::max<uint64_t>(1, k - std::min<uint64_t>(k - 1, pbt::splitmix(rng) % 3)); break; default:; }
		if (p.fail_after > pos) k = std::min<uint64_t>(k, std::max<uint64_t>(1, p.fail_after - pos));
		for (uint64_t i = 0; i < k; ++i) buf[i] = byte_at(pos + i); // only the announced bytes are written
		pos += k; produced = pos; in_source.fetch_sub(1); return k;
	};
	uint64_t got = 0; saw_end = saw_error = false; std::unique_ptr<BufferedAsynchronousReader> other;
	{
		BufferedAsynchronousReader first(source, p.block), moved; BufferedAsynchronousReader *r = &first; const char *last = nullptr; unsigned last_n = 0; uint64_t last_at = 0;
		auto check = [&](const char *what) { for (unsigned i = 0; i < last_n; ++i) REQUIRE(last[i] == byte_at(last_at + i), what << ": byte " << last_at + i << " of " << p.length << " is wrong (read of " << last_n << ")"); };
		for (unsigned op = 0; op < p.max_ops; ++op) {
			delay(p.slow_consumer, crng); uint64_t q = pbt::splitmix(crng); if (last) check("data changed before the next read");
			if (p.moves && q % 5 == 0) { if (r == &first) { moved = std::move(first); r = &moved; } else { first = std::move(moved); r = &first; } if (last) check("data changed by a move"); }
			unsigned n; switch (p.op_style) { case 0: n = p.block; break; case 1: n = 1; break; case 2: n = pbt::splitmix(crng) % (p.block + 1); break; case 3: n = p.block - pbt::splitmix(crng) % std::min<unsigned>(p.block, 3); break; default: n = pbt::splitmix(crng) % 2 ? p.block : pbt::splitmix(crng) % (p.block + 1); }
			if (q % 64 == 1) { bool thrown = false; try { r->read(p.block + 1 + q % 7); } catch (std::runtime_error &) { thrown = true; } REQUIRE(thrown, "a read of more than a block is accepted"); }
			bool or_throw = q % 3 == 0, threw = false; const char *d = nullptr;
			try { d = or_throw ? r->read_or_throw(n) : r->read(n); } catch (SourceError &e) { REQUIRE_EQ(e.code, 42, "exception of the source"); saw_error = true; } catch (std::runtime_error &) { threw = true; }
			if (saw_error) { REQUIRE(produced >= p.fail_after, "exception before the source failed"); bool again = false; try { for (unsigned i = 0; i < 3; ++i) { const char *x = r->read(p.block); if (!x) break; } } catch (SourceError &) { again = true; } REQUIRE(again, "after the exception of the source further reads pretend that nothing happened"); break; }
			if (!d) { REQUIRE(or_throw == threw, "end of data not reported as it should"); REQUIRE(p.fail_after >= p.length || p.fail_after > got + n, "end of data reported although the source failed"); REQUIRE(got + n > p.length, "end of data reported at " << got << " although " << n << " of " << p.length << " bytes remain"); saw_end = true; last = nullptr; if (p.length > got) { unsigned rest = p.length - got; d = r->read(rest); REQUIRE(d, "the remaining " << rest << " bytes cannot be read after the end was reported"); for (unsigned i = 0; i < rest; ++i) REQUIRE(d[i] == byte_at(got + i), "wrong byte in the remainder"); got += rest; } REQUIRE(r->read(1) == nullptr, "data beyond the end"); REQUIRE(r->read(0) != nullptr || true, ""); break; }
			REQUIRE(!threw, "exception"); REQUIRE(got + n <= p.length, "more data than the source has: " << got << "+" << n << " of " << p.length); REQUIRE(got + n <= p.fail_after || p.fail_after >= p.length, "data beyond the failure");
			last = d; last_n = n; last_at = got; check("read"); got += n;
		}
		if (last && !saw_end && !saw_error) { delay(2, crng); check("data changed before the end"); }
		if (p.finish == 1) { other.reset(new BufferedAsynchronousReader(std::move(*r))); }
	}
	other.reset(); REQUIRE_EQ(in_source.load(), 0, "the source is still in use after the reader is gone"); REQUIRE(source_trouble.empty(), source_trouble); delivered = got;
}
static void reader(pbt::Gen &g) {
	Plan p; static const std::vector<unsigned> bs = {1, 2, 3, 5, 7, 16, 64, 100, 257}; p.block = g.pick(bs); if (g.chance(1, 12)) p.block = g.range(1000, 5000); p.length = g.chance(1, 20) ? 0 : g.chance(1, 3) ? g.below(12 * p.block + 1) : g.below(60 * (uint64_t)p.block + 100); if (g.chance(1, 6)) p.length = p.block * g.below(14);
	p.chunk_style = g.below(5); p.op_style = g.below(5); p.slow_source = g.below(4); p.slow_consumer = g.below(4); p.fail_after = g.chance(1, 5) ? g.below(p.length + 1) : ~0ull; if (p.fail_after >= p.length) p.fail_after = ~0ull; p.moves = g.chance(1, 4); p.max_ops = g.chance(1, 4) ? g.below(12) : 100000; p.finish = g.below(2); p.seed = g.bits64();
	g.note() << "length " << p.length << " block " << p.block << " chunks " << p.chunk_style << " reads " << p.op_style << " source delay " << p.slow_source << " consumer delay " << p.slow_consumer << (p.fail_after != ~0ull ? " fails after " + std::to_string(p.fail_after) : "") << (p.moves ? " moves" : "") << " ops " << p.max_ops << " seed " << p.seed;
	bool slow = p.slow_source > 1 || p.slow_consumer > 1; uint64_t work = p.length / p.block + p.length / (p.chunk_style == 1 ? 1 : p.block) + 1; if (p.chunk_style == 1 || p.op_style == 1) { p.length = std::min<uint64_t>(p.length, 20000); if (p.fail_after != ~0ull && p.fail_after >= p.length) p.fail_after = ~0ull; } if (slow) { if (p.length > 40 * p.block) p.length = 40 * p.block; if (p.chunk_style == 1 || p.op_style == 1) p.length = std::min<uint64_t>(p.length, 200); if (p.fail_after != ~0ull && p.fail_after >= p.length) p.fail_after = ~0ull; }
	unsigned reps = slow ? 3 : std::max<uint64_t>(2, std::min<uint64_t>(40, 20000 / (work + 200))); bool end = false, err = false; uint64_t d = 0, total = 0;
	for (unsigned i = 0; i < reps; ++i) { Plan q = p; q.seed = p.seed + i * 7919; run_plan(q, end, err, d); total += d; }
	g.label(err ? "source fails" : end ? "read to the end" : "destroyed early"); g.nontrivial(total > 3ull * p.block && p.length > 5ull * p.block);
}

// A source that delivers the next bytes only after the consumer has got all earlier ones: what was delivered can be read while the source waits.
static void lockstep(pbt::Gen &g) {
	unsigned block = g.pick(std::vector<unsigned>{1, 2, 5, 16, 100}), k = 1 + g.below(g.chance(1, 3) ? 60 : 12); std::vector<unsigned> chunk(k); for (auto &c : chunk) c = 1 + g.below(block); unsigned slow = g.below(3), early = g.chance(1, 4) ? g.below(k) : k; uint64_t seed = g.bits64(); g.note() << "block " << block << " chunks"; for (auto c : chunk) g.note() << " " << c; if (early < k) g.note() << ", destroyed after " << early;
	std::mutex mx; std::condition_variable cv; uint64_t delivered = 0, consumed = 0; bool stuck = false, over = false; unsigned call = 0; uint64_t rng = seed;
	auto source = [&](char *buf, ull) -> ull {
		std::unique_lock<std::mutex> l(mx); if (!cv.wait_for(l, std::chrono::seconds(25), [&] { return over || consumed == delivered; })) { stuck = true; return 0; }
		if (over || call == k) return 0;
		unsigned n = chunk[call++]; for (unsigned i = 0; i < n; ++i) buf[i] = byte_at(delivered + i); delivered += n; return n; };
	{
		BufferedAsynchronousReader r(source, block); uint64_t got = 0;
		for (unsigned i = 0; i < early; ++i) { unsigned left = chunk[i]; while (left) { unsigned n = pbt::splitmix(rng) % 2 ? left : 1 + pbt::splitmix(rng) % left; delay(slow, rng); const char *d = r.read(n); { std::unique_lock<std::mutex> l(mx); REQUIRE(!stuck, "bytes the source has delivered cannot be read while the source waits for more"); } REQUIRE(d, "end of data although " << n << " bytes were delivered"); for (unsigned j = 0; j < n; ++j) REQUIRE(d[j] == byte_at(got + j), "byte " << got + j << " is wrong"); got += n; left -= n; { std::unique_lock<std::mutex> l(mx); consumed = got; } cv.notify_all(); } }
		if (early == k) REQUIRE(!r.read(1), "data beyond the end"); { std::unique_lock<std::mutex> l(mx); over = true; } cv.notify_all();
	}
	g.nontrivial(early > 2); g.label("lockstep");
}

// ---------------------------------------------------------------- file sources
static unsigned open_files() { unsigned n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
static void files(pbt::Gen &g) {
	struct F { std::string name, data; bool exists; }; std::vector<F> fs; unsigned n = 1 + g.below(3);
	for (unsigned i = 0; i < n; ++i) { F f; f.name = pbt::scratch_file("f" + std::to_string(i)); unsigned len = g.chance(1, 5) ? 0 : g.below(g.chance(1, 6) ? 70000 : 300); for (unsigned j = 0; j < len; ++j) f.data += byte_at(1000003ull * i + j); std::ofstream(f.name, std::ios::binary).write(f.data.data(), f.data.size()); f.exists = true; fs.push_back(f); }
	fs.push_back({pbt::scratch_file("missing"), "", false}); unsigned base = open_files(), ops = 2 + g.below(14), reads = 0;
	{
		struct M { std::unique_ptr<FileDataSource> s; int file = -1; uint64_t pos = 0; }; M m[2]; m[0].s.reset(new FileDataSource); m[1].s.reset(new FileDataSource);
		for (unsigned i = 0; i < ops; ++i) {
			M &x = m[g.below(2)]; unsigned op = g.below(9);
			auto still_open = [&] { unsigned o = 0; for (auto &y : m) o += y.file >= 0; REQUIRE_EQ(open_files() - base, o, "open files"); };
			switch (op) {
			case 0: case 1: { unsigned k = g.below(fs.size()); g.note() << " open" << k << (op ? "(string)" : "") << (fs[k].exists ? "" : "(missing)"); bool thrown = false; try { if (op) x.s->open(fs[k].name); else x.s->open(fs[k].name.c_str()); } catch (std::runtime_error &e) { thrown = true; } REQUIRE_EQ(thrown, !fs[k].exists, "opening a file"); if (!thrown) { x.file = k; x.pos = 0; } break; }
			case 2: { unsigned k = g.below(fs.size()); g.note() << " construct" << k; bool thrown = false; try { x.s.reset(); x.file = -1; x.s.reset(g.chance(1, 2) ? new FileDataSource(fs[k].name) : new FileDataSource(fs[k].name.c_str())); } catch (std::runtime_error &) { thrown = true; x.s.reset(new FileDataSource); } REQUIRE_EQ(thrown, !fs[k].exists, "constructing from a file"); if (!thrown) { x.file = k; x.pos = 0; } break; }
			case 3: g.note() << " close"; x.s->close(); x.file = -1; break;
			case 4: { g.note() << " rewind"; bool thrown = false; try { x.s->rewind(); } catch (std::runtime_error &) { thrown = true; } REQUIRE_EQ(thrown, x.file < 0, "rewind"); x.pos = 0; break; }
			case 5: { g.note() << " size"; ull s = x.s->size(); REQUIRE_EQ(s, (ull)(x.file < 0 ? 0 : fs[x.file].data.size()), "size"); break; }
			case 6: { M &y = &x == m ? m[1] : m[0]; g.note() << " move-assign"; *x.s = std::move(*y.s); x.file = y.file; x.pos = y.pos; y.file = -1; break; }
			case 7: { g.note() << " move-construct"; std::unique_ptr<FileDataSource> z(new FileDataSource(std::move(*x.s))); x.s = std::move(z); break; }
			default: { unsigned k = g.below(100); g.note() << " read" << k; std::vector<char> b(k + 1, 'x'); bool thrown = false; ull r = 0; bool fn = g.chance(1, 3); try { r = fn ? x.s->get_read_function_object()(b.data(), k) : x.s->read(b.data(), k); } catch (std::runtime_error &) { thrown = true; } REQUIRE_EQ(thrown, x.file < 0, "read"); if (!thrown) { auto &D = fs[x.file].data; ull e = std::min<ull>(k, D.size() - std::min<ull>(x.pos, D.size())); REQUIRE_EQ(r, e, "number of bytes read"); REQUIRE(!memcmp(b.data(), D.data() + x.pos, r), "bytes read"); REQUIRE_EQ(b[k], 'x', "byte behind the buffer"); x.pos += r; reads += r > 0; } break; }
			}
			still_open();
		}
		// the reader on top of a file
		for (auto &x : m) if (x.file >= 0 && fs[x.file].data.size() < 3000) { auto &D = fs[x.file].data; unsigned b = 1 + g.below(50); BufferedAsynchronousReader r = g.chance(1, 3) ? (b = 1, BufferedAsynchronousReader(*x.s)) : BufferedAsynchronousReader(x.s->get_read_function_object(), b); uint64_t p = x.pos; while (char *d = r.read(std::min<uint64_t>(b, std::max<uint64_t>(1, D.size() - p)))) { unsigned k = std::min<uint64_t>(b, D.size() - p); REQUIRE(p + k <= D.size() && !memcmp(d, D.data() + p, k), "data of the file through the reader"); p += k; if (p == D.size()) { REQUIRE(!r.read(1), "data beyond the end of the file"); break; } } REQUIRE_EQ(p, (uint64_t)D.size(), "bytes of the file through the reader"); ++reads; }
	}
	REQUIRE_EQ(open_files(), base, "files still open after the sources are gone"); g.nontrivial(reads > 0);
}

// a medium that delivers less than asked for, or fails
static void medium(pbt::Gen &g) {
	std::string f = pbt::scratch_file("m"), data; unsigned len = 1 + g.below(g.chance(1, 6) ? 70000 : 3000); for (unsigned j = 0; j < len; ++j) data += byte_at(j); std::ofstream(f, std::ios::binary).write(data.data(), data.size());
	bool fail = g.chance(1, 2), direct = g.chance(1, 3); uint64_t after = g.below(len), seed = g.bits64(), got = 0; unsigned block = 1 + g.below(300); bool thrown = false, wrong = false; g.note() << len << " bytes, block " << block << (fail ? " error after " + std::to_string(after) : " short reads") << (direct ? " direct" : "");
	uint64_t rng = seed, hits;
	{
		FileDataSource s(f); faults::Armed a(f, fail ? faults::io_error : faults::shorts, after, seed);
		try {
			if (direct) { std::vector<char> b(block); while (ull k = s.read(b.data(), block)) { wrong |= k > block || got + k > len || memcmp(b.data(), data.data() + got, k); got += k; if (wrong) break; } }
			else { BufferedAsynchronousReader r(s.get_read_function_object(), block); while (got < len) { unsigned n = std::min<uint64_t>(len - got, 1 + pbt::splitmix(rng) % block); if (fail && got + n > after && got < after) n = after - got; const char *d = r.read(n); if (!d) break; wrong |= memcmp(d, data.data() + got, n) != 0; got += n; } if (got == len) wrong |= r.read(1) != nullptr; }
		} catch (std::runtime_error &) { thrown = true; }
		hits = faults::hits();
	}
	unlink(f.c_str()); REQUIRE(!wrong, "wrong data at " << got);
	if (fail && hits) { REQUIRE(thrown, "the medium failed after " << after << " bytes but after " << got << " bytes the end was reported"); REQUIRE(got <= after, "data beyond the failure"); }
	else { REQUIRE(!thrown, "exception although the medium works"); REQUIRE_EQ(got, (uint64_t)len, "bytes delivered"); }
	g.label(fail ? "medium fails" : "short reads"); g.nontrivial(hits > 0);
}

pbt::Check pbt::make_check() {
	return {"P23", "reader: more than five blocks of data and more than three delivered; lockstep: more than two deliveries; files: at least one successful read; medium: at least one misbehaving transfer",
		{{"reader", 4000, 200000, reader, 60, 12}, {"lockstep", 1500, 60000, lockstep, 100}, {"files", 6000, 200000, files, 20}, {"medium", 4000, 100000, medium}}};
}

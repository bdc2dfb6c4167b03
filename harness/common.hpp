/*
Shared machinery of the generated-input harnesses.

A case is a list of lines of unsigned numbers. Line 0 is the configuration
of the case, every other line is one operation. Every random choice of a case
is one of those numbers, so a case is a pure function of its text: the same
text is what is generated from (seed, property, case index), what is shrunk
by the driver and what is replayed from a file.
*/
#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP

#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vp {

typedef uint64_t u64;

//! thrown by an oracle that found the property broken
struct Violation : std::runtime_error {
	explicit Violation(const std::string& s) : std::runtime_error(s) {}
};

template<class... A> std::string cat(const A&... a)
{
	std::ostringstream o;
	o.precision(17);
	int dummy[] = {0, ((o << a), 0)...};
	(void) dummy;
	return o.str();
}

#define REQUIRE(cond, ...) \
	do { if (!(cond)) throw vp::Violation(vp::cat(__VA_ARGS__)); } while (0)

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed) {}
	u64 next()
	{
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
	bool flag_() { return next() & 1; }
	bool chance(unsigned percent) { return below(100) < percent; }
};

inline u64 mix(u64 a, u64 b)
{
	Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
	r.next();
	return r.next();
}

typedef std::vector<u64> Line;
typedef std::vector<Line> Case;

//! Reads numbers of one line, 0 when exhausted
struct Cursor {
	const Line& l;
	size_t i;
	explicit Cursor(const Line& line, size_t start = 0) : l(line), i(start) {}
	u64 next() { return i < l.size() ? l[i++] : 0; }
	u64 below(u64 n) { const u64 v = next(); return n == 0 ? 0 : v % n; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
	bool flag() { return next() % 2 == 1; }
	size_t left() const { return i < l.size() ? l.size() - i : 0; }
};

inline std::string to_text(const Case& c)
{
	std::ostringstream o;
	for (const auto& l : c) {
		for (size_t i = 0; i < l.size(); i++) o << (i ? " " : "") << l[i];
		o << "\n";
	}
	return o.str();
}

inline Case from_file(const std::string& name)
{
	std::ifstream f(name);
	if (!f.good()) {
		std::cerr << "cannot read " << name << std::endl;
		_exit(2);
	}
	Case c;
	std::string s;
	while (std::getline(f, s)) {
		if (!s.empty() && s[0] == '#') continue;
		std::istringstream i(s);
		Line l;
		u64 v;
		while (i >> v) l.push_back(v);
		c.push_back(l);
	}
	while (!c.empty() && c.back().empty()) c.pop_back();
	return c;
}

inline std::string json_escape(const std::string& s)
{
	std::string o;
	for (const char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n";
		else if ((unsigned char) ch < 0x20) o += ' ';
		else o += ch;
	}
	return o;
}

inline double now()
{
	timeval t;
	gettimeofday(&t, nullptr);
	return double(t.tv_sec) + 1e-6 * double(t.tv_usec);
}

//! Counters of what was generated
struct Stats {
	u64 evaluations = 0, nontrivial = 0, checks = 0;
	std::unordered_set<u64> seen;
	std::map<std::string, u64> classes;
	std::vector<std::string> samples;

	void label(const std::string& s, u64 n = 1) { classes[s] += n; }

	void write(const std::string& file, double wall) const
	{
		std::ofstream f(file);
		f << "{\"evaluations\":" << evaluations << ",\"distinct_nontrivial\":" << nontrivial
			<< ",\"oracle_comparisons\":" << checks << ",\"wall\":" << wall << ",\"classes\":{";
		bool first = true;
		for (const auto& c : classes) {
			f << (first ? "" : ",") << "\"" << json_escape(c.first) << "\":" << c.second;
			first = false;
		}
		f << "},\"samples\":[";
		first = true;
		for (const auto& s : samples) {
			f << (first ? "" : ",") << "\"" << json_escape(s) << "\"";
			first = false;
		}
		f << "]}\n";
	}
};

inline u64 hash_text(const std::string& s)
{
	u64 h = 1469598103934665603ull;
	for (const unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

//! file backed buffer holding the running case, survives a crash of the process
struct Current {
	char* p = nullptr;
	size_t n = 1 << 16;
	void open(const std::string& file)
	{
		const int fd = ::open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, off_t(n)) != 0) return;
		p = (char*) mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p == MAP_FAILED) p = nullptr;
		::close(fd);
	}
	void set(const std::string& s)
	{
		if (p == nullptr) return;
		const size_t m = std::min(s.size(), n - 1);
		memcpy(p, s.data(), m);
		p[m] = 0;
	}
};

//! Command line shared by all harnesses
struct Options {
	std::string prop, replay, out = ".";
	u64 seed = 1, start = 0, step = 1, count = ~u64(0);
	double seconds = 1e9;
	int case_timeout = 120;
	bool verbose = false, thorough = false;
	std::set<std::string> skip;

	Options(int argc, char** argv)
	{
		for (int i = 1; i < argc; i++) {
			const std::string a = argv[i];
			auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--prop") prop = val();
			else if (a == "--replay") replay = val();
			else if (a == "--out") out = val();
			else if (a == "--seed") seed = std::stoull(val());
			else if (a == "--start") start = std::stoull(val());
			else if (a == "--step") step = std::stoull(val());
			else if (a == "--count") count = std::stoull(val());
			else if (a == "--seconds") seconds = std::stod(val());
			else if (a == "--case-timeout") case_timeout = std::stoi(val());
			else if (a == "--verbose") verbose = true;
			else if (a == "--thorough") thorough = true;
			else { std::cerr << "unknown argument " << a << std::endl; _exit(2); }
		}
	}
};

//! exit codes understood by the driver
const int exit_violation = 10, exit_hang = 12;

inline void on_alarm(int)
{
	const char m[] = "HANG: case exceeded its time limit\n";
	if (write(2, m, sizeof m - 1)) {}
	_exit(exit_hang);
}

} // namespace
#endif

// Property-based testing engine: a choice tape drives every generator, so every case is a finite
// list of integers that can be replayed and shrunk without knowing what the generator built.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{

inline std::uint64_t mix64(std::uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27))*0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

inline std::uint64_t hash2(std::uint64_t a, std::uint64_t b)
{
	return mix64(a ^ (mix64(b) + 0x632be59bd9b4e019ull + (a << 7) + (a >> 3)));
}

// Small generator for bulk content. Content is derived from a single drawn seed.
struct Rng
{
	explicit Rng(std::uint64_t seed) : s(mix64(seed ^ 0x5bd1e995u)) {}
	std::uint64_t next()
	{
		s += 0x9e3779b97f4a7c15ull;
		std::uint64_t x = s;
		x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27))*0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}
	std::uint64_t below(std::uint64_t n) {return n ? next()%n : 0;}
	double unit() {return double(next() >> 11)*(1.0/9007199254740992.0);}
	std::uint64_t s;
};

struct Fail
{
	std::string key;
	std::string message;
};

struct Discard {};

class Src
{
public:
	static const std::size_t maxTape = 1u << 15;

	Src(std::uint64_t seed, std::uint64_t index, std::uint64_t* record, std::uint64_t* recordLen);
	Src(const std::vector<std::uint64_t>& replay, std::uint64_t* record, std::uint64_t* recordLen);

	// Uniform in [0, n).
	std::uint64_t draw(std::uint64_t n);
	// As draw(), but fresh cases enumerate 0..n-1 by case index rather than at random.
	std::uint64_t strat(std::uint64_t n);
	std::int64_t range(std::int64_t lo, std::int64_t hi)
	{
		return lo + std::int64_t(draw(std::uint64_t(hi - lo) + 1));
	}
	bool chance(unsigned int percent) {return draw(100) >= 100u - percent;}
	double unit() {return double(draw(1ull << 53))*(1.0/9007199254740992.0);}
	std::uint32_t seed32() {return std::uint32_t(draw(1ull << 32));}

	template <typename T>
	const T& pick(const std::vector<T>& values) {return values[draw(values.size())];}
	template <typename T>
	const T& stratPick(const std::vector<T>& values) {return values[strat(values.size())];}

	bool replaying() const {return m_replay != nullptr;}
	std::uint64_t index() const {return m_index;}

	void label(const std::string& name) {++labels[name];}
	void nontrivial() {isNontrivial = true;}
	// Adds checks (sub-evaluations) performed for this case.
	void checks(std::uint64_t n) {subChecks += n;}

	std::ostringstream note;
	std::map<std::string, std::uint64_t> labels;
	bool isNontrivial = false;
	std::uint64_t subChecks = 0;
	std::uint64_t tapeHash = 0x1234;

private:
	std::uint64_t push(std::uint64_t v);
	const std::vector<std::uint64_t>* m_replay;
	std::size_t m_pos = 0;
	Rng m_rng;
	std::uint64_t m_index;
	std::uint64_t m_strat;
	std::uint64_t* m_record;
	std::uint64_t* m_recordLen;
};

[[noreturn]] void failCase(const std::string& key, const std::string& message);

#define CHECK_P(cond, key, msg) \
	do \
	{ \
		if (!(cond)) \
		{ \
			std::ostringstream _os; \
			_os << msg; \
			::pbt::failCase(key, _os.str()); \
		} \
	} while (0)

struct Property
{
	const char* id;
	const char* rule; // how cases are made and what is non-trivial
	void (*run)(Src&);
	std::uint64_t quickCases;
	std::uint64_t thoroughCases;
};

std::vector<Property>& registry();

struct Registrar
{
	Registrar(const char* id, const char* rule, void (*run)(Src&), std::uint64_t quick,
		std::uint64_t thorough)
	{
		registry().push_back(Property{id, rule, run, quick, thorough});
	}
};

#define PROPERTY(ID, QUICK, THOROUGH, RULE) \
	static void run_##ID(::pbt::Src& src); \
	static ::pbt::Registrar reg_##ID(#ID, RULE, &run_##ID, QUICK, THOROUGH); \
	static void run_##ID(::pbt::Src& src)

// Private scratch directory of the current process (created by the runner, removed by it).
const std::string& scratchDir();
// Seed and tier of the run.
bool thoroughTier();

} // namespace pbt

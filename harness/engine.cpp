#include "engine.h"
#include <sanitizer/common_interface_defs.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

std::vector<Property>& registry()
{
	static std::vector<Property> r;
	return r;
}

static std::string g_scratchRoot;
static std::string g_scratch;
static bool g_thorough = false;

const std::string& scratchDir() {return g_scratch;}
bool thoroughTier() {return g_thorough;}

void failCase(const std::string& key, const std::string& message)
{
	throw Fail{key, message};
}

Src::Src(std::uint64_t seed, std::uint64_t index, std::uint64_t* record, std::uint64_t* recordLen)
	: m_replay(nullptr), m_rng(hash2(seed, index)), m_index(index), m_strat(index),
	m_record(record), m_recordLen(recordLen)
{
}

Src::Src(const std::vector<std::uint64_t>& replay, std::uint64_t* record, std::uint64_t* recordLen)
	: m_replay(&replay), m_rng(0), m_index(0), m_strat(0), m_record(record), m_recordLen(recordLen)
{
}

std::uint64_t Src::push(std::uint64_t v)
{
	if (m_record && m_pos < maxTape)
	{
		m_record[m_pos] = v;
		*m_recordLen = m_pos + 1;
	}
	++m_pos;
	tapeHash = hash2(tapeHash, v);
	return v;
}

std::uint64_t Src::draw(std::uint64_t n)
{
	if (n <= 1)
		return 0;
	std::uint64_t v;
	if (m_replay)
		v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
	else
		v = m_pos < maxTape ? m_rng.next() : 0;
	return push(v%n);
}

std::uint64_t Src::strat(std::uint64_t n)
{
	if (n <= 1)
		return 0;
	if (m_replay)
		return draw(n);
	std::uint64_t v = m_strat%n;
	m_strat /= n;
	return push(v);
}

//---------------------------------------------------------------------------------------------

namespace
{

const int stFailed = 3, stHang = 4;

const std::size_t maxHistory = 1u << 16;

struct Slot
{
	// The cases that the process ran so far, this one included.
	std::uint64_t historyLen;
	std::uint64_t history[maxHistory];
	volatile std::uint64_t caseIndex;
	volatile std::uint64_t sequence;
	std::uint64_t tapeLen;
	std::uint64_t tape[Src::maxTape];
	char key[512];
	char message[8192];
	char note[8192];
	std::uint64_t knownCount;
	volatile std::uint64_t done;
	volatile int status; // 0 running, 3 failed, 4 hang
};

struct Shared
{
	std::uint64_t next;
	int stop;
	std::uint64_t evaluations;
};

struct Options
{
	std::string prop, out, replayIn, replayOut, seedTapes;
	std::uint64_t seed = 1, cases = 0;
	int jobs = 8;
	double maxSeconds = 420;
	std::vector<std::string> knownKeys;
};

Shared* g_shared;
Slot* g_slots;
Slot* g_mySlot;

void putStr(char* dst, std::size_t size, const std::string& s)
{
	std::size_t n = std::min(size - 1, s.size());
	std::memcpy(dst, s.data(), n);
	dst[n] = 0;
}

double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void onProf(int)
{
	if (g_mySlot)
	{
		g_mySlot->status = stHang;
		std::strcpy(g_mySlot->key, "hang");
		std::strcpy(g_mySlot->message, "case used more than its CPU time limit");
	}
	_exit(stHang);
}

void armCpuTimer(int seconds)
{
	struct itimerval tv;
	std::memset(&tv, 0, sizeof(tv));
	tv.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &tv, nullptr);
}

void removeTree(const std::string& path)
{
	// Only ever called with paths below our own scratch root.
	if (g_scratchRoot.empty() || path.compare(0, g_scratchRoot.size(), g_scratchRoot) != 0)
		return;
	if (DIR* d = opendir(path.c_str()))
	{
		while (struct dirent* e = readdir(d))
		{
			std::string n = e->d_name;
			if (n == "." || n == "..")
				continue;
			std::string p = path + "/" + n;
			struct stat st;
			if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
				removeTree(p);
			else
				unlink(p.c_str());
		}
		closedir(d);
	}
	rmdir(path.c_str());
}

struct Stats
{
	std::uint64_t evaluations = 0, checks = 0, discards = 0, known = 0;
	std::unordered_set<std::uint64_t> distinct;
	std::map<std::string, std::uint64_t> labels, knownKeys;
	std::vector<std::pair<std::uint64_t, std::string>> samples;
};

std::string jsonEscape(const std::string& s)
{
	std::string r;
	for (unsigned char c : s)
	{
		char buf[8];
		switch (c)
		{
			case '"': r += "\\\""; break;
			case '\\': r += "\\\\"; break;
			case '\n': r += "\\n"; break;
			case '\t': r += "\\t"; break;
			default:
				if (c < 0x20 || c >= 0x7f)
				{
					std::snprintf(buf, sizeof(buf), "\\u%04x", c);
					r += buf;
				}
				else
					r += char(c);
		}
	}
	return r;
}

bool isKnown(const Options& o, const std::string& key)
{
	return std::find(o.knownKeys.begin(), o.knownKeys.end(), key) != o.knownKeys.end();
}

// Runs one case. Returns true if it passed (or was discarded or known).
// Saves what was generated so far when a sanitizer or a fatal signal ends the process.
Src* g_currentSrc = nullptr;
Slot* g_currentSlot = nullptr;
Stats* g_currentStats = nullptr;
std::string g_statsPath;
void writeStats(const std::string& path, const Stats& s);

void saveNoteOnDeath()
{
	if (g_currentSrc && g_currentSlot)
	{
		Src* src = g_currentSrc;
		g_currentSrc = nullptr;
		putStr(g_currentSlot->note, sizeof(g_currentSlot->note), src->note.str());
	}
	// Keep the counts of the cases that came before the one that ends this worker.
	if (g_currentStats && !g_statsPath.empty())
	{
		Stats* stats = g_currentStats;
		g_currentStats = nullptr;
		writeStats(g_statsPath, *stats);
	}
}

bool runCase(const Property& p, Src& src, Slot* slot, const Options& o, Stats* stats)
{
	g_currentSrc = &src;
	g_currentSlot = slot;
	struct ClearCurrent
	{
		~ClearCurrent() {g_currentSrc = nullptr;}
	} clearCurrent;
	bool discarded = false;
	std::string key, message;
	bool failed = false;
	armCpuTimer(100);
	try
	{
		p.run(src);
	}
	catch (const Fail& f)
	{
		failed = true;
		key = f.key;
		message = f.message;
	}
	catch (const Discard&)
	{
		discarded = true;
	}
	catch (const std::exception& e)
	{
		failed = true;
		key = std::string("exception");
		message = std::string("unexpected exception escaped from the code under test: ") + e.what();
	}
	armCpuTimer(0);
	if (stats)
	{
		if (discarded)
			++stats->discards;
		else
		{
			++stats->evaluations;
			stats->checks += src.subChecks;
			if (src.isNontrivial)
				stats->distinct.insert(src.tapeHash);
			for (const auto& l : src.labels)
				stats->labels[l.first] += 1;
			if (src.isNontrivial && stats->samples.size() < 3)
			{
				std::string n = src.note.str();
				if (n.size() > 900)
					n = n.substr(0, 900) + "...";
				stats->samples.emplace_back(src.index(), n);
			}
		}
	}
	if (!failed)
		return true;
	if (isKnown(o, key))
	{
		if (stats)
		{
			++stats->known;
			++stats->knownKeys[key];
		}
		return true;
	}
	putStr(slot->key, sizeof(slot->key), key);
	putStr(slot->message, sizeof(slot->message), message);
	putStr(slot->note, sizeof(slot->note), src.note.str());
	return false;
}

void writeStats(const std::string& path, const Stats& s)
{
	std::ofstream f(path);
	f << s.evaluations << " " << s.checks << " " << s.discards << " " << s.known << "\n";
	f << s.distinct.size() << "\n";
	for (auto h : s.distinct)
		f << h << "\n";
	f << s.labels.size() << "\n";
	for (auto& l : s.labels)
		f << l.second << " " << l.first << "\n";
	f << s.knownKeys.size() << "\n";
	for (auto& l : s.knownKeys)
		f << l.second << " " << l.first << "\n";
	f << s.samples.size() << "\n";
	for (auto& l : s.samples)
		f << l.first << " " << jsonEscape(l.second) << "\n";
}

void mergeStats(const std::string& path, Stats& s)
{
	std::ifstream f(path);
	if (!f)
		return;
	std::uint64_t a, b, c, d, n;
	if (!(f >> a >> b >> c >> d))
		return;
	s.evaluations += a;
	s.checks += b;
	s.discards += c;
	s.known += d;
	f >> n;
	for (std::uint64_t i = 0, h; i < n && f >> h; ++i)
		s.distinct.insert(h);
	std::string line;
	f >> n;
	for (std::uint64_t i = 0; i < n; ++i)
	{
		f >> a;
		f.get();
		std::getline(f, line);
		s.labels[line] += a;
	}
	f >> n;
	for (std::uint64_t i = 0; i < n; ++i)
	{
		f >> a;
		f.get();
		std::getline(f, line);
		s.knownKeys[line] += a;
	}
	f >> n;
	for (std::uint64_t i = 0; i < n; ++i)
	{
		f >> a;
		f.get();
		std::getline(f, line);
		s.samples.emplace_back(a, line); // already escaped
	}
}

void childSetup(int slotIndex, const std::string& tag)
{
	g_mySlot = &g_slots[slotIndex];
	g_scratch = g_scratchRoot + "/" + tag;
	mkdir(g_scratch.c_str(), 0700);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGPROF, onProf);
	signal(SIGPIPE, SIG_IGN);
	__sanitizer_set_death_callback(&saveNoteOnDeath);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	int fd = open((g_scratch + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
	if (fd >= 0)
	{
		dup2(fd, 2);
		close(fd);
	}
	fd = open("/dev/null", O_WRONLY);
	if (fd >= 0)
	{
		dup2(fd, 1);
		close(fd);
	}
}

std::string crashSummary(const std::string& tag, int status)
{
	std::ifstream f(g_scratchRoot + "/" + tag + ".err");
	std::string line, summary, runtime, frames;
	unsigned int nframes = 0;
	bool framesDone = false;
	while (std::getline(f, line))
	{
		if (line.find("SUMMARY:") != std::string::npos)
			summary = line;
		else if (line.find("runtime error:") != std::string::npos && runtime.empty())
			runtime = line;
		else if (line.find("terminate called") != std::string::npos)
			runtime = line;
		// The frames of the first stack, up to the first in the code under test.
		std::size_t hash = line.find("    #");
		if (hash == 0 && !framesDone)
		{
			std::size_t in = line.find(" in ");
			std::string frame = in == std::string::npos ? line.substr(line.find('(')) :
				line.substr(in + 4);
			std::size_t paren = frame.find(' ');
			bool lib = frame.find("/lib/src/") != std::string::npos ||
				frame.find("/tool/") != std::string::npos;
			if (frame.find("libsanitizer") == std::string::npos && (lib || nframes < 2))
			{
				frames += " < " + (lib ? frame.substr(0, std::min(frame.find('('), paren)) : frame);
				++nframes;
			}
			if (lib)
				framesDone = true;
		}
		else if (nframes && line.find("located") != std::string::npos)
			framesDone = true;
		else if (nframes && line.empty())
			framesDone = true;
	}
	if (!frames.empty())
		summary += " stack:" + frames;
	std::ostringstream os;
	if (WIFSIGNALED(status))
		os << "signal " << WTERMSIG(status) << " ";
	else
		os << "exit status " << WEXITSTATUS(status) << " ";
	os << runtime << " " << summary;
	return os.str();
}

std::string crashKey(const std::string& summary)
{
	// Strip addresses and line numbers so that the key is stable.
	std::string k = "crash:";
	std::size_t st = summary.find(" stack: <");
	std::string stack;
	if (st != std::string::npos)
	{
		// The last frame is the one in the code under test, when there is one.
		std::size_t last = summary.rfind(" < ");
		stack = " at " + summary.substr(last + 3);
		std::string top = summary.substr(st + 10, summary.find(" < ", st + 10) - st - 10);
		std::size_t so = top.find(".so");
		if (so != std::string::npos && last > st + 7)
		{
			std::size_t slash = top.rfind('/', so);
			slash = slash == std::string::npos ? 0 : slash + 1;
			stack = " in " + top.substr(slash, so + 3 - slash) + stack;
		}
	}
	std::size_t p = summary.find("SUMMARY:");
	std::string s = p == std::string::npos ? summary : summary.substr(p + 9);
	std::size_t in = s.find(" in ");
	std::string kind = s.substr(0, s.find(' ', s.find(' ') + 1));
	if (in != std::string::npos)
		k += kind + " in " + s.substr(in + 4);
	else
		k += kind;
	if (!stack.empty() && p != std::string::npos)
		k = "crash:" + kind + stack;
	if (k.size() > 200)
		k.resize(200);
	return k;
}

struct Outcome
{
	bool failed = false;
	std::string key, message, note;
	std::vector<std::uint64_t> tape;
	// The cases to run before in the same process.
	std::vector<std::vector<std::uint64_t>> before;
};

// Runs a function in a forked child that returns whether its cases passed.
template <typename F>
Outcome replayIn(const Options& o, double wallLimit, const F& run)
{
	Outcome r;
	Slot* slot = &g_slots[o.jobs];
	slot->tapeLen = 0;
	slot->key[0] = slot->message[0] = slot->note[0] = 0;
	slot->status = 0;
	const std::string tag = "replay";
	removeTree(g_scratchRoot + "/" + tag);
	pid_t pid = fork();
	if (pid == 0)
	{
		childSetup(o.jobs, tag);
		_exit(run(slot) ? 0 : stFailed);
	}
	double start = now();
	int status = 0;
	bool killed = false;
	for (;;)
	{
		pid_t w = waitpid(pid, &status, WNOHANG);
		if (w == pid)
			break;
		if (now() - start > wallLimit && !killed)
		{
			kill(pid, SIGKILL);
			killed = true;
		}
		usleep(500);
	}
	r.tape.assign(slot->tape, slot->tape + std::min<std::uint64_t>(slot->tapeLen, std::uint64_t(Src::maxTape)));
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
		return r;
	r.failed = true;
	if (WIFEXITED(status) && (WEXITSTATUS(status) == stFailed || WEXITSTATUS(status) == stHang))
	{
		r.key = slot->key;
		r.message = slot->message;
		r.note = slot->note;
	}
	else if (killed)
	{
		r.key = "hang";
		r.message = "case did not finish within the wall clock limit";
	}
	else
	{
		r.message = crashSummary(tag, status);
		r.key = crashKey(r.message);
		r.note = slot->note;
	}
	if (isKnown(o, r.key))
		r.failed = false;
	return r;
}

// Replays a tape in a forked child.
Outcome replayTape(const Property& p, const std::vector<std::uint64_t>& tape, const Options& o,
	double wallLimit)
{
	return replayIn(o, wallLimit, [&](Slot* slot)
		{
			Src src(tape, slot->tape, &slot->tapeLen);
			return runCase(p, src, slot, o, nullptr);
		});
}

// Replays several tapes in one child.
Outcome replayTapes(const Property& p, const std::vector<std::vector<std::uint64_t>>& before,
	const std::vector<std::uint64_t>& tape, const Options& o, double wallLimit)
{
	Outcome r = replayIn(o, wallLimit, [&](Slot* slot)
		{
			for (const auto& t : before)
			{
				slot->tapeLen = 0;
				Src src(t, slot->tape, &slot->tapeLen);
				// Only the last one may fail.
				if (!runCase(p, src, slot, o, nullptr))
					_exit(0);
			}
			slot->tapeLen = 0;
			Src src(tape, slot->tape, &slot->tapeLen);
			return runCase(p, src, slot, o, nullptr);
		});
	r.before = before;
	return r;
}

// Replays cases by index in one child, and notes their tapes.
Outcome replayIndices(const Property& p, const std::vector<std::uint64_t>& indices, const Options& o,
	double wallLimit)
{
	const std::string file = g_scratchRoot + "/tapes";
	Outcome r = replayIn(o, wallLimit, [&](Slot* slot)
		{
			std::ofstream f(file, std::ios_base::binary | std::ios_base::trunc);
			for (std::size_t i = 0; i < indices.size(); ++i)
			{
				slot->tapeLen = 0;
				Src src(o.seed, indices[i], slot->tape, &slot->tapeLen);
				bool last = i + 1 == indices.size();
				if (last)
					f.close();
				bool ok = runCase(p, src, slot, o, nullptr);
				if (!last && !ok)
					_exit(0);
				if (last)
					return ok;
				std::uint64_t n = std::min<std::uint64_t>(slot->tapeLen, std::uint64_t(Src::maxTape));
				f.write(reinterpret_cast<const char*>(&n), sizeof(n));
				f.write(reinterpret_cast<const char*>(slot->tape), std::streamsize(n*sizeof(n)));
			}
			return true;
		});
	if (r.failed)
	{
		std::ifstream f(file, std::ios_base::binary);
		std::uint64_t n;
		while (f.read(reinterpret_cast<char*>(&n), sizeof(n)))
		{
			std::vector<std::uint64_t> t(n);
			f.read(reinterpret_cast<char*>(t.data()), std::streamsize(n*sizeof(n)));
			r.before.push_back(t);
		}
		if (r.before.size() + 1 != indices.size())
			r.failed = false;
	}
	return r;
}

bool sameClass(const std::string& a, const std::string& b);

// A failure that needs the cases before it, as what a library remembers from one call to the next can make it.
// Finds few cases that make it.
Outcome findHistory(const Property& p, const Options& o, const std::vector<std::uint64_t>& history,
	const std::string& key, double seconds)
{
	double end = now() + seconds;
	Outcome best;
	for (std::size_t n : {std::size_t(8), std::size_t(128), std::size_t(2048), history.size()})
	{
		if (now() > end)
			return best;
		n = std::min(n, history.size());
		std::vector<std::uint64_t> some(history.end() - long(n), history.end());
		Outcome r = replayIndices(p, some, o, end - now() + 1);
		if (r.failed && sameClass(r.key, key))
		{
			best = r;
			break;
		}
		if (n == history.size())
			return best;
	}
	if (!best.failed)
		return best;
	// Once more from the tapes, before it's believed.
	Outcome again = replayTapes(p, best.before, best.tape, o, end - now() + 20);
	if (!again.failed || !sameClass(again.key, key))
		return Outcome();
	best = again;
	for (std::size_t chunk = std::max<std::size_t>(best.before.size()/2, 1); chunk > 0 && now() < end;)
	{
		bool less = false;
		for (std::size_t i = 0; i < best.before.size() && now() < end;)
		{
			auto c = best.before;
			c.erase(c.begin() + long(i), c.begin() + long(std::min(i + chunk, c.size())));
			Outcome r = replayTapes(p, c, best.tape, o, 60);
			if (r.failed && sameClass(r.key, key))
			{
				best = r;
				less = true;
			}
			else
				i += chunk;
		}
		if (!less || chunk > best.before.size())
			chunk /= 2;
	}
	return best;
}

bool sameClass(const std::string& a, const std::string& b)
{
	if (a.compare(0, 6, "crash:") == 0 && b.compare(0, 6, "crash:") == 0)
		return true;
	return a == b;
}

std::vector<std::uint64_t> shrink(const Property& p, const Options& o, Outcome& best,
	double seconds, std::uint64_t& attempts)
{
	double end = now() + seconds;
	std::vector<std::uint64_t> cur = best.tape;
	auto attempt = [&](const std::vector<std::uint64_t>& cand) -> bool
	{
		if (now() > end || attempts > 4000)
			return false;
		++attempts;
		Outcome r = replayTape(p, cand, o, 70);
		if (r.failed && sameClass(r.key, best.key))
		{
			std::vector<std::uint64_t> t = r.tape;
			// A shorter consumed tape is simpler.
			if (t.size() < cur.size() || (t.size() == cur.size() && t <= cur) ||
				(cand.size() <= cur.size() && t.size() <= cand.size()))
			{
				bool better = t.size() < cur.size() || (t.size() == cur.size() && t < cur);
				if (!better)
					return false;
				cur = t;
				best = r;
				return true;
			}
		}
		return false;
	};
	if (best.key == "hang")
		return cur;
	bool progress = true;
	while (progress && now() < end)
	{
		progress = false;
		// Delete chunks.
		for (std::size_t k : {64, 32, 16, 8, 4, 3, 2, 1})
		{
			for (std::size_t i = cur.size(); i-- > 0;)
			{
				if (i + k > cur.size())
					continue;
				std::vector<std::uint64_t> c = cur;
				c.erase(c.begin() + i, c.begin() + i + k);
				if (attempt(c))
				{
					progress = true;
					if (i > cur.size())
						i = cur.size();
				}
				if (now() > end)
					break;
			}
		}
		// Zero, then binary search each value.
		for (std::size_t i = 0; i < cur.size() && now() < end; ++i)
		{
			if (cur[i] == 0)
				continue;
			std::vector<std::uint64_t> c = cur;
			c[i] = 0;
			if (attempt(c))
			{
				progress = true;
				continue;
			}
			std::uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
			for (int step = 0; step < 12 && lo + 1 < hi; ++step)
			{
				std::uint64_t mid = lo + (hi - lo)/2;
				c = cur;
				if (i >= c.size())
					break;
				c[i] = mid;
				if (attempt(c))
				{
					progress = true;
					hi = i < cur.size() ? cur[i] : 0;
				}
				else
					lo = mid;
			}
			if (i < cur.size() && cur[i] > 0)
			{
				c = cur;
				--c[i];
				if (attempt(c))
					progress = true;
			}
		}
	}
	return cur;
}

std::string tapeJson(const std::vector<std::uint64_t>& t)
{
	std::ostringstream os;
	os << "[";
	for (std::size_t i = 0; i < t.size(); ++i)
		os << (i ? "," : "") << t[i];
	os << "]";
	return os.str();
}

// The cases to run before.
void parseBefore(const std::string& path, std::vector<std::vector<std::uint64_t>>& out)
{
	std::ifstream f(path);
	std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	std::size_t p = s.find("\"before\"");
	if (p == std::string::npos)
		return;
	int depth = 0;
	for (p = s.find('[', p); p < s.size(); ++p)
	{
		if (s[p] == '[' && ++depth == 2)
			out.emplace_back();
		else if (s[p] == ']' && --depth == 0)
			return;
		else if (s[p] >= '0' && s[p] <= '9' && depth == 2)
		{
			char* end;
			out.back().push_back(std::strtoull(s.c_str() + p, &end, 10));
			p = std::size_t(end - s.c_str()) - 1;
		}
	}
}

bool parseTape(const std::string& path, std::vector<std::uint64_t>& out)
{
	std::ifstream f(path);
	if (!f)
		return false;
	std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	std::size_t p = s.find("\"tape\"");
	if (p == std::string::npos)
		return false;
	p = s.find('[', p);
	while (p != std::string::npos && p < s.size())
	{
		++p;
		while (p < s.size() && (s[p] == ' ' || s[p] == '\n'))
			++p;
		if (s[p] == ']')
			return true;
		out.push_back(std::strtoull(s.c_str() + p, nullptr, 10));
		p = s.find_first_of(",]", p);
		if (p == std::string::npos || s[p] == ']')
			return true;
	}
	return true;
}

void workerMain(const Property& p, const Options& o, int j)
{
	std::string tag = "w" + std::to_string(j);
	childSetup(j, tag);
	Slot* slot = g_mySlot;
	Stats stats;
	g_statsPath = g_scratchRoot + "/" + tag + "." + std::to_string(getpid()) + ".stats";
	g_currentStats = &stats;
	int rc = 0;
	for (;;)
	{
		if (__atomic_load_n(&g_shared->stop, __ATOMIC_SEQ_CST))
			break;
		std::uint64_t k = __atomic_fetch_add(&g_shared->next, 1, __ATOMIC_SEQ_CST);
		if (k >= o.cases)
			break;
		slot->caseIndex = k;
		slot->history[slot->historyLen++ % maxHistory] = k;
		slot->sequence = slot->sequence + 1;
		slot->tapeLen = 0;
		Src src(o.seed, k, slot->tape, &slot->tapeLen);
		bool ok = runCase(p, src, slot, o, &stats);
		__atomic_fetch_add(&g_shared->evaluations, 1, __ATOMIC_SEQ_CST);
		if (!ok)
		{
			slot->status = stFailed;
			rc = stFailed;
			break;
		}
	}
	slot->done = 1;
	g_currentStats = nullptr;
	writeStats(g_statsPath, stats);
	_exit(rc);
}

} // namespace

int engineMain(int argc, char** argv)
{
	Options o;
	const char* tier = std::getenv("VERIF_TIER");
	std::string scratchBase = "/tmp";
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string {return i + 1 < argc ? argv[++i] : "";};
		if (a == "--prop") o.prop = val();
		else if (a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--cases") o.cases = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--jobs") o.jobs = std::atoi(val().c_str());
		else if (a == "--max-seconds") o.maxSeconds = std::atof(val().c_str());
		else if (a == "--out") o.out = val();
		else if (a == "--replay") o.replayIn = val();
		else if (a == "--replay-out") o.replayOut = val();
		else if (a == "--known-key") o.knownKeys.push_back(val());
		else if (a == "--scratch") scratchBase = val();
		else if (a == "--thorough") g_thorough = true;
		else if (a == "--list")
		{
			for (auto& p : registry())
				std::cout << p.id << " " << p.quickCases << " " << p.thoroughCases << "\n";
			return 0;
		}
	}
	if (tier && std::string(tier) == "thorough")
		g_thorough = true;
	const Property* prop = nullptr;
	for (auto& p : registry())
	{
		if (o.prop == p.id)
			prop = &p;
	}
	if (!prop)
	{
		std::cerr << "unknown property " << o.prop << "\n";
		return 2;
	}
	if (o.cases == 0)
		o.cases = g_thorough ? prop->thoroughCases : prop->quickCases;
	if (o.jobs < 1)
		o.jobs = 1;

	std::string tmpl = scratchBase + "/pbt-" + o.prop + "-XXXXXX";
	std::vector<char> t(tmpl.begin(), tmpl.end());
	t.push_back(0);
	if (!mkdtemp(t.data()))
	{
		std::cerr << "cannot create scratch directory\n";
		return 2;
	}
	g_scratchRoot = t.data();

	g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_slots = (Slot*)mmap(nullptr, sizeof(Slot)*(o.jobs + 1), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

	if (!o.replayIn.empty())
	{
		std::vector<std::uint64_t> tape;
		if (!parseTape(o.replayIn, tape))
		{
			std::cerr << "cannot read replay file\n";
			removeTree(g_scratchRoot);
			return 2;
		}
		std::vector<std::vector<std::uint64_t>> before;
		parseBefore(o.replayIn, before);
		Outcome r;
		for (int i = 0; i < 5 && !r.failed; ++i)
			r = replayTapes(*prop, before, tape, o, 120);
		if (r.failed)
		{
			std::cout << "REPLAY FAILED\nkey: " << r.key << "\n" << r.message << "\ncase: " <<
				r.note << "\n";
		}
		else
			std::cout << "REPLAY PASSED\n";
		removeTree(g_scratchRoot);
		return r.failed ? 1 : 0;
	}

	double start = now();
	std::vector<pid_t> pids(o.jobs, 0);
	auto spawn = [&](int j)
	{
		g_slots[j].status = 0;
		g_slots[j].done = 0;
		g_slots[j].tapeLen = 0;
		g_slots[j].historyLen = 0;
		pid_t pid = fork();
		if (pid == 0)
			workerMain(*prop, o, j);
		pids[j] = pid;
	};
	for (int j = 0; j < o.jobs; ++j)
		spawn(j);

	Stats total;
	Outcome failure;
	bool haveFailure = false;
	std::uint64_t unreproduced = 0, failIndex = 0;
	std::vector<std::string> unreproducedMessages;
	int historySearches = 0;
	std::vector<std::uint64_t> lastSeq(o.jobs, ~0ull);
	std::vector<double> lastChange(o.jobs, now());
	bool timedOut = false;
	int alive = o.jobs;
	while (alive > 0)
	{
		int status;
		bool any = false;
		for (int j = 0; j < o.jobs; ++j)
		{
			if (!pids[j])
				continue;
			pid_t w = waitpid(pids[j], &status, WNOHANG);
			if (w == 0)
			{
				if (g_slots[j].sequence != lastSeq[j])
				{
					lastSeq[j] = g_slots[j].sequence;
					lastChange[j] = now();
				}
				else if (now() - lastChange[j] > 90 && !g_slots[j].done)
				{
					kill(pids[j], SIGKILL);
					g_slots[j].status = stHang;
					lastChange[j] = now();
				}
				continue;
			}
			any = true;
			bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0;
			pids[j] = 0;
			--alive;
			if (clean)
				continue;
			if (haveFailure)
				continue;
			Slot& s = g_slots[j];
			std::vector<std::uint64_t> tape(s.tape, s.tape + std::min<std::uint64_t>(s.tapeLen,
				std::uint64_t(Src::maxTape)));
			Outcome first;
			first.failed = true;
			first.tape = tape;
			if (s.status == stFailed || s.status == stHang)
			{
				first.key = s.status == stHang ? "hang" : s.key;
				first.message = s.status == stHang ? "case did not terminate" : s.message;
				first.note = s.note;
			}
			else
			{
				first.message = crashSummary("w" + std::to_string(j), status);
				first.key = crashKey(first.message);
			}
			std::uint64_t idx = s.caseIndex;
			if (isKnown(o, first.key))
			{
				++total.knownKeys[first.key];
				++total.known;
				spawn(j);
				++alive;
				continue;
			}
			// Confirm in a fresh process before believing it.
			Outcome again;
			int tries = first.key == "hang" ? 2 : 40;
			for (int i = 0; i < tries && !again.failed; ++i)
				again = replayTape(*prop, tape, o, 100);
			if (!again.failed && first.key != "hang" && historySearches < 3)
			{
				++historySearches;
				std::vector<std::uint64_t> history;
				std::uint64_t n = std::min<std::uint64_t>(s.historyLen, std::uint64_t(maxHistory));
				for (std::uint64_t i = s.historyLen - n; i < s.historyLen; ++i)
					history.push_back(s.history[i % maxHistory]);
				again = findHistory(*prop, o, history, first.key, 80);
			}
			if (again.failed)
			{
				haveFailure = true;
				failure = again;
				if (failure.tape.empty())
					failure.tape = tape;
				failIndex = idx;
				__atomic_store_n(&g_shared->stop, 1, __ATOMIC_SEQ_CST);
			}
			else
			{
				++unreproduced;
				if (unreproducedMessages.size() < 5)
					unreproducedMessages.push_back(first.key + ": " + first.message);
				if (unreproduced < 20)
				{
					spawn(j);
					++alive;
				}
			}
		}
		if (now() - start > o.maxSeconds && !timedOut)
		{
			timedOut = true;
			__atomic_store_n(&g_shared->stop, 1, __ATOMIC_SEQ_CST);
		}
		if (!any)
			usleep(2000);
	}
	double searchSeconds = now() - start;

	// Merge statistics.
	if (DIR* d = opendir(g_scratchRoot.c_str()))
	{
		while (struct dirent* e = readdir(d))
		{
			std::string n = e->d_name;
			if (n.size() > 6 && n.compare(n.size() - 6, 6, ".stats") == 0)
				mergeStats(g_scratchRoot + "/" + n, total);
		}
		closedir(d);
	}

	std::uint64_t attempts = 0;
	if (haveFailure)
	{
		std::size_t before = failure.tape.size();
		if (failure.before.empty())
			shrink(*prop, o, failure, 60, attempts);
		std::ofstream f(o.replayOut);
		f << "{\n \"property\": \"" << prop->id << "\",\n \"seed\": " << o.seed <<
			",\n \"case_index\": " << failIndex << ",\n \"key\": \"" << jsonEscape(failure.key) <<
			"\",\n \"message\": \"" << jsonEscape(failure.message) << "\",\n \"case\": \"" <<
			jsonEscape(failure.note) << "\",\n \"tape_length_before_shrinking\": " << before <<
			",\n \"tape\": " << tapeJson(failure.tape);
		// Cases that have to come before it in the same process.
		if (!failure.before.empty())
		{
			f << ",\n \"before\": [";
			for (std::size_t i = 0; i < failure.before.size(); ++i)
				f << (i ? "," : "") << "\n  " << tapeJson(failure.before[i]);
			f << "]";
		}
		f << "\n}\n";
	}

	std::sort(total.samples.begin(), total.samples.end());
	std::ofstream f(o.out);
	f << "{\"property\":\"" << prop->id << "\",\"evaluations\":" << total.evaluations <<
		",\"checks\":" << total.checks << ",\"discards\":" << total.discards <<
		",\"distinct_nontrivial\":" << total.distinct.size() << ",\"requested_cases\":" << o.cases <<
		",\"stopped_by_time\":" << (timedOut ? "true" : "false") << ",\"search_seconds\":" <<
		searchSeconds << ",\"rule\":\"" << jsonEscape(prop->rule) << "\",\"labels\":{";
	bool firstItem = true;
	for (auto& l : total.labels)
	{
		f << (firstItem ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second;
		firstItem = false;
	}
	f << "},\"known\":{";
	firstItem = true;
	for (auto& l : total.knownKeys)
	{
		f << (firstItem ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second;
		firstItem = false;
	}
	f << "},\"samples\":[";
	for (std::size_t i = 0; i < total.samples.size() && i < 6; ++i)
	{
		f << (i ? "," : "") << "{\"case\":" << total.samples[i].first << ",\"input\":\"" <<
			total.samples[i].second << "\"}";
	}
	f << "],\"unreproduced\":" << unreproduced << ",\"unreproduced_messages\":[";
	for (std::size_t i = 0; i < unreproducedMessages.size(); ++i)
		f << (i ? "," : "") << "\"" << jsonEscape(unreproducedMessages[i]) << "\"";
	f << "],\"failed\":" << (haveFailure ? "true" : "false");
	if (haveFailure)
	{
		f << ",\"failure\":{\"key\":\"" << jsonEscape(failure.key) << "\",\"message\":\"" <<
			jsonEscape(failure.message) << "\",\"case\":\"" << jsonEscape(failure.note) <<
			"\",\"shrink_attempts\":" << attempts << "}";
	}
	f << "}\n";
	f.close();
	removeTree(g_scratchRoot);
	return haveFailure ? 1 : 0;
}

} // namespace pbt

int main(int argc, char** argv)
{
	return pbt::engineMain(argc, argv);
}

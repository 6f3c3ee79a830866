// C28: independent objects in concurrent threads. C29: failing allocations. C30: no leaks.
#include <dirent.h>
#include "consistency.h"
#include "fault.h"
#include "script.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
	void (*malloc_hook)(const volatile void*, std::size_t), void (*free_hook)(const volatile void*));

namespace
{

// Lets all threads go at the same moment.
class Gate
{
public:
	explicit Gate(unsigned int n) : m_left(n) {}
	void wait()
	{
		m_left.fetch_sub(1);
		while (m_left.load() > 0)
			std::this_thread::yield();
	}
private:
	std::atomic<unsigned int> m_left;
};

std::atomic<long> liveBlocks(0);
std::atomic<long> liveBytes(0);
std::atomic<bool> counting(false);

void onMalloc(const volatile void*, std::size_t)
{
	if (counting.load(std::memory_order_relaxed))
		liveBlocks.fetch_add(1, std::memory_order_relaxed);
}

void onFree(const volatile void* p)
{
	if (p && counting.load(std::memory_order_relaxed))
		liveBlocks.fetch_sub(1, std::memory_order_relaxed);
}

// An image as good as the other: of the same kind and nearly the same colors.
bool likeImage(const Image& a, const Image& b, double tolerance)
{
	if (a.isValid() != b.isValid() || a.format() != b.format() || a.width() != b.width() ||
		a.height() != b.height() || a.colorSpace() != b.colorSpace())
	{
		return false;
	}
	for (unsigned int y = 0; y < a.height() && std::isfinite(tolerance); ++y)
	{
		for (unsigned int x = 0; x < a.width(); ++x)
		{
			ColorRGBAd p, q;
			if (!a.getPixel(p, x, y) || !b.getPixel(q, x, y))
				return false;
			const double* u = &p.r;
			const double* v = &q.r;
			for (int c = 0; c < 4; ++c)
			{
				if (!(std::abs(u[c] - v[c]) <= tolerance*std::max(1.0, std::abs(v[c]))))
					return false;
			}
		}
	}
	return true;
}

bool likeTexture(const Texture& a, const Texture& b, double tolerance)
{
	if (a.isValid() != b.isValid() || a.mipLevelCount() != b.mipLevelCount() ||
		a.width() != b.width() || a.height() != b.height() || a.depth() != b.depth() ||
		a.format() != b.format() || a.type() != b.type())
	{
		return false;
	}
	for (unsigned int m = 0; m < a.mipLevelCount(); ++m)
	{
		for (unsigned int d = 0; d < a.depth(m); ++d)
		{
			for (unsigned int f = 0; f < a.faceCount(); ++f)
			{
				auto face = Texture::CubeFace(f);
				if (!likeImage(a.getImage(face, m, d), b.getImage(face, m, d), tolerance))
					return false;
				const std::size_t size = a.dataSize(face, m, d);
				if (size != b.dataSize(face, m, d) || (size && std::memcmp(a.data(face, m, d),
						b.data(face, m, d), size) != 0))
				{
					return false;
				}
			}
		}
	}
	return true;
}

} // namespace

PROPERTY(C28, 9000, 240000,
	"2 to 4 histories of 3 to 14 public calls each (image operations, codecs in memory and in files, "
	"texture life cycle, conversion with 1 to 3 threads of its own, saving) on objects of their own are "
	"run in as many threads at once, and one after the other; in some cases every thread also reads the "
	"same constant image and texture. Every history must give the same results, bit for bit, both ways; "
	"the run under ThreadSanitizer also reports races. Non-trivial: at least two histories of four calls")
{
	unsigned int n = 2 + unsigned(src.draw(3));
	std::vector<script::Script> scripts;
	unsigned int longOnes = 0;
	bool same = src.draw(4) == 3; // the same history in every thread
	for (unsigned int i = 0; i < n; ++i)
	{
		if (same && i > 0)
			scripts.push_back(scripts[0]);
		else
		{
			scripts.push_back(script::draw(src, 14, 40));
			src.note << " T" << i;
			script::describe(src.note, scripts.back());
		}
		longOnes += scripts.back().size() >= 4;
		for (const script::Op& o : scripts.back())
			src.label(std::string("op:") + script::kindName(o.kind));
	}
	bool shared = src.draw(3) == 2;
	Image sharedImage;
	Texture sharedTexture;
	std::uint32_t seed = src.seed32();
	IF target = IF(1 + src.draw(17));
	if (shared)
	{
		Rng rng(seed);
		sharedImage.initialize(IF(1 + src.draw(17)), 1 + unsigned(src.draw(9)), 1 + unsigned(src.draw(9)));
		script::fill(sharedImage, rng);
		sharedTexture.initialize(TD::Dim2D, 5, 4, 0, 2);
		script::fillTex(sharedTexture, rng, false);
		sharedTexture.convert(TF::R8G8B8A8, TT::UNorm);
		src.label("shared-const");
	}
	const Image& cimg = sharedImage;
	const Texture& ctex = sharedTexture;
	auto body = [&](unsigned int i, const std::string& dir, std::vector<std::uint64_t>& trace)
	{
		if (shared)
		{
			script::State s;
			s.add(cimg.convert(target));
			s.add(cimg.resize(3, 4, Image::ResizeFilter(i%5 < 5 ? seed%5 : 0)));
			s.add(cimg.rotate(Image::RotateAngle::CW90));
			s.add(Image(cimg));
			s.add(ctex);
			s.add(Texture(ctex));
			trace.push_back(s.hash);
		}
		trace.push_back(script::runAll(scripts[i], dir, &trace));
	};
	std::vector<std::string> dirs;
	for (unsigned int i = 0; i < n; ++i)
	{
		dirs.push_back(pbt::scratchDir() + "/t" + std::to_string(i));
		mkdir(dirs.back().c_str(), 0777);
	}
	std::vector<std::vector<std::uint64_t>> together(n), alone(n);
	{
		Gate gate(n);
		std::vector<std::thread> threads;
		std::mutex mutex;
		bool failed = false;
		pbt::Fail failure;
		for (unsigned int i = 0; i < n; ++i)
		{
			threads.emplace_back([&, i]
				{
					gate.wait();
					try
					{
						body(i, dirs[i], together[i]);
					}
					catch (const pbt::Fail& f)
					{
						std::lock_guard<std::mutex> lock(mutex);
						failed = true;
						failure = f;
					}
				});
		}
		for (std::thread& t : threads)
			t.join();
		if (failed)
			pbt::failCase(failure.key, failure.message);
	}
	for (unsigned int i = 0; i < n; ++i)
	{
		body(i, dirs[i], alone[i]);
		rmdir(dirs[i].c_str());
	}
	for (unsigned int i = 0; i < n; ++i)
	{
		src.checks(alone[i].size());
		CHECK_P(together[i].size() == alone[i].size(), "length", "a history stopped early");
		for (std::size_t k = 0; k < alone[i].size(); ++k)
		{
			CHECK_P(together[i][k] == alone[i][k], "differs", "history " << i << " gives another result "
				"from step " << k << " on when it runs beside " << n - 1 << " others" <<
				(shared ? " (first step: the shared objects)" : ""));
		}
	}
	if (longOnes >= 2)
		src.nontrivial();
}

static unsigned int openFiles()
{
	unsigned int count = 0;
	if (DIR* dir = opendir("/proc/self/fd"))
	{
		while (readdir(dir))
			++count;
		closedir(dir);
	}
	return count;
}

PROPERTY(C30, 100000, 1600000,
	"A history of 3 to 20 public calls (images, codecs in memory, streams and files, refused and failing "
	"calls, texture life cycle, custom mips, conversion with several threads, saving, copies, moves, "
	"self-assignment) is run three times; the number of memory blocks alive after all its objects are "
	"gone must be what it was before, for the second or third run (the first may fill caches of the "
	"system's libraries), and no file may stay open. Non-trivial: at least five calls")
{
	static bool installed = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree) != 0;
	CHECK_P(installed, "hooks", "the allocation hooks can't be installed");
	script::Script s = script::draw(src, 20, unsigned(src.pick(std::vector<unsigned int>{20, 50, 80})));
	script::describe(src.note, s);
	for (const script::Op& o : s)
		src.label(std::string("op:") + script::kindName(o.kind));
	const std::string dir = pbt::scratchDir();
	std::uint64_t first = script::runAll(s, dir);
	long left[2];
	std::uint64_t hash[2];
	unsigned int files = openFiles();
	for (int i = 0; i < 2; ++i)
	{
		liveBlocks = 0;
		counting = true;
		hash[i] = script::runAll(s, dir);
		counting = false;
		left[i] = liveBlocks;
	}
	src.checks(4);
	CHECK_P(openFiles() == files, "open-files", openFiles() << " files are open after the history, " <<
		files << " before");
	CHECK_P(hash[0] == first && hash[1] == first, "unrepeatable", "the same history gave different "
		"results");
	CHECK_P(left[0] <= 0 || left[1] <= 0, "leak", left[1] << " memory blocks are left after all objects "
		"are gone");
	if (s.size() >= 5)
		src.nontrivial();
}

PROPERTY(C29, 60000, 2400000,
	"A history of 3 to 14 public calls (as in C30) during one call of which an allocation of image "
	"storage fails: the n-th one alone or all from the n-th on, for every call and n of the history "
	"when there are few and random ones otherwise. The call must report failure or give the result it "
	"gives without the fault; a refused copy of a valid image is an invalid image; a source image and "
	"unrelated objects keep their contents; every object stays consistent; the rest of the history "
	"runs; nothing is leaked. Non-trivial: a fault struck")
{
	static bool installed = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree) != 0;
	(void)installed;
	script::Script s = script::draw(src, 14, unsigned(src.pick(std::vector<unsigned int>{30, 60})));
	script::describe(src.note, s);
	const std::string dir = pbt::scratchDir();
	// How many allocations each call makes.
	std::vector<std::pair<std::size_t, long>> points;
	{
		script::State st;
		for (std::size_t i = 0; i < s.size(); ++i)
		{
			fault::arm(0, false);
			script::run(s[i], st, dir);
			fault::disarm();
			for (long n = 1; n <= fault::plan().seen; ++n)
				points.emplace_back(i, n);
		}
	}
	if (points.empty())
		return;
	while (points.size() > 12)
		points.erase(points.begin() + long(src.draw(points.size())));
	for (auto& point : points)
	{
		bool sticky = src.draw(2);
		std::string what = std::string(script::kindName(s[point.first].kind)) + " (call " +
			std::to_string(point.first) + ", allocation " + std::to_string(point.second) +
			(sticky ? " and later)" : ")");
		std::string key = script::kindName(s[point.first].kind);
		{
			script::State st;
			for (std::size_t i = 0; i < s.size(); ++i)
			{
				if (i != point.first)
				{
					script::run(s[i], st, dir);
					continue;
				}
				const script::Op& o = s[i];
				// The same call without the fault.
				script::State good;
				for (int k = 0; k < 3; ++k)
					good.img[k] = st.img[k];
				for (int k = 0; k < 2; ++k)
					good.tex[k] = st.tex[k];
				script::State before;
				for (int k = 0; k < 3; ++k)
					before.img[k] = st.img[k];
				for (int k = 0; k < 2; ++k)
					before.tex[k] = st.tex[k];
				script::run(o, good, dir);
				fault::arm(point.second, sticky);
				script::Outcome r = script::run(o, st, dir);
				fault::disarm();
				if (fault::plan().struck == 0)
					continue; // the history took another path
				src.checks(1);
				src.nontrivial();
				src.label(key);
				auto hashOf = [](const Image& img)
				{
					script::State h;
					h.add(img);
					return h.hash;
				};
				auto hashOfTex = [](const Texture& t)
				{
					script::State h;
					h.add(t);
					return h.hash;
				};
				// Objects the call has nothing to do with.
				bool usesA = o.kind < script::TexInit || o.kind == script::FileRound ||
					o.kind == script::Decode || o.kind == script::TexCopy;
				bool usesB = usesA;
				bool usesTex = o.kind >= script::TexInit && o.kind <= script::TexRefuse;
				for (unsigned int k = 0; k < 3; ++k)
				{
					if ((k == o.a && usesA) || (k == o.b && usesB))
						continue;
					CHECK_P(hashOf(st.img[k]) == hashOf(before.img[k]), key + ":unrelated", "a failed " <<
						what << " changed another image");
				}
				for (unsigned int k = 0; k < 2; ++k)
				{
					if (usesTex && (k == o.k || o.kind == script::TexCopy))
						continue;
					CHECK_P(hashOfTex(st.tex[k]) == hashOfTex(before.tex[k]), key + ":unrelated",
						"a failed " << what << " changed another texture");
				}
				if (r.reports && r.ok)
				{
					// Conversion and scaling have a second way to their result. The two conversions to
					// raw integers don't agree on the scale (see C14).
					bool toRaw = o.kind == script::Convert &&
						fmt(good.img[o.b].format()).kind == ::Kind::Raw;
					double tolerance = toRaw ? INFINITY : o.kind == script::Convert || o.kind == script::TexSet ? 0.05 :
						o.kind == script::Resize || o.kind == script::TexMips || o.kind == script::Normal ?
						INFINITY : 0.0;
					bool same = true;
					for (int k = 0; k < 3; ++k)
					{
						same = same && (hashOf(st.img[k]) == hashOf(good.img[k]) ||
							likeImage(st.img[k], good.img[k], tolerance));
					}
					for (int k = 0; k < 2; ++k)
					{
						same = same && (hashOfTex(st.tex[k]) == hashOfTex(good.tex[k]) ||
							likeTexture(st.tex[k], good.tex[k], tolerance));
					}
					CHECK_P(same, key + ":silent", "the allocation failure in " << what <<
						" was not reported, and the result differs");
				}
				for (Image& img : st.img)
					checkImage(src, img, o.seed, "failed-" + key);
				for (const Texture& t : st.tex)
					checkTexture(src, t, "failed-" + key);
			}
		}
		liveBlocks = 0;
		counting = true;
		{
			script::State st;
			for (std::size_t i = 0; i < s.size(); ++i)
			{
				if (i == point.first)
					fault::arm(point.second, sticky);
				script::run(s[i], st, dir);
				fault::disarm();
			}
		}
		counting = false;
		CHECK_P(liveBlocks <= 0, key + ":leak", liveBlocks << " memory blocks are left after a failed " <<
			what);
	}
}

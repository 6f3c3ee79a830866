// C01 and C02 encodings, C03 thread independence, C10 capability queries, C21 value ranges.
#include "texcommon.h"
#include "fault.h"
#include <algorithm>
#include <cstdio>
#include <fstream>

// Whether half floats are packed by the CPU's instruction or in software. Absent (a null address) when the
// library decides it in another way.
namespace cuttlefish
{
extern const bool hasHardwareHalfFloat __attribute__((weak));
}

namespace
{

bool writable(const volatile void* p)
{
	std::ifstream maps("/proc/self/maps");
	std::string line;
	auto a = reinterpret_cast<std::uintptr_t>(p);
	while (std::getline(maps, line))
	{
		unsigned long long from = 0, to = 0;
		char r = 0, w = 0;
		if (std::sscanf(line.c_str(), "%llx-%llx %c%c", &from, &to, &r, &w) == 4 && a >= from && a < to)
			return w == 'w';
	}
	return false;
}

// Lets the library see a CPU without instructions for half floats.
class SoftwareHalf
{
public:
	explicit SoftwareHalf(bool enable)
		: m_flag(nullptr)
	{
		static volatile bool* flag = find();
		if (!enable || !flag || !*flag)
			return;
		m_flag = flag;
		*m_flag = false;
	}

	~SoftwareHalf()
	{
		if (m_flag)
			*m_flag = true;
	}

	SoftwareHalf(const SoftwareHalf&) = delete;
	SoftwareHalf& operator=(const SoftwareHalf&) = delete;

	bool active() const {return m_flag != nullptr;}

private:
	static volatile bool* find()
	{
		const volatile bool* p = &cuttlefish::hasHardwareHalfFloat;
		return p && writable(p) ? const_cast<volatile bool*>(p) : nullptr;
	}

	volatile bool* m_flag;
};

bool isSmallFloat(const TexFmt& f, TT t)
{
	return t == TT::UFloat || (t == TT::Float && f.width[0] == 16);
}

void encodingCase(Src& src, const std::vector<FmtType>& pairs, unsigned int maxPixels)
{
	const FmtType& p = src.stratPick(pairs);
	src.label(std::string("type:") + typeName(p.t));
	src.note << p.f->name << " " << typeName(p.t) << " ";
	Spec spec = genSpec(src, maxPixels, p.f->srgb && p.t == TT::UNorm && src.draw(3) == 2 ? 1 : 0, 300, 20000);
	src.note << spec;
	Texture t = makeTexture(spec);
	Floats content = fillTexture(src, t, spec, *p.f, p.t);
	ConvertArgs args = genConvertArgs(src);
	{
		bool half = p.t == TT::Float && p.f->width[0] == 16;
		SoftwareHalf software(half && src.draw(4) == 3);
		if (software.active())
		{
			src.label("software half floats");
			src.note << " software half floats";
		}
		CHECK_P(convertWith(t, p.f->f, p.t, args), "convert-refused", "convert to " << p.f->name << " " <<
			typeName(p.t) << " failed for " << spec << args);
	}
	src.checks(checkConverted(t, spec, *p.f, p.t, content));
	// Non-trivial when the data isn't one repeated pixel.
	forSurfaces(spec, [&](const SurfIdx& i)
		{
			std::vector<std::uint8_t> b = surfBytes(t, i);
			for (std::size_t k = p.f->bytes; k < b.size(); ++k)
			{
				if (b[k] != b[k - p.f->bytes])
				{
					src.nontrivial();
					return;
				}
			}
		});
}

} // namespace

PROPERTY(C01, 90000, 2400000,
	"Each case takes one valid (format, type) pair of the integer, normalized and 32-bit float "
	"formats (enumerated by case index) and a texture of random dimension, size, layers and mip "
	"levels whose surfaces hold uniform, code-exact, position-unique or mixed values (boundaries "
	"between codes, out of range, infinite, denormal, NaN), converts it with random quality, alpha, "
	"mask and thread count and decodes every pixel. Non-trivial: some surface stores at least two "
	"different pixels.")
{
	static const std::vector<FmtType> pairs = validPairs([](const TexFmt& f, TT t)
		{
			return !isSmallFloat(f, t);
		});
	encodingCase(src, pairs, 1200);
}

PROPERTY(C02, 150000, 2400000,
	"As C01 for the 16-bit half float formats and the two unsigned float formats, with contents that "
	"concentrate on representable values, midpoints between them, the overflow threshold and the "
	"denormal range. Non-trivial: some surface stores at least two different pixels.")
{
	static const std::vector<FmtType> pairs = validPairs(isSmallFloat);
	encodingCase(src, pairs, 1200);
}

PROPERTY(C03, 18000, 480000,
	"Each case converts one texture (any valid format and type, contents as in C01) on one thread and "
	"again with several other thread counts (0, 2..64, one more than the jobs, all cores), each at "
	"least once, and compares every byte; in a share of the runs all but a few threads can't be "
	"started; a share of the cases runs under ThreadSanitizer. "
	"Non-trivial: some surface has more than 32 pixels, so that threads share it.")
{
	static const std::vector<FmtType> pairs = validPairs();
	const FmtType& p = src.stratPick(pairs);
	src.note << p.f->name << " " << typeName(p.t) << " ";
	Spec spec = genSpec(src, src.draw(3) ? 4096 : 300,
		p.f->srgb && p.t == TT::UNorm && src.draw(3) == 2 ? 1 : 0, 300, 5000);
	src.note << spec;
	Texture t = makeTexture(spec);
	Floats content = fillTexture(src, t, spec, *p.f, p.t);
	ConvertArgs args = genConvertArgs(src);
	args.threads = 1;
	unsigned int runs = 2 + unsigned(src.draw(3));
	std::vector<Texture> copies(runs, t);
	CHECK_P(convertWith(t, p.f->f, p.t, args), "convert-refused", "convert failed for " << spec);
	if (spec.w*spec.h > 32)
		src.nontrivial();
	unsigned int jobs = std::min((spec.w*spec.h + 31)/32, 300u);
	for (unsigned int r = 0; r < runs; ++r)
	{
		const unsigned int counts[] = {2, 3, 4, 8, 0, jobs, jobs + 1, 64, Texture::allCores,
			Texture::allCores - 1, 1, 5};
		args.threads = counts[src.draw(sizeof(counts)/sizeof(*counts))];
		// Not as many as the jobs of the biggest textures, which the sanitizers can't hold.
		if (args.threads == Texture::allCores - 1 && spec.w*spec.h > 32*300)
			args.threads = 300;
		src.note << " threads=" << args.threads;
		// The system may not be able to start all of them.
		long startable = src.draw(4) == 3 ? long(src.draw(6)) : -1;
		fault::threads().left = startable;
		fault::threads().refused = 0;
		bool converted = convertWith(copies[r], p.f->f, p.t, args);
		fault::threads().left = -1;
		if (fault::threads().refused > 0)
		{
			src.label("thread-start-failed");
			src.note << " (" << startable << " startable)";
		}
		CHECK_P(converted, "convert-refused-threads", "convert failed with " << args.threads <<
			" threads: " << spec);
		forSurfaces(spec, [&](const SurfIdx& i)
			{
				std::vector<std::uint8_t> a = surfBytes(t, i), b = surfBytes(copies[r], i);
				CHECK_P(a.size() == b.size(), "thread-size", surfName(i) << " has " << b.size() <<
					" bytes with " << args.threads << " threads, " << a.size() << " with one");
				if (a != b)
				{
					std::size_t k = std::mismatch(a.begin(), a.end(), b.begin()).first - a.begin();
					CHECK_P(false, "thread-data", surfName(i) << " of " << spec << " as " <<
						p.f->name << " differs at byte " << k << " with " << args.threads <<
						" threads");
				}
				src.checks(1);
			});
	}
}

//---------------------------------------------------------------------------------------------

namespace
{

struct Block {TF f; unsigned int w, h, size, minW, minH; bool alpha;};

const std::vector<Block>& compressedFormats()
{
	static const std::vector<Block> v =
	{
		{TF::BC1_RGB, 4, 4, 8, 4, 4, false}, {TF::BC1_RGBA, 4, 4, 8, 4, 4, true},
		{TF::BC2, 4, 4, 16, 4, 4, true}, {TF::BC3, 4, 4, 16, 4, 4, true},
		{TF::BC4, 4, 4, 8, 4, 4, false}, {TF::BC5, 4, 4, 16, 4, 4, false},
		{TF::BC6H, 4, 4, 16, 4, 4, false}, {TF::BC7, 4, 4, 16, 4, 4, true},
		{TF::ETC1, 4, 4, 8, 4, 4, false}, {TF::ETC2_R8G8B8, 4, 4, 8, 4, 4, false},
		{TF::ETC2_R8G8B8A1, 4, 4, 8, 4, 4, true}, {TF::ETC2_R8G8B8A8, 4, 4, 16, 4, 4, true},
		{TF::EAC_R11, 4, 4, 8, 4, 4, false}, {TF::EAC_R11G11, 4, 4, 16, 4, 4, false},
		{TF::ASTC_4x4, 4, 4, 16, 4, 4, true}, {TF::ASTC_5x4, 5, 4, 16, 5, 4, true},
		{TF::ASTC_5x5, 5, 5, 16, 5, 5, true}, {TF::ASTC_6x5, 6, 5, 16, 6, 5, true},
		{TF::ASTC_6x6, 6, 6, 16, 6, 6, true}, {TF::ASTC_8x5, 8, 5, 16, 8, 5, true},
		{TF::ASTC_8x6, 8, 6, 16, 8, 6, true}, {TF::ASTC_8x8, 8, 8, 16, 8, 8, true},
		{TF::ASTC_10x5, 10, 5, 16, 10, 5, true}, {TF::ASTC_10x6, 10, 6, 16, 10, 6, true},
		{TF::ASTC_10x8, 10, 8, 16, 10, 8, true}, {TF::ASTC_10x10, 10, 10, 16, 10, 10, true},
		{TF::ASTC_12x10, 12, 10, 16, 12, 10, true}, {TF::ASTC_12x12, 12, 12, 16, 12, 12, true},
		{TF::PVRTC1_RGB_2BPP, 8, 4, 8, 16, 8, false}, {TF::PVRTC1_RGBA_2BPP, 8, 4, 8, 16, 8, true},
		{TF::PVRTC1_RGB_4BPP, 4, 4, 8, 8, 8, false}, {TF::PVRTC1_RGBA_4BPP, 4, 4, 8, 8, 8, true},
		{TF::PVRTC2_RGBA_2BPP, 8, 4, 8, 16, 8, true}, {TF::PVRTC2_RGBA_4BPP, 4, 4, 8, 8, 8, true},
	};
	return v;
}

} // namespace

PROPERTY(C10, 360000, 2400000,
	"Each case takes one of the 59 formats times 6 types (enumerated), compares every static query "
	"with a table written from the format names and the file format specifications, then converts a "
	"random texture to the pair and saves it to all three file types, comparing acceptance with the "
	"queries; it also compares the mip chain length and file type queries for random arguments. "
	"Non-trivial: the pair is valid, so that conversion and saving really happen.")
{
	unsigned int total = unsigned(TF::PVRTC2_RGBA_4BPP) + 1;
	std::uint64_t k = src.strat(std::uint64_t(total)*6);
	auto f = TF(k/6);
	auto t = TT(k%6);
	src.note << "format " << unsigned(f) << " type " << typeName(t) << " ";
	const TexFmt* info = nullptr;
	for (const TexFmt& i : texFormats())
	{
		if (i.f == f)
			info = &i;
	}
	const Block* block = nullptr;
	for (const Block& b : compressedFormats())
	{
		if (b.f == f)
			block = &b;
	}
	CHECK_P(info || block || f == TF::Unknown, "table", "format " << unsigned(f) << " isn't listed");

	bool valid = Texture::isFormatValid(f, t);
	if (!block)
	{
		bool want = info && refValid(*info, t);
		CHECK_P(valid == want, "valid", "isFormatValid(" << (info ? info->name : "Unknown") << ", " <<
			typeName(t) << ") is " << valid);
	}
	bool fileValid[4] = {};
	for (int ft = 1; ft <= 3; ++ft)
	{
		bool v = fileValid[ft] = Texture::isFormatValid(f, t, Texture::FileType(ft));
		if (!block)
		{
			bool want = info && (ft == 1 ? ddsSupports(*info, t) : ft == 2 ? ktxSupports(*info, t) :
				refValid(*info, t));
			CHECK_P(v == want, "valid-file", "isFormatValid(" << (info ? info->name : "Unknown") <<
				", " << typeName(t) << ", file type " << ft << ") is " << v);
		}
		else
			CHECK_P(!v || valid, "valid-file", "format " << unsigned(f) << " saves to file type " <<
				ft << " but can't be converted to");
	}
	bool srgb = Texture::hasNativeSRGB(f, t);
	if (!block)
		CHECK_P(srgb == (info && info->srgb && t == TT::UNorm), "native-srgb", "hasNativeSRGB(" <<
			(info ? info->name : "Unknown") << ", " << typeName(t) << ") is " << srgb);
	bool alpha = Texture::hasAlpha(f);
	CHECK_P(alpha == (info ? info->alpha : block ? block->alpha : false), "has-alpha", "hasAlpha(" <<
		unsigned(f) << ") is " << alpha);
	unsigned int q[5] = {Texture::blockWidth(f), Texture::blockHeight(f), Texture::blockSize(f),
		Texture::minWidth(f), Texture::minHeight(f)};
	unsigned int w[5] = {1, 1, info ? info->bytes : 0, 1, 1};
	if (block)
	{
		const unsigned int v[5] = {block->w, block->h, block->size, block->minW, block->minH};
		std::copy(v, v + 5, w);
	}
	if (f == TF::Unknown)
		std::fill(w, w + 5, 0u);
	static const char* names[] = {"blockWidth", "blockHeight", "blockSize", "minWidth", "minHeight"};
	for (int i = 0; i < 5; ++i)
	{
		CHECK_P(q[i] == w[i], names[i], names[i] << "(" << unsigned(f) << ") is " << q[i] << ", not " <<
			w[i]);
	}
	src.checks(15);

	// Mip chain length.
	for (int i = 0; i < 4; ++i)
	{
		auto d = TD(src.draw(4));
		unsigned int v[3];
		for (unsigned int& x : v)
		{
			unsigned int bits = unsigned(src.draw(33));
			x = bits == 0 ? 1 : unsigned(1 + src.draw(bits == 32 ? 0xffffffffull : 1ull << bits));
			if (src.draw(4) == 3 && bits < 32)
				x = 1u << bits;
		}
		unsigned int have = Texture::maxMipmapLevels(d, v[0], v[1], v[2]);
		unsigned int want = refMaxMips(d, v[0], v[1], v[2]);
		CHECK_P(have == want, "max-mips", "maxMipmapLevels(" << dimName(d) << ", " << v[0] << ", " <<
			v[1] << ", " << v[2] << ") is " << have << ", not " << want);
		src.checks(1);
	}

	// File types from names.
	static const std::vector<std::string> ext = {"dds", "ktx", "pvr", "DDS", "Ktx", "pVr", "dd", "ddsx",
		"ktx2", "png", "", "kt", "pvrr", "d ds"};
	for (int i = 0; i < 4; ++i)
	{
		static const std::vector<std::string> stems = {"", "a", "dir/b", "dir.dds/b", "x.pvr", "dds",
			".", "weird\xc3\xa9", "a.ktx."};
		std::string name = src.pick(stems);
		if (src.draw(5))
			name += ".";
		name += src.pick(ext);
		Texture::FileType have = Texture::fileType(name.c_str()), want = refFileType(name);
		CHECK_P(have == want, "file-type", "fileType(\"" << name << "\") is " << int(have) << ", not " <<
			int(want));
		src.checks(1);
	}

	// What convert and save really do.
	Spec spec = genSpec(src, 150, -1);
	src.note << spec;
	Texture tex = makeTexture(spec);
	const TexFmt& content = info ? *info : texFormats()[13];
	Floats floats = fillTexture(src, tex, spec, content, info && valid ? t : TT::UNorm);
	ConvertArgs args = genConvertArgs(src);
	bool ok = convertWith(tex, f, t, args);
	bool want = valid && (spec.cs == ColorSpace::Linear || srgb);
	CHECK_P(ok == want, "convert-agrees", "convert to format " << unsigned(f) << " type " <<
		typeName(t) << " of " << spec << " returned " << ok << " but the queries say " << want);
	CHECK_P(tex.converted() == ok, "convert-agrees", "converted() is " << tex.converted());
	if (ok)
	{
		src.nontrivial();
		forSurfaces(spec, [&](const SurfIdx& i)
			{
				std::size_t lw = std::max(refLevelSize(spec.w, i.mip), q[3]);
				std::size_t lh = std::max(refLevelSize(spec.h, i.mip), q[4]);
				std::size_t size = (lw + q[0] - 1)/q[0]*((lh + q[1] - 1)/q[1])*q[2];
				CHECK_P(surfSize(tex, i) == size, "data-size", surfName(i) << " has " <<
					surfSize(tex, i) << " bytes, not " << size);
				src.checks(1);
			});
	}
	else
		CHECK_P(tex.imagesComplete(), "refused-convert", "a refused conversion lost images");
	for (int ft = 1; ft <= 3; ++ft)
	{
		std::vector<std::uint8_t> out(3, 7);
		Texture::SaveResult r = tex.save(out, Texture::FileType(ft));
		Texture::SaveResult expect = !ok ? Texture::SaveResult::Invalid : fileValid[ft] ?
			Texture::SaveResult::Success : Texture::SaveResult::Unsupported;
		CHECK_P(r == expect, "save-agrees", "saving format " << unsigned(f) << " type " <<
			typeName(t) << " to file type " << ft << " returned " << int(r) << ", not " <<
			int(expect));
		src.checks(1);
	}
}

//---------------------------------------------------------------------------------------------

PROPERTY(C21, 5000000, 80000000,
	"Each case makes an image of a random format whose original format is the same or another "
	"normalized one, adjusts it for a random texture type and compares every channel of every pixel "
	"with the linear map; originals that aren't normalized and types without adjustment must be "
	"left byte-identical. Non-trivial: the adjustment changed pixels of a non-constant image.")
{
	ImgOpts o;
	o.maxDim = 12;
	o.bigEvery = 4000;
	o.hdr = false;
	Image img = genImage(src, o);
	const FmtInfo& fi = fmt(img.format());
	static const std::vector<TT> types = {TT::SNorm, TT::UInt, TT::Int, TT::SNorm, TT::UInt, TT::Int,
		TT::UNorm, TT::Float, TT::UFloat};
	TT type = src.pick(types);
	// The original format: usually the image's own, else what it was before it became RGBAF.
	IF orig = img.format();
	if (src.draw(3) == 2 || fi.f == IF::RGBAF || fi.f == IF::RGBF)
	{
		static const std::vector<IF> unorm = formatsWhere([](const FmtInfo& i)
			{
				return i.kind == Kind::UNorm;
			});
		orig = src.draw(5) ? src.pick(unorm) : allFormats()[src.draw(allFormats().size())].f;
	}
	bool implied = orig == img.format() && src.draw(4) == 3;
	src.note << " type=" << typeName(type) << " orig=" << fmt(orig).name << (implied ? " implied" : "");
	src.label(std::string("type:") + typeName(type));
	Snap before = snap(img);
	Image copy = img;
	if (implied)
		Texture::adjustImageValueRange(img, type);
	else
		Texture::adjustImageValueRange(img, type, orig);

	double maxv[4] = {0, 0, 0, 0};
	bool normalized = true;
	switch (orig)
	{
		case IF::Gray8: case IF::RGB8: case IF::RGBA8:
			maxv[0] = maxv[1] = maxv[2] = maxv[3] = 255;
			break;
		case IF::Gray16: case IF::RGB16: case IF::RGBA16:
			maxv[0] = maxv[1] = maxv[2] = maxv[3] = 65535;
			break;
		case IF::RGB5:
			maxv[0] = maxv[1] = maxv[2] = maxv[3] = 31;
			break;
		case IF::RGB565:
			maxv[0] = maxv[2] = maxv[3] = 31;
			maxv[1] = 63;
			break;
		default:
			normalized = false;
			break;
	}
	bool adjusts = normalized && fi.kind != Kind::Raw && (type == TT::SNorm || type == TT::UInt || type == TT::Int);
	if (!adjusts)
	{
		CHECK_P(sameImage(img, copy), "adjust-untouched", "adjusting " << fi.name << " from " <<
			fmt(orig).name << " for " << typeName(type) << " changed the image");
		src.checks(1);
		return;
	}
	CHECK_P(img.isValid() && img.width() == before.w && img.height() == before.h, "adjust-size",
		"the adjusted image is " << img.width() << "x" << img.height() << ", not " << before.w <<
		"x" << before.h);
	CHECK_P(img.colorSpace() == before.cs, "adjust-colorspace", "colour space changed");
	const FmtInfo& ri = fmt(img.format());
	CHECK_P(ri.kind == Kind::Float, "adjust-format", "the adjusted image has format " << ri.name);
	CHECK_P(ri.channels >= (fi.channels == 2 ? 2 : fi.channels), "adjust-format", "adjusting " <<
		fi.name << " gave " << ri.name << " with fewer channels");
	if (nonConstant(before))
		src.nontrivial();
	Snap after = snap(img);
	for (unsigned int y = 0; y < before.h; ++y)
	{
		for (unsigned int x = 0; x < before.w; ++x)
		{
			const Px& a = before.at(x, y);
			const Px& b = after.at(x, y);
			for (int c = 0; c < 4; ++c)
			{
				if (c == 3 && ri.channels < 4)
					continue;
				if (c > 0 && ri.channels == 1)
					continue;
				double v = a.c[c], want;
				if (type == TT::SNorm)
					want = v*2 - 1;
				else
				{
					double half = maxv[c] == 63 ? 32 : (maxv[c] + 1)/2;
					want = v*maxv[c] - (type == TT::Int ? half : 0);
					// The nearest integer, either one when the value lies between two of them.
					if (b.c[c] == std::floor(b.c[c]) &&
						std::abs(b.c[c] - want) <= 0.5 + 1e-6*maxv[c])
					{
						want = b.c[c];
					}
					else
						want = std::floor(want + 0.5);
				}
				double tol = 1e-6*std::max(1.0, std::abs(want));
				if (!(std::abs(b.c[c] - want) <= tol))
				{
					CHECK_P(false, std::string("adjust-value-") + typeName(type), "channel " << c <<
						" of pixel (" << x << "," << y << ") of " << fi.name << " from " <<
						fmt(orig).name << ": " << v << " became " << b.c[c] << ", not " << want);
				}
				src.checks(1);
			}
		}
	}
}

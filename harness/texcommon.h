// Texture format tables, generators and reference encoders shared by the texture properties.
#pragma once
#include "common.h"
#include <memory>
#include <thread>

struct TexFmt
{
	TF f;
	const char* name;
	unsigned int bytes;    // per pixel, 0 for compressed
	int offset[4];         // bit offset of r, g, b, a in the little-endian pixel word
	int width[4];          // bit width, 0 when absent
	const char* types;     // valid types: u n(snorm) U I f F(ufloat)
	bool alpha;
	bool srgb;
};

// The layouts are written down from the format names, the DXGI/Vulkan definitions they mirror and
// the documentation, not computed by the library.
inline const std::vector<TexFmt>& texFormats()
{
	static const std::vector<TexFmt> v =
	{
		{TF::R4G4, "R4G4", 1, {4, 0, 0, 0}, {4, 4, 0, 0}, "u", false, false},
		{TF::R4G4B4A4, "R4G4B4A4", 2, {12, 8, 4, 0}, {4, 4, 4, 4}, "u", true, false},
		{TF::B4G4R4A4, "B4G4R4A4", 2, {4, 8, 12, 0}, {4, 4, 4, 4}, "u", true, false},
		{TF::A4R4G4B4, "A4R4G4B4", 2, {8, 4, 0, 12}, {4, 4, 4, 4}, "u", true, false},
		{TF::R5G6B5, "R5G6B5", 2, {11, 5, 0, 0}, {5, 6, 5, 0}, "u", false, false},
		{TF::B5G6R5, "B5G6R5", 2, {0, 5, 11, 0}, {5, 6, 5, 0}, "u", false, false},
		{TF::R5G5B5A1, "R5G5B5A1", 2, {11, 6, 1, 0}, {5, 5, 5, 1}, "u", true, false},
		{TF::B5G5R5A1, "B5G5R5A1", 2, {1, 6, 11, 0}, {5, 5, 5, 1}, "u", true, false},
		{TF::A1R5G5B5, "A1R5G5B5", 2, {10, 5, 0, 15}, {5, 5, 5, 1}, "u", true, false},
		{TF::R8, "R8", 1, {0, 0, 0, 0}, {8, 0, 0, 0}, "unUI", false, false},
		{TF::R8G8, "R8G8", 2, {0, 8, 0, 0}, {8, 8, 0, 0}, "unUI", false, false},
		{TF::R8G8B8, "R8G8B8", 3, {0, 8, 16, 0}, {8, 8, 8, 0}, "unUI", false, true},
		{TF::B8G8R8, "B8G8R8", 3, {16, 8, 0, 0}, {8, 8, 8, 0}, "u", false, true},
		{TF::R8G8B8A8, "R8G8B8A8", 4, {0, 8, 16, 24}, {8, 8, 8, 8}, "unUI", true, true},
		{TF::B8G8R8A8, "B8G8R8A8", 4, {16, 8, 0, 24}, {8, 8, 8, 8}, "u", true, true},
		{TF::A8B8G8R8, "A8B8G8R8", 4, {24, 16, 8, 0}, {8, 8, 8, 8}, "u", true, true},
		{TF::A2R10G10B10, "A2R10G10B10", 4, {20, 10, 0, 30}, {10, 10, 10, 2}, "uU", true, false},
		{TF::A2B10G10R10, "A2B10G10R10", 4, {0, 10, 20, 30}, {10, 10, 10, 2}, "uU", true, false},
		{TF::R16, "R16", 2, {0, 0, 0, 0}, {16, 0, 0, 0}, "unUIf", false, false},
		{TF::R16G16, "R16G16", 4, {0, 16, 0, 0}, {16, 16, 0, 0}, "unUIf", false, false},
		{TF::R16G16B16, "R16G16B16", 6, {0, 16, 32, 0}, {16, 16, 16, 0}, "unUIf", false, false},
		{TF::R16G16B16A16, "R16G16B16A16", 8, {0, 16, 32, 48}, {16, 16, 16, 16}, "unUIf", true, false},
		{TF::R32, "R32", 4, {0, 0, 0, 0}, {32, 0, 0, 0}, "UIf", false, false},
		{TF::R32G32, "R32G32", 8, {0, 32, 0, 0}, {32, 32, 0, 0}, "UIf", false, false},
		{TF::R32G32B32, "R32G32B32", 12, {0, 32, 64, 0}, {32, 32, 32, 0}, "UIf", false, false},
		{TF::R32G32B32A32, "R32G32B32A32", 16, {0, 32, 64, 96}, {32, 32, 32, 32}, "UIf", true, false},
		{TF::B10G11R11_UFloat, "B10G11R11_UFloat", 4, {0, 11, 22, 0}, {11, 11, 10, 0}, "F", false, false},
		{TF::E5B9G9R9_UFloat, "E5B9G9R9_UFloat", 4, {0, 9, 18, 0}, {9, 9, 9, 0}, "F", false, false},
	};
	return v;
}

inline const TexFmt& texFmt(TF f)
{
	for (const TexFmt& i : texFormats())
	{
		if (i.f == f)
			return i;
	}
	pbt::failCase("texture-format", "texture reports a format outside of the table");
}

inline char typeChar(TT t)
{
	switch (t)
	{
		case TT::UNorm: return 'u';
		case TT::SNorm: return 'n';
		case TT::UInt: return 'U';
		case TT::Int: return 'I';
		case TT::UFloat: return 'F';
		case TT::Float: return 'f';
	}
	return '?';
}

inline const char* typeName(TT t)
{
	static const char* n[] = {"UNorm", "SNorm", "UInt", "Int", "UFloat", "Float"};
	return unsigned(t) < 6 ? n[unsigned(t)] : "?";
}

inline bool refValid(const TexFmt& f, TT t) {return std::strchr(f.types, typeChar(t)) != nullptr;}

struct FmtType {const TexFmt* f; TT t;};

inline std::vector<FmtType> validPairs(bool (*pred)(const TexFmt&, TT) = nullptr)
{
	std::vector<FmtType> r;
	for (const TexFmt& f : texFormats())
	{
		for (int t = 0; t < 6; ++t)
		{
			if (refValid(f, TT(t)) && (!pred || pred(f, TT(t))))
				r.push_back(FmtType{&f, TT(t)});
		}
	}
	return r;
}

// What the file types can hold.
inline bool ddsSupports(const TexFmt& f, TT t)
{
	switch (f.f)
	{
		case TF::R4G4B4A4: case TF::B4G4R4A4: case TF::B5G6R5: case TF::R5G5B5A1: case TF::B5G5R5A1:
		case TF::R8G8B8: case TF::B8G8R8: case TF::A8B8G8R8: case TF::A2R10G10B10:
		case TF::R16G16B16:
			return false;
		default:
			return refValid(f, t);
	}
}

inline bool ktxSupports(const TexFmt& f, TT t)
{
	return f.f != TF::R4G4 && f.f != TF::A4R4G4B4 && f.f != TF::B8G8R8 && refValid(f, t);
}

inline Texture::FileType refFileType(const std::string& name)
{
	std::size_t n = name.size();
	if (n < 4)
		return Texture::FileType::Auto;
	std::string e = name.substr(n - 4);
	for (char& c : e)
	{
		if (c >= 'A' && c <= 'Z')
			c = char(c - 'A' + 'a');
	}
	return e == ".dds" ? Texture::FileType::DDS : e == ".ktx" ? Texture::FileType::KTX :
		e == ".pvr" ? Texture::FileType::PVR : Texture::FileType::Auto;
}

inline const char* dimName(TD d)
{
	static const char* n[] = {"1D", "2D", "3D", "Cube"};
	return n[unsigned(d)];
}

//---------------------------------------------------------------------------------------------
// Reference shapes

inline unsigned int refMaxMips(TD d, unsigned int w, unsigned int h, unsigned int depth)
{
	unsigned int m = std::max(w, h);
	if (d == TD::Dim3D)
		m = std::max(m, depth);
	unsigned int n = 0;
	while (m)
	{
		++n;
		m /= 2;
	}
	return n;
}

inline unsigned int refLevelSize(unsigned int size, unsigned int level)
{
	for (unsigned int i = 0; i < level && size > 1; ++i)
		size /= 2;
	return std::max(size, 1u);
}

struct Spec
{
	TD dim = TD::Dim2D;
	unsigned int w = 1, h = 1, depth = 0, mips = 1;
	ColorSpace cs = ColorSpace::Linear;
	unsigned int faces() const {return dim == TD::Cube ? 6 : 1;}
	unsigned int layers(unsigned int level) const
	{
		return dim == TD::Dim3D ? refLevelSize(depth, level) : std::max(depth, 1u);
	}
	unsigned int surfaces() const
	{
		unsigned int n = 0;
		for (unsigned int m = 0; m < mips; ++m)
			n += layers(m)*faces();
		return n;
	}
};

inline std::ostream& operator<<(std::ostream& os, const Spec& s)
{
	return os << dimName(s.dim) << " " << s.w << "x" << s.h << " depth=" << s.depth << " mips=" <<
		s.mips << " " << csName(s.cs);
}

// Shapes where a size no longer fits into a byte, a row spans many jobs, or layers abound.
inline void genBigShape(Src& s, Spec& r)
{
	auto log = [&s](unsigned int lo, unsigned int hi)
	{
		return unsigned(std::exp(std::log(double(lo)) + std::log(double(hi)/lo)*double(s.draw(1025))/1024));
	};
	switch (s.draw(4))
	{
		case 0:
		case 1:
		{
			// Long and thin.
			unsigned int n = s.draw(8) == 7 ? 65530 + unsigned(s.draw(4000)) : log(100, 8000);
			if (r.dim == TD::Cube)
				n = log(40, 100);
			unsigned int t = n > 20000 ? 1 : 1 + unsigned(s.draw(3));
			r.w = n;
			r.h = r.dim == TD::Cube ? n : r.dim == TD::Dim1D ? 1 : t;
			if (r.dim != TD::Cube && r.dim != TD::Dim1D && s.draw(2))
				std::swap(r.w, r.h);
			r.depth = r.dim == TD::Dim3D ? 1 : unsigned(s.draw(3))*(n < 3000);
			break;
		}
		case 2:
			// Many layers or slices.
			r.depth = s.draw(5) == 4 ? log(700, 2500) : log(20, 700);
			r.w = 1 + unsigned(s.draw(4));
			r.h = r.dim == TD::Cube ? r.w : r.dim == TD::Dim1D ? 1 : 1 + unsigned(s.draw(4));
			if (r.dim == TD::Cube)
				r.depth = log(20, 100);
			break;
		default:
			r.w = log(40, 300);
			r.h = r.dim == TD::Cube ? (r.w = std::min(r.w, 90u)) : r.dim == TD::Dim1D ? 1 :
				std::min(log(40, 300), 20000/r.w);
			r.depth = r.dim == TD::Dim3D ? 1 + unsigned(s.draw(2)) : 0;
			break;
	}
	s.label("big");
}

inline Spec genSpec(Src& s, unsigned int maxPixels, int colorSpace = 0, unsigned int bigEvery = 0,
	unsigned int hugeEvery = 0)
{
	Spec r;
	r.dim = TD(s.draw(4));
	bool huge = hugeEvery && s.draw(hugeEvery) == hugeEvery - 1;
	bool big = huge || (bigEvery && s.draw(bigEvery) == bigEvery - 1);
	if (huge)
	{
		// More batches of 32 pixels than 16 bits can count.
		r.dim = TD::Dim2D;
		r.w = 2050 + unsigned(s.draw(100));
		r.h = 1025 + unsigned(s.draw(30));
		s.label("huge");
	}
	else if (big)
		genBigShape(s, r);
	else if (r.dim == TD::Dim3D)
	{
		r.depth = 1 + unsigned(s.draw(9));
		if (maxPixels >= 900 && s.draw(10) == 9)
			r.depth = 10 + unsigned(s.draw(150));
	}
	else if (s.draw(2))
		r.depth = 1 + unsigned(s.draw(5));
	unsigned int layers = std::max(r.depth, 1u)*r.faces();
	unsigned int budget = std::max(maxPixels/layers, 4u);
	unsigned int maxDim = std::max(1u, unsigned(std::sqrt(double(budget))));
	if (big)
		;
	else if (r.dim == TD::Dim1D)
		r.w = 1 + unsigned(s.draw(std::min(budget, 200u)));
	else if (r.dim == TD::Cube)
		r.w = r.h = genDim(s, maxDim);
	else if (s.draw(6) == 5)
	{
		// Long and thin.
		unsigned int n = 1 + unsigned(s.draw(std::min(budget/2, 300u)));
		unsigned int t = 1 + unsigned(s.draw(2));
		r.w = s.draw(2) ? n : t;
		r.h = r.w == n ? t : n;
	}
	else
	{
		r.w = genDim(s, maxDim);
		r.h = genDim(s, maxDim);
	}
	unsigned int full = refMaxMips(r.dim, r.w, r.h, r.depth);
	r.mips = huge ? 1 : 1 + unsigned(s.draw(full));
	if (colorSpace < 0)
		r.cs = s.draw(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	else
		r.cs = ColorSpace(colorSpace);
	s.label(std::string("dim:") + dimName(r.dim));
	if (r.dim != TD::Dim3D && r.depth > 0)
		s.label("array");
	if (r.mips > 1)
		s.label("mips");
	return r;
}

struct SurfIdx {unsigned int mip, layer, face;};

template <typename F>
void forSurfaces(const Spec& s, F f)
{
	for (unsigned int m = 0; m < s.mips; ++m)
	{
		for (unsigned int l = 0; l < s.layers(m); ++l)
		{
			for (unsigned int c = 0; c < s.faces(); ++c)
				f(SurfIdx{m, l, c});
		}
	}
}

inline std::string surfName(const SurfIdx& i)
{
	std::ostringstream os;
	os << "mip " << i.mip << " layer " << i.layer << " face " << i.face;
	return os.str();
}

//---------------------------------------------------------------------------------------------
// Content

inline float bitsToFloat(std::uint32_t b)
{
	float f;
	std::memcpy(&f, &b, 4);
	return f;
}

inline std::uint32_t floatToBits(float f)
{
	std::uint32_t b;
	std::memcpy(&b, &f, 4);
	return b;
}

inline double halfToDouble(std::uint32_t h)
{
	double sign = h & 0x8000 ? -1 : 1;
	std::uint32_t e = h >> 10 & 31, m = h & 1023;
	if (e == 0)
		return sign*std::ldexp(double(m), -24);
	if (e == 31)
		return m ? std::numeric_limits<double>::quiet_NaN() : sign*INFINITY;
	return sign*std::ldexp(double(m + 1024), int(e) - 25);
}

// A small unsigned float with 5 exponent bits and the given mantissa bits.
inline double ufloatToDouble(std::uint32_t v, int mantissaBits)
{
	std::uint32_t e = v >> mantissaBits, m = v & ((1u << mantissaBits) - 1);
	if (e == 0)
		return std::ldexp(double(m), -14 - mantissaBits);
	if (e == 31)
		return m ? std::numeric_limits<double>::quiet_NaN() : INFINITY;
	return std::ldexp(double(m + (1u << mantissaBits)), int(e) - 15 - mantissaBits);
}

struct Range {double lo, hi, scale;};

// Range of source values and the multiplier to codes.
inline Range codeRange(TT t, int bits)
{
	double all = std::ldexp(1.0, bits);
	switch (t)
	{
		case TT::UNorm: return Range{0, 1, all - 1};
		case TT::SNorm: return Range{-1, 1, all/2 - 1};
		case TT::UInt: return Range{0, all - 1, 1};
		case TT::Int: return Range{-all/2, all/2 - 1, 1};
		case TT::UFloat: return Range{0, 65000, 1};
		case TT::Float: return Range{-70000, 70000, 1};
	}
	return Range{0, 1, 1};
}

enum TexContent {TexUniform, TexMixed, TexCodes, TexUnique, TexContentCount};

inline float genValue(Rng& r, const Range& g, TT t, bool nan)
{
	bool fl = t == TT::Float || t == TT::UFloat;
	double codes = (g.hi - g.lo)*g.scale;
	switch (r.below(fl ? 16 : 12))
	{
		case 0: case 1: case 2:
			return fl ? float(r.unit()*4 - (t == TT::UFloat ? 0.5 : 2)) :
				float(g.lo + r.unit()*(g.hi - g.lo));
		case 3: case 4: // exact codes
			return float((g.lo*g.scale + std::floor(r.unit()*(codes + 1)))/g.scale);
		case 5: // just beside the boundary between two codes
		{
			double k = std::floor(r.unit()*codes) + 0.5;
			double eps = (double(r.below(3)) - 1)*std::ldexp(1.0, -int(4 + r.below(12)));
			return float((g.lo*g.scale + k + eps)/g.scale);
		}
		case 6: // out of range
			return r.below(2) ? float(g.lo - (g.hi - g.lo)*r.unit()*3) :
				float(g.hi + (g.hi - g.lo)*r.unit()*3);
		case 7:
		{
			const double v[] = {g.lo, g.hi, 0, -0.0, 1, -1, 0.5, g.hi/2};
			return float(v[r.below(8)]);
		}
		case 8: // any finite or infinite float
		{
			float v = bitsToFloat(std::uint32_t(r.next()));
			return v != v && !nan ? 0.25f : v;
		}
		case 9: return bitsToFloat(std::uint32_t(r.below(0x800000)) | (r.below(2) ? 0x80000000u : 0));
		case 10:
			if (nan && r.below(2))
				return bitsToFloat(0x7fc00000u | std::uint32_t(r.below(0x3fffff)) |
					(r.below(2) ? 0x80000000u : 0));
			return r.below(2) ? INFINITY : -INFINITY;
		case 11: return float(g.lo + std::floor(r.unit()*4)*(g.hi - g.lo)/3);
		case 12: // exact halves
		{
			double v = halfToDouble(std::uint32_t(r.below(0x10000)));
			return v != v ? 1.0f : float(v);
		}
		case 13: // between two halves
		{
			std::uint32_t h = std::uint32_t(r.below(0x7bff));
			double a = halfToDouble(h), b = halfToDouble(h + 1);
			const double w[] = {0.5, 0.49999, 0.50001, 0.25, 0.001, 0.999};
			double v = a + (b - a)*w[r.below(6)];
			return float(r.below(3) ? v : -v);
		}
		case 14: // around the largest halves and unsigned floats
		{
			const double v[] = {65504, 65519, 65520, 65521, 65024, 64512, 65408, 65536, 65472, 70000,
				65280, 64000, 131008, 65407, 65409};
			double x = v[r.below(15)] + (double(r.below(3)) - 1)*0.00390625;
			return float(r.below(4) ? x : -x);
		}
		default: // around the smallest
			return float((r.below(5) ? 1 : -1)*std::ldexp(1 + r.unit(), -int(9 + r.below(40))));
	}
}

inline void fillSurface(Image& img, TexContent content, Rng rng, const TexFmt& f, TT t, bool nan,
	std::uint32_t id)
{
	for (unsigned int y = 0; y < img.height(); ++y)
	{
		float* p = static_cast<float*>(img.scanline(y));
		CHECK_P(p, "null-scanline", "scanline(" << y << ") is null");
		for (unsigned int x = 0; x < img.width(); ++x, p += 4)
		{
			for (int c = 0; c < 4; ++c)
			{
				Range g = codeRange(t, f.width[c] ? f.width[c] : 8);
				switch (content)
				{
					case TexUniform:
						p[c] = float(g.lo + rng.unit()*(g.hi - g.lo));
						break;
					case TexMixed:
						p[c] = genValue(rng, g, t, nan);
						break;
					case TexCodes:
					{
						double codes = (g.hi - g.lo)*g.scale;
						p[c] = float((g.lo*g.scale + std::floor(rng.unit()*(codes + 1)))/g.scale);
						break;
					}
					default:
					{
						std::uint64_t u = ((std::uint64_t(id)*4099 + y)*4099 + x)*5 + c;
						p[c] = float(g.lo + double(pbt::mix64(u) >> 40)/16777216.0*(g.hi - g.lo));
						break;
					}
				}
			}
		}
	}
}

inline Texture makeTexture(const Spec& s)
{
	Texture t;
	CHECK_P(t.initialize(s.dim, s.w, s.h, s.depth, s.mips, s.cs), "texture-initialize",
		"initialize(" << s << ") failed");
	CHECK_P(t.mipLevelCount() == s.mips, "texture-mips", "mipLevelCount() is " <<
		t.mipLevelCount() << " for " << s);
	return t;
}

inline const Image& getSurface(const Texture& t, const SurfIdx& i)
{
	return t.dimension() == TD::Cube ? t.getImage(Texture::CubeFace(i.face), i.mip, i.layer) :
		t.getImage(i.mip, i.layer);
}

inline bool setSurface(Texture& t, const SurfIdx& i, Image&& img)
{
	return t.dimension() == TD::Cube ?
		t.setImage(std::move(img), Texture::CubeFace(i.face), i.mip, i.layer) :
		t.setImage(std::move(img), i.mip, i.layer);
}

inline const std::uint8_t* surfData(const Texture& t, const SurfIdx& i)
{
	return static_cast<const std::uint8_t*>(t.dimension() == TD::Cube ?
		t.data(Texture::CubeFace(i.face), i.mip, i.layer) : t.data(i.mip, i.layer));
}

inline std::size_t surfSize(const Texture& t, const SurfIdx& i)
{
	return t.dimension() == TD::Cube ? t.dataSize(Texture::CubeFace(i.face), i.mip, i.layer) :
		t.dataSize(i.mip, i.layer);
}

// Source floats of every surface, in forSurfaces() order.
typedef std::vector<std::vector<float>> Floats;

inline Floats fillTexture(Src& s, Texture& t, const Spec& spec, const TexFmt& f, TT type)
{
	Floats r;
	auto content = TexContent(s.draw(TexContentCount));
	bool nan = content == TexMixed && s.chance(15);
	std::uint32_t seed = s.seed32();
	static const char* names[] = {"uniform", "mixed", "codes", "unique"};
	s.note << " content=" << names[content] << (nan ? "+nan" : "") << "#" << seed;
	s.label(std::string("content:") + names[content]);
	std::uint32_t id = 0;
	forSurfaces(spec, [&](const SurfIdx& i)
		{
			unsigned int w = refLevelSize(spec.w, i.mip), h = refLevelSize(spec.h, i.mip);
			Image img(IF::RGBAF, w, h, spec.cs);
			CHECK_P(img, "image-initialize", "RGBAF " << w << "x" << h << " failed");
			fillSurface(img, content, Rng(pbt::hash2(seed, id)), f, type, nan, seed + id);
			++id;
			std::vector<float> v;
			v.reserve(std::size_t(w)*h*4);
			for (unsigned int y = 0; y < h; ++y)
			{
				const float* p = static_cast<const float*>(img.scanline(y));
				v.insert(v.end(), p, p + w*4);
			}
			r.push_back(std::move(v));
			CHECK_P(setSurface(t, i, std::move(img)), "set-image", "setImage(" << surfName(i) <<
				") refused a matching image for " << spec);
		});
	CHECK_P(t.imagesComplete(), "images-complete", "not complete with all images set: " << spec);
	return r;
}

struct ConvertArgs
{
	Texture::Quality quality = Texture::Quality::Normal;
	Texture::Alpha alpha = Texture::Alpha::Standard;
	Texture::ColorMask mask;
	unsigned int threads = 1;
};

inline std::ostream& operator<<(std::ostream& os, const ConvertArgs& a)
{
	return os << " quality=" << int(a.quality) << " alpha=" << int(a.alpha) << " mask=" <<
		a.mask.r << a.mask.g << a.mask.b << a.mask.a << " threads=" << a.threads;
}

inline ConvertArgs genConvertArgs(Src& s)
{
	ConvertArgs a;
	a.quality = Texture::Quality(s.draw(5));
	a.alpha = Texture::Alpha(s.draw(4));
	if (s.draw(3) == 2)
	{
		unsigned int m = unsigned(s.draw(16));
		a.mask = Texture::ColorMask(!(m & 1), !(m & 2), !(m & 4), !(m & 8));
	}
	static const std::vector<unsigned int> threads = {1, 0, 2, 3, 4, 8, 17, Texture::allCores};
	a.threads = s.pick(threads);
	s.note << a;
	return a;
}

inline bool convertWith(Texture& t, TF f, TT type, const ConvertArgs& a)
{
	return t.convert(f, type, a.quality, a.alpha, a.mask, a.threads);
}

//---------------------------------------------------------------------------------------------
// Reference encoding

inline std::uint64_t bitField(const std::uint8_t* p, int offset, int width)
{
	std::uint64_t v = 0;
	for (int i = 0; i < width; ++i)
	{
		int b = offset + i;
		v |= std::uint64_t(p[b >> 3] >> (b & 7) & 1) << i;
	}
	return v;
}

// Nearest half, ties to even, by integer arithmetic on the float's bits.
inline std::uint32_t refHalf(float f)
{
	std::uint32_t b = floatToBits(f);
	std::uint32_t sign = b >> 16 & 0x8000, mag = b & 0x7fffffff;
	if (mag > 0x7f800000)
		return sign | 0x7e00;
	double v = std::abs(double(f));
	if (v == 0)
		return sign;
	if (v >= 65520)
		return sign | 0x7c00;
	int e;
	std::frexp(v, &e);
	e = std::max(e - 1, -14);
	double q = std::ldexp(v, 10 - e); // exact
	double fl = std::floor(q), frac = q - fl;
	std::uint32_t m = std::uint32_t(fl);
	if (frac > 0.5 || (frac == 0.5 && (m & 1)))
		++m;
	// m carries the implicit bit when normal; carries propagate into the exponent.
	return sign | ((m >= 1024 || e > -14) ? (std::uint32_t(e + 14) << 10) + m : m);
}

struct Where
{
	SurfIdx i;
	std::size_t j;
	unsigned int w, h;
	const TexFmt* f;
	TT t;
};

inline std::ostream& operator<<(std::ostream& os, const Where& p)
{
	return os << surfName(p.i) << " pixel (" << p.j%p.w << "," << p.j/p.w << ") of " << p.w << "x" <<
		p.h << " " << p.f->name << " " << typeName(p.t);
}

// Throws when the stored pixel isn't the encoding of the source colour.
inline void checkPixel(const TexFmt& f, TT t, const float* src, const std::uint8_t* p,
	const Where& where)
{
	if (f.f == TF::E5B9G9R9_UFloat)
	{
		double c[3], maxc = 0;
		for (int i = 0; i < 3; ++i)
		{
			c[i] = src[i] > 0 ? std::min(double(src[i]), 65408.0) : 0; // NaN is 0
			maxc = std::max(maxc, c[i]);
		}
		int e = -16;
		if (maxc > 0)
		{
			int x;
			std::frexp(maxc, &x);
			e = std::max(x - 1, -16);
		}
		int shared = e + 16;
		if (std::floor(std::ldexp(maxc, 24 - shared) + 0.5) == 512)
			++shared;
		double quantum = std::ldexp(1.0, shared - 24);
		double scale = std::ldexp(1.0, int(bitField(p, 27, 5)) - 24);
		for (int i = 0; i < 3; ++i)
		{
			double d = double(bitField(p, f.offset[i], 9))*scale;
			bool exact = std::floor(c[i]/quantum) == c[i]/quantum;
			CHECK_P(exact ? d == c[i] : std::abs(d - c[i]) < quantum*(1 + 1e-6),
				std::string("encoding-") + f.name, where << ": channel " << i << " of (" << src[0] <<
				"," << src[1] << "," << src[2] << ") is stored as " << d << ", not next to " << c[i] <<
				" (step " << quantum << ")");
		}
		return;
	}

	for (int c = 0; c < 4; ++c)
	{
		if (!f.width[c])
			continue;
		int bits = f.width[c];
		std::uint64_t code = bitField(p, f.offset[c], bits);
		double v = src[c];
		auto fail = [&](const char* what)
		{
			std::string key = std::string("encoding-") + f.name + "-" + typeName(t);
			std::ostringstream os;
			os.precision(10);
			os << where << ": channel " << c << " holds code " << code << " for source value " << v <<
				" (" << what << ")";
			pbt::failCase(key, os.str());
		};
		if (t == TT::UFloat)
		{
			int mant = bits - 5;
			std::uint32_t maxFinite = (30u << mant) | ((1u << mant) - 1);
			double d = ufloatToDouble(std::uint32_t(code), mant);
			if (v != v)
				continue;
			if (d != d)
				fail("not a number");
			v = v > 0 ? v : 0;
			double top = ufloatToDouble(maxFinite, mant);
			if (v > top)
			{
				if (code != maxFinite && !(code == maxFinite + 1 && std::isinf(v)))
					fail("too large values clamp to the largest finite one");
				continue;
			}
			// Neighbours of v: find the largest code at or below it.
			std::uint32_t lo = 0, hi = maxFinite;
			while (lo < hi)
			{
				std::uint32_t mid = (lo + hi + 1)/2;
				if (ufloatToDouble(mid, mant) <= v)
					lo = mid;
				else
					hi = mid - 1;
			}
			if (ufloatToDouble(lo, mant) == v ? code != lo : code != lo && code != lo + 1)
				fail("not next to the value");
			continue;
		}
		if (t == TT::Float && bits == 16)
		{
			std::uint32_t want = refHalf(src[c]);
			if (v != v)
			{
				if ((code & 0x7c00) != 0x7c00 || !(code & 0x3ff))
					fail("NaN isn't kept");
			}
			else if (code != want && !(v == 0 && (code & 0x7fff) == 0))
				fail("not the nearest half");
			continue;
		}
		if (t == TT::Float)
		{
			float stored = bitsToFloat(std::uint32_t(code));
			if (v != v ? stored == stored : !(stored == src[c]))
				fail("not the same float");
			continue;
		}
		if (v != v)
			continue; // no code represents NaN
		Range g = codeRange(t, bits);
		double want = clampd(v, g.lo, g.hi)*g.scale;
		double have = double(code);
		if ((t == TT::SNorm || t == TT::Int) && code >> (bits - 1))
			have -= std::ldexp(1.0, bits);
		double tol = t == TT::UNorm || t == TT::SNorm ? g.scale*3e-7 + 1e-6 : 1e-6;
		if (std::abs(have - want) > 0.5 + tol)
			fail("not the nearest code");
	}
}

// Checks every surface of a converted texture against the source colours. Returns pixels checked.
inline std::uint64_t checkConverted(const Texture& t, const Spec& spec, const TexFmt& f, TT type,
	const Floats& src)
{
	std::uint64_t n = 0;
	std::size_t k = 0;
	forSurfaces(spec, [&](const SurfIdx& i)
		{
			unsigned int w = refLevelSize(spec.w, i.mip), h = refLevelSize(spec.h, i.mip);
			std::size_t size = std::size_t(w)*h*f.bytes;
			CHECK_P(surfSize(t, i) == size, "data-size", surfName(i) << " of " << spec << " as " <<
				f.name << " has " << surfSize(t, i) << " bytes, not " << size);
			const std::uint8_t* p = surfData(t, i);
			CHECK_P(p, "data-null", surfName(i) << " has no data");
			const std::vector<float>& v = src[k++];
			for (std::size_t j = 0; j < std::size_t(w)*h; ++j)
			{
				checkPixel(f, type, &v[j*4], p + j*f.bytes, Where{i, j, w, h, &f, type});
				++n;
			}
		});
	return n;
}

inline std::vector<std::uint8_t> surfBytes(const Texture& t, const SurfIdx& i)
{
	const std::uint8_t* p = surfData(t, i);
	return p ? std::vector<std::uint8_t>(p, p + surfSize(t, i)) : std::vector<std::uint8_t>();
}

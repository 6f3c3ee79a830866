// Shared generators, snapshots and reference arithmetic for images and textures.
#pragma once
#include "engine.h"
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
#include <cuttlefish/Color.h>
#include <cmath>
#include <cstring>
#include <limits>

using namespace cuttlefish;
using pbt::Src;
using pbt::Rng;

typedef Image::Format IF;
typedef Texture::Format TF;
typedef Texture::Type TT;
typedef Texture::Dimension TD;

enum class Kind {UNorm, Raw, Float};

struct FmtInfo
{
	IF f;
	const char* name;
	int channels;      // stored colour channels (1, 2 for complex, 3, 4)
	Kind kind;
	unsigned int bytes; // per pixel
	double maxv[4];    // max code for UNorm; max value for Raw
	double minv;       // min value for Raw
	bool gray;         // written as luminance by default
};

inline const std::vector<FmtInfo>& allFormats()
{
	static const std::vector<FmtInfo> v =
	{
		{IF::Gray8, "Gray8", 1, Kind::UNorm, 1, {255, 255, 255, 255}, 0, true},
		{IF::Gray16, "Gray16", 1, Kind::UNorm, 2, {65535, 65535, 65535, 65535}, 0, true},
		{IF::RGB5, "RGB5", 3, Kind::UNorm, 2, {31, 31, 31, 1}, 0, false},
		{IF::RGB565, "RGB565", 3, Kind::UNorm, 2, {31, 63, 31, 1}, 0, false},
		{IF::RGB8, "RGB8", 3, Kind::UNorm, 3, {255, 255, 255, 1}, 0, false},
		{IF::RGB16, "RGB16", 3, Kind::UNorm, 6, {65535, 65535, 65535, 1}, 0, false},
		{IF::RGBF, "RGBF", 3, Kind::Float, 12, {0, 0, 0, 0}, 0, false},
		{IF::RGBA8, "RGBA8", 4, Kind::UNorm, 4, {255, 255, 255, 255}, 0, false},
		{IF::RGBA16, "RGBA16", 4, Kind::UNorm, 8, {65535, 65535, 65535, 65535}, 0, false},
		{IF::RGBAF, "RGBAF", 4, Kind::Float, 16, {0, 0, 0, 0}, 0, false},
		{IF::Int16, "Int16", 1, Kind::Raw, 2, {32767, 0, 0, 0}, -32768, false},
		{IF::UInt16, "UInt16", 1, Kind::Raw, 2, {65535, 0, 0, 0}, 0, false},
		{IF::Int32, "Int32", 1, Kind::Raw, 4, {2147483647.0, 0, 0, 0}, -2147483648.0, false},
		{IF::UInt32, "UInt32", 1, Kind::Raw, 4, {4294967295.0, 0, 0, 0}, 0, false},
		{IF::Float, "Float", 1, Kind::Float, 4, {0, 0, 0, 0}, 0, true},
		{IF::Double, "Double", 1, Kind::Float, 8, {0, 0, 0, 0}, 0, true},
		{IF::Complex, "Complex", 2, Kind::Float, 16, {0, 0, 0, 0}, 0, false},
	};
	return v;
}

inline const FmtInfo& fmt(IF f)
{
	for (const FmtInfo& i : allFormats())
	{
		if (i.f == f)
			return i;
	}
	pbt::failCase("invalid-format", "image reports an unknown format");
}

inline const char* csName(ColorSpace cs) {return cs == ColorSpace::sRGB ? "sRGB" : "Linear";}

struct Px
{
	double c[4];
	bool operator==(const Px& o) const {return std::memcmp(c, o.c, sizeof(c)) == 0 || (
		c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2] && c[3] == o.c[3]);}
};

inline std::ostream& operator<<(std::ostream& os, const Px& p)
{
	return os << "(" << p.c[0] << "," << p.c[1] << "," << p.c[2] << "," << p.c[3] << ")";
}

struct Snap
{
	IF format = IF::Invalid;
	ColorSpace cs = ColorSpace::Linear;
	unsigned int w = 0, h = 0;
	std::vector<Px> px;
	const Px& at(unsigned int x, unsigned int y) const {return px[std::size_t(y)*w + x];}
	Px& at(unsigned int x, unsigned int y) {return px[std::size_t(y)*w + x];}
};

inline Px getPx(const Image& img, unsigned int x, unsigned int y)
{
	ColorRGBAd c{-7, -7, -7, -7};
	CHECK_P(img.getPixel(c, x, y), "getPixel-failed", "getPixel(" << x << "," << y <<
		") refused on a " << img.width() << "x" << img.height() << " image");
	return Px{{c.r, c.g, c.b, c.a}};
}

inline Snap snap(const Image& img)
{
	Snap s;
	s.format = img.format();
	s.cs = img.colorSpace();
	s.w = img.width();
	s.h = img.height();
	s.px.reserve(std::size_t(s.w)*s.h);
	for (unsigned int y = 0; y < s.h; ++y)
		for (unsigned int x = 0; x < s.w; ++x)
			s.px.push_back(getPx(img, x, y));
	return s;
}

// Raw pixel bytes, top row first, without row padding.
inline std::vector<std::uint8_t> rawBytes(const Image& img)
{
	std::vector<std::uint8_t> r;
	if (!img)
		return r;
	std::size_t row = std::size_t(img.width())*img.bitsPerPixel()/8;
	r.reserve(row*img.height());
	for (unsigned int y = 0; y < img.height(); ++y)
	{
		const std::uint8_t* p = static_cast<const std::uint8_t*>(img.scanline(y));
		CHECK_P(p, "null-scanline", "scanline(" << y << ") is null for height " << img.height());
		r.insert(r.end(), p, p + row);
	}
	return r;
}

inline bool sameImage(const Image& a, const Image& b)
{
	if (a.isValid() != b.isValid())
		return false;
	if (!a.isValid())
		return true;
	return a.format() == b.format() && a.colorSpace() == b.colorSpace() &&
		a.width() == b.width() && a.height() == b.height() &&
		a.bitsPerPixel() == b.bitsPerPixel() && rawBytes(a) == rawBytes(b);
}

//---------------------------------------------------------------------------------------------
// Content generation

enum Content
{
	ContentConstant, ContentRandom, ContentExtremes, ContentGradient, ContentImpulse,
	ContentUnique, ContentHdr, ContentTiny, ContentCount
};

inline const char* contentName(int c)
{
	static const char* n[] = {"constant", "random", "extremes", "gradient", "impulse", "unique",
		"hdr", "tiny"};
	return n[c];
}

// Channel value in [0,1] for normalized kinds (possibly outside for hdr content of float formats)
inline double contentValue(int content, Rng& rng, unsigned int x, unsigned int y, unsigned int w,
	unsigned int h, int channel, double constant, std::uint64_t special)
{
	switch (content)
	{
		case ContentConstant: return constant;
		case ContentRandom: return rng.unit();
		case ContentExtremes: return double(rng.below(2));
		case ContentGradient:
		{
			double u = w > 1 ? double(x)/(w - 1) : 0, v = h > 1 ? double(y)/(h - 1) : 0;
			return channel == 0 ? u : channel == 1 ? v : channel == 2 ? (u + v)/2 : 1 - u*v/2;
		}
		case ContentImpulse: return (std::uint64_t(y)*w + x) == special ? 1.0 : 0.0;
		case ContentUnique:
		{
			std::uint64_t id = (std::uint64_t(y)*w + x)*4 + channel + special;
			return double((id*2654435761ull >> 8)%65536)/65535.0;
		}
		case ContentHdr: return (rng.unit()*2 - 0.5)*std::pow(2.0, double(rng.below(12)) - 3);
		case ContentTiny: return rng.unit()*0.02;
	}
	return 0;
}

struct ImgOpts
{
	std::vector<IF> formats;
	unsigned int maxDim = 24;
	bool hdr = true;        // allow out of [0,1] values in float formats
	int colorSpace = -1;    // -1 random, else fixed
	bool rawWide = false;   // raw formats: use the whole range
	int content = -1;
	unsigned int bigEvery = 0; // one image in so many is big
};

inline unsigned int genDim(Src& s, unsigned int maxDim)
{
	// Mostly small sizes, biased to the interesting edges.
	switch (s.draw(4))
	{
		case 0: return 1 + unsigned(s.draw(std::min(4u, maxDim)));
		case 1:
		{
			unsigned int p = 1u << s.draw(6);
			return std::min(p, maxDim);
		}
		default: return 1 + unsigned(s.draw(maxDim));
	}
}

inline void fillImage(Src& s, Image& img, const ImgOpts& o, std::ostream& note)
{
	const FmtInfo& fi = fmt(img.format());
	int content;
	if (o.content >= 0)
		content = o.content;
	else
	{
		content = int(s.draw(ContentCount));
		if (content == ContentHdr && (!o.hdr || fi.kind != Kind::Float))
			content = ContentRandom;
	}
	std::uint32_t seed = s.seed32();
	double constants[4];
	Rng crng(seed ^ 0xabcdu);
	for (double& c : constants)
		c = crng.below(5) == 0 ? 1.0 : crng.unit();
	Rng rng(seed);
	unsigned int w = img.width(), h = img.height();
	std::uint64_t special = content == ContentImpulse ? seed%(std::uint64_t(w)*h) : seed%4096;
	note << " content=" << contentName(content) << "#" << seed;
	for (unsigned int y = 0; y < h; ++y)
	{
		for (unsigned int x = 0; x < w; ++x)
		{
			double v[4];
			for (int c = 0; c < 4; ++c)
				v[c] = contentValue(content, rng, x, y, w, h, c, constants[c], special);
			if (fi.kind == Kind::Raw)
			{
				if (o.rawWide)
					v[0] = std::floor(fi.minv + v[0]*(fi.maxv[0] - fi.minv));
				else
				{
					double lo = std::max(fi.minv, -20000.0), hi = std::min(fi.maxv[0], 20000.0);
					v[0] = std::floor(lo + v[0]*(hi - lo));
				}
			}
			if (!img.setPixel(x, y, ColorRGBAd(v[0], v[1], v[2], v[3]), false))
			{
				pbt::failCase("setPixel-failed", "setPixel refused an in-range coordinate");
			}
		}
	}
}

inline Image genImage(Src& s, const ImgOpts& o, unsigned int w = 0, unsigned int h = 0)
{
	IF f;
	if (o.formats.empty())
		f = allFormats()[s.strat(allFormats().size())].f;
	else
		f = o.formats[s.strat(o.formats.size())];
	if (w == 0 && h == 0 && o.bigEvery && s.draw(o.bigEvery) == o.bigEvery - 1)
	{
		auto log = [&s](unsigned int lo, unsigned int hi)
		{
			return unsigned(std::exp(std::log(double(lo)) + std::log(double(hi)/lo)*
				double(s.draw(1025))/1024));
		};
		if (s.draw(4) == 3)
		{
			w = log(40, 400);
			h = std::min(log(40, 400), std::max(20000/w, 1u));
		}
		else
		{
			w = s.draw(8) == 7 ? 65530 + unsigned(s.draw(3000)) : log(100, 8000);
			h = w > 20000 ? 1 : 1 + unsigned(s.draw(3));
			if (s.draw(2))
				std::swap(w, h);
		}
		s.label("big");
	}
	else if (w == 0 && h == 0 && o.bigEvery && s.draw(24) == 23)
	{
		// No more pixels than usual, but a side that doesn't fit into 6 to 8 bits.
		w = 40 + unsigned(s.draw(s.draw(2) ? 100 : 270));
		h = 1 + unsigned(s.draw(6));
		if (s.draw(2))
			std::swap(w, h);
		s.label("long");
	}
	if (w == 0)
		w = genDim(s, o.maxDim);
	if (h == 0)
		h = genDim(s, o.maxDim);
	ColorSpace cs = o.colorSpace >= 0 ? ColorSpace(o.colorSpace) :
		s.draw(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	s.note << " image(" << fmt(f).name << " " << w << "x" << h << " " << csName(cs);
	Image img;
	CHECK_P(img.initialize(f, w, h, cs), "image-initialize", "initialize(" << fmt(f).name << ", " <<
		w << ", " << h << ") failed");
	fillImage(s, img, o, s.note);
	s.note << ")";
	s.label(std::string("fmt:") + fmt(f).name);
	return img;
}

inline std::vector<IF> formatsWhere(bool (*pred)(const FmtInfo&))
{
	std::vector<IF> r;
	for (const FmtInfo& f : allFormats())
	{
		if (pred(f))
			r.push_back(f.f);
	}
	return r;
}

inline bool nonConstant(const Snap& s)
{
	for (const Px& p : s.px)
	{
		if (!(p == s.px[0]))
			return true;
	}
	return false;
}

//---------------------------------------------------------------------------------------------
// Reference arithmetic (independent of the library's Color.h)

inline double refToLinear(double c)
{
	return c <= 0.04045 ? c/12.92 : std::pow((c + 0.055)/1.055, 2.4);
}

inline double refToSRGB(double c)
{
	return c <= 0.0031308 ? c*12.92 : 1.055*std::pow(c, 1/2.4) - 0.055;
}

inline double refLuma(double r, double g, double b)
{
	return 0.2126*r + 0.7152*g + 0.0722*b;
}

inline double clampd(double v, double lo, double hi) {return v < lo ? lo : v > hi ? hi : v;}

// Half a quantum (the largest error of rounding) of a stored channel.
inline double halfQuantum(const FmtInfo& f, int channel, double value)
{
	switch (f.kind)
	{
		case Kind::UNorm: return channel >= f.channels && !(f.channels == 1 && channel < 3) ? 0 :
			0.5/f.maxv[channel];
		case Kind::Raw: return 1.0;
		case Kind::Float:
			if (f.f == IF::Double || f.f == IF::Complex)
				return std::abs(value)*1e-15 + 1e-300;
			return std::abs(value)*6e-8 + 1e-44;
	}
	return 0;
}

// The value the format can represent nearest to v (for one channel), clamped.
inline double quantize(const FmtInfo& f, int channel, double v)
{
	switch (f.kind)
	{
		case Kind::UNorm: return std::round(clampd(v, 0, 1)*f.maxv[channel])/f.maxv[channel];
		case Kind::Raw: return std::trunc(clampd(v, f.minv, f.maxv[0]));
		case Kind::Float:
			if (f.f == IF::Double || f.f == IF::Complex)
				return v;
			return double(float(v));
	}
	return v;
}

// Image pixel read-back of an ideal colour written without luminance conversion.
inline Px storedPx(const FmtInfo& f, const Px& in)
{
	Px o;
	if (f.channels == 1)
	{
		o.c[0] = o.c[1] = o.c[2] = quantize(f, 0, in.c[0]);
		o.c[3] = 1;
	}
	else if (f.channels == 2)
	{
		o.c[0] = in.c[0];
		o.c[1] = in.c[1];
		o.c[2] = 0;
		o.c[3] = 1;
	}
	else
	{
		for (int c = 0; c < 3; ++c)
			o.c[c] = quantize(f, c, in.c[c]);
		o.c[3] = f.channels == 4 ? quantize(f, 3, in.c[3]) : 1.0;
	}
	return o;
}

inline void fillBytes(Src& s, std::vector<std::uint8_t>& v)
{
	Rng r(s.seed32());
	for (auto& b : v)
		b = std::uint8_t(r.next());
}

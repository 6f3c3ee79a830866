// C31: block compression, with stand-ins for the encoders. C32: files of compressed textures.
#include "../common.h"
#include "standin.h"
#include "../fault.h"
#include <algorithm>
#include <sstream>
#include <thread>
#include <mutex>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
typedef Texture::Dimension TD;
typedef Texture::Quality TQ;
typedef Texture::Alpha TA;

namespace
{

enum Values {Bytes, SignedBytes, UnitFloats, SignedFloats, Halves, SignedHalves, HdrFloats};

struct Fmt
{
	TF f;
	const char* name;
	TT type;
	unsigned int w, h, size;
	bool srgb;
	Values values;
	// File formats: OpenGL, OpenGL for sRGB, base format, DXGI (0: none), DXGI for sRGB, PVR, PVR
	// channel type.
	unsigned int gl, glSrgb, base, dxgi, dxgiSrgb, pvr, channel;
	bool alpha;
};

const unsigned int glRed = 0x1903, glRg = 0x8227, glRgb = 0x1907, glRgba = 0x1908;

// From the specifications of the compressed formats and the file types.
std::vector<Fmt> makeFormats()
{
	std::vector<Fmt> v =
	{
		{TF::BC1_RGB, "BC1_RGB", TT::UNorm, 4, 4, 8, true, Bytes, 0x83F0, 0x8C4C, glRgb, 71, 72, 7, 0, false},
		{TF::BC1_RGBA, "BC1_RGBA", TT::UNorm, 4, 4, 8, true, Bytes, 0x83F1, 0x8C4D, glRgba, 71, 72, 7, 0, true},
		{TF::BC2, "BC2", TT::UNorm, 4, 4, 16, true, Bytes, 0x83F2, 0x8C4E, glRgba, 74, 75, 9, 0, true},
		{TF::BC3, "BC3", TT::UNorm, 4, 4, 16, true, Bytes, 0x83F3, 0x8C4F, glRgba, 77, 78, 11, 0, true},
		{TF::BC4, "BC4", TT::UNorm, 4, 4, 8, false, Bytes, 0x8DBB, 0, glRed, 80, 0, 12, 0, false},
		{TF::BC4, "BC4", TT::SNorm, 4, 4, 8, false, SignedBytes, 0x8DBC, 0, glRed, 81, 0, 12, 1, false},
		{TF::BC5, "BC5", TT::UNorm, 4, 4, 16, false, Bytes, 0x8DBD, 0, glRg, 83, 0, 13, 0, false},
		{TF::BC5, "BC5", TT::SNorm, 4, 4, 16, false, SignedBytes, 0x8DBE, 0, glRg, 84, 0, 13, 1, false},
		{TF::BC6H, "BC6H", TT::UFloat, 4, 4, 16, false, Halves, 0x8E8F, 0, glRgb, 95, 0, 14, 13, false},
		{TF::BC6H, "BC6H", TT::Float, 4, 4, 16, false, SignedHalves, 0x8E8E, 0, glRgb, 96, 0, 14, 12, false},
		{TF::BC7, "BC7", TT::UNorm, 4, 4, 16, true, Bytes, 0x8E8C, 0x8E8D, glRgba, 98, 99, 15, 0, true},
		{TF::ETC1, "ETC1", TT::UNorm, 4, 4, 8, false, UnitFloats, 0x8D64, 0, glRgb, 0, 0, 6, 0, false},
		{TF::ETC2_R8G8B8, "ETC2_R8G8B8", TT::UNorm, 4, 4, 8, true, UnitFloats, 0x9274, 0x9275, glRgb, 0, 0, 22, 0, false},
		{TF::ETC2_R8G8B8A1, "ETC2_R8G8B8A1", TT::UNorm, 4, 4, 8, true, UnitFloats, 0x9276, 0x9277, glRgba, 0, 0, 24, 0, true},
		{TF::ETC2_R8G8B8A8, "ETC2_R8G8B8A8", TT::UNorm, 4, 4, 16, true, UnitFloats, 0x9278, 0x9279, glRgba, 0, 0, 23, 0, true},
		{TF::EAC_R11, "EAC_R11", TT::UNorm, 4, 4, 8, false, UnitFloats, 0x9270, 0, glRed, 0, 0, 25, 4, false},
		{TF::EAC_R11, "EAC_R11", TT::SNorm, 4, 4, 8, false, SignedFloats, 0x9271, 0, glRed, 0, 0, 25, 5, false},
		{TF::EAC_R11G11, "EAC_R11G11", TT::UNorm, 4, 4, 16, false, UnitFloats, 0x9272, 0, glRg, 0, 0, 26, 4, false},
		{TF::EAC_R11G11, "EAC_R11G11", TT::SNorm, 4, 4, 16, false, SignedFloats, 0x9273, 0, glRg, 0, 0, 26, 5, false},
		{TF::PVRTC1_RGB_2BPP, "PVRTC1_RGB_2BPP", TT::UNorm, 8, 4, 8, true, Bytes, 0x8C01, 0x8A54, glRgb, 0, 0, 0, 0, false},
		{TF::PVRTC1_RGBA_2BPP, "PVRTC1_RGBA_2BPP", TT::UNorm, 8, 4, 8, true, Bytes, 0x8C03, 0x8A56, glRgba, 0, 0, 1, 0, true},
		{TF::PVRTC1_RGB_4BPP, "PVRTC1_RGB_4BPP", TT::UNorm, 4, 4, 8, true, Bytes, 0x8C00, 0x8A55, glRgb, 0, 0, 2, 0, false},
		{TF::PVRTC1_RGBA_4BPP, "PVRTC1_RGBA_4BPP", TT::UNorm, 4, 4, 8, true, Bytes, 0x8C02, 0x8A57, glRgba, 0, 0, 3, 0, true},
		{TF::PVRTC2_RGBA_2BPP, "PVRTC2_RGBA_2BPP", TT::UNorm, 8, 4, 8, true, Bytes, 0x9137, 0x93F0, glRgba, 0, 0, 4, 0, true},
		{TF::PVRTC2_RGBA_4BPP, "PVRTC2_RGBA_4BPP", TT::UNorm, 4, 4, 8, true, Bytes, 0x9138, 0x93F1, glRgba, 0, 0, 5, 0, true},
	};
	struct Astc {TF f; const char* name; unsigned int w, h;};
	const Astc astc[] = {{TF::ASTC_4x4, "ASTC_4x4", 4, 4}, {TF::ASTC_5x4, "ASTC_5x4", 5, 4},
		{TF::ASTC_5x5, "ASTC_5x5", 5, 5}, {TF::ASTC_6x5, "ASTC_6x5", 6, 5}, {TF::ASTC_6x6, "ASTC_6x6", 6, 6},
		{TF::ASTC_8x5, "ASTC_8x5", 8, 5}, {TF::ASTC_8x6, "ASTC_8x6", 8, 6}, {TF::ASTC_8x8, "ASTC_8x8", 8, 8},
		{TF::ASTC_10x5, "ASTC_10x5", 10, 5}, {TF::ASTC_10x6, "ASTC_10x6", 10, 6},
		{TF::ASTC_10x8, "ASTC_10x8", 10, 8}, {TF::ASTC_10x10, "ASTC_10x10", 10, 10},
		{TF::ASTC_12x10, "ASTC_12x10", 12, 10}, {TF::ASTC_12x12, "ASTC_12x12", 12, 12}};
	for (unsigned int i = 0; i < 14; ++i)
	{
		const Astc& a = astc[i];
		v.push_back({a.f, a.name, TT::UNorm, a.w, a.h, 16, true, UnitFloats, 0x93B0 + i, 0x93D0 + i, glRgba, 0, 0, 27 + i, 0, true});
		v.push_back({a.f, a.name, TT::UFloat, a.w, a.h, 16, false, HdrFloats, 0x93B0 + i, 0, glRgba, 0, 0, 27 + i, 13, true});
	}
	return v;
}

const std::vector<Fmt>& formats()
{
	static const std::vector<Fmt> v = makeFormats();
	return v;
}

bool isPvrtc(const Fmt& f) {return f.f >= TF::PVRTC1_RGB_2BPP;}
bool isAstc(const Fmt& f) {return f.f >= TF::ASTC_4x4 && f.f <= TF::ASTC_12x12;}
bool isEtc(const Fmt& f) {return f.f >= TF::ETC1 && f.f <= TF::EAC_R11G11;}

double halfValue(unsigned int bits)
{
	int e = int(bits >> 10 & 31);
	double m = bits & 1023;
	double v = e == 0 ? std::ldexp(m, -24) : std::ldexp(1024 + m, e - 25);
	return bits & 0x8000 ? -v : v;
}

// A value of a pixel, exactly or close to one of the format's, so that there is only one way to
// round it. The code is what an encoder gets: a byte or the bits of a half float.
float makeValue(Values values, Rng& r, bool flat, std::uint16_t& code)
{
	switch (values)
	{
		case Bytes:
		{
			static const float outside[] = {-0.0f, -0.25f, 1.25f, -1e30f, 3e38f, -INFINITY, INFINITY};
			if (r.below(24) == 0)
			{
				float v = outside[r.below(7)];
				code = v > 0.5f ? 255 : 0;
				return v;
			}
			code = std::uint16_t(flat ? 64*r.below(4) + 63 : r.below(256));
			return float((code + (r.unit() - 0.5)*0.8)/255.0);
		}
		case SignedBytes:
		{
			static const float outside[] = {-0.0f, -1.25f, 1.25f, -1e30f, 3e38f, -INFINITY, INFINITY};
			if (r.below(24) == 0)
			{
				float v = outside[r.below(7)];
				code = std::uint8_t(v > 0.5f ? 127 : v < -0.5f ? -127 : 0);
				return v;
			}
			int c = int(r.below(255)) - 127;
			code = std::uint8_t(c);
			return float((c + (r.unit() - 0.5)*0.8)/127.0);
		}
		case UnitFloats:
			return float(r.below(1025)/1024.0);
		case SignedFloats:
			return float((double(r.below(2049)) - 1024)/1024.0);
		case Halves:
			code = std::uint16_t(r.below(0x7c00));
			return float(halfValue(code));
		case SignedHalves:
			code = std::uint16_t(r.below(0x7c00) | r.below(2) << 15);
			return float(halfValue(code));
		case HdrFloats:
			return float(r.below(2) ? r.below(1025)/1024.0 : r.below(65504));
	}
	return 0;
}

struct Surface
{
	unsigned int w, h;
	std::vector<float> v;              // r, g, b, a
	std::vector<std::uint16_t> codes;
};

struct Case
{
	const Fmt* fmt;
	TD dim;
	unsigned int w, h, depth, mips;
	ColorSpace space;
	TA alpha;
	bool mask[4];
	TQ quality;
	unsigned int threads;
	std::uint32_t seed;
	bool flat, opaque;
};

Case makeCase(Src& src, const Fmt& f, unsigned int maxSize, unsigned int maxThreads)
{
	Case c;
	c.fmt = &f;
	static const TD dims[] = {TD::Dim2D, TD::Dim2D, TD::Dim2D, TD::Cube, TD::Dim3D, TD::Dim1D};
	c.dim = dims[src.draw(6)];
	auto size = [&](unsigned int block)
	{
		unsigned int blocks = (maxSize + block - 1)/block;
		switch (src.draw(3))
		{
			case 0:
				return 1 + unsigned(src.draw(maxSize));
			case 1:
				return block*unsigned(1 + src.draw(blocks));
			default:
			{
				unsigned int v = block*unsigned(1 + src.draw(blocks)) + unsigned(src.draw(3));
				return v > 1 ? v - 1 : 1;
			}
		}
	};
	c.w = size(f.w);
	c.h = c.dim == TD::Dim1D ? 1 : size(f.h);
	if (c.dim == TD::Cube)
		c.h = c.w;
	c.depth = c.dim == TD::Dim3D ? unsigned(1 + src.draw(4)) : unsigned(src.draw(2)*src.draw(4));
	unsigned int most = Texture::maxMipmapLevels(c.dim, c.w, c.h, c.depth);
	c.mips = src.draw(2) ? 1 + unsigned(src.draw(most)) : 1;
	c.space = f.srgb && src.draw(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	c.alpha = TA(src.draw(4));
	bool masked = src.draw(3) == 2;
	for (bool& m : c.mask)
		m = !masked || src.draw(3) != 2;
	c.quality = TQ(src.draw(5));
	static const unsigned int threads[] = {1, 1, 2, 3, 8, 0};
	c.threads = std::min(threads[src.draw(6)], maxThreads);
	c.seed = src.seed32();
	c.flat = src.draw(4) == 3;
	c.opaque = src.draw(3) != 0;
	src.note << f.name << "/" << int(f.type) << " dim" << int(c.dim) << " " << c.w << "x" << c.h << "x" <<
		c.depth << " mips" << c.mips << (c.space == ColorSpace::sRGB ? " sRGB" : "") << " alpha" <<
		int(c.alpha) << " mask" << c.mask[0] << c.mask[1] << c.mask[2] << c.mask[3] << " q" <<
		int(c.quality) << " threads" << c.threads << "; ";
	return c;
}

// Key of a surface: face, level, layer or slice.
typedef std::vector<Surface> Surfaces;

unsigned int layers(const Case& c, unsigned int level)
{
	if (c.dim == TD::Dim3D)
		return std::max(c.depth >> level, 1u);
	return std::max(c.depth, 1u);
}

unsigned int faces(const Case& c) {return c.dim == TD::Cube ? 6 : 1;}

template <typename F>
void eachSurface(const Case& c, F func)
{
	std::size_t at = 0;
	for (unsigned int m = 0; m < c.mips; ++m)
	{
		for (unsigned int d = 0; d < layers(c, m); ++d)
		{
			for (unsigned int f = 0; f < faces(c); ++f)
				func(at++, Texture::CubeFace(f), m, d);
		}
	}
}

void fillTexture(const Case& c, Texture& t, Surfaces& s)
{
	CHECK_P(t.initialize(c.dim, c.w, c.h, c.depth, c.mips, c.space), "initialize", "initialize() failed");
	Rng r(c.seed);
	eachSurface(c, [&](std::size_t, Texture::CubeFace face, unsigned int mip, unsigned int depth)
		{
			Surface surface;
			surface.w = std::max(c.w >> mip, 1u);
			surface.h = std::max(c.h >> mip, 1u);
			Image image(IF::RGBAF, surface.w, surface.h, c.space);
			CHECK_P(image.isValid(), "image", "no image");
			bool opaqueSurface = c.opaque && r.below(2);
			for (unsigned int y = 0; y < surface.h; ++y)
			{
				auto line = static_cast<float*>(image.scanline(y));
				for (unsigned int x = 0; x < surface.w; ++x)
				{
					for (int i = 0; i < 4; ++i)
					{
						std::uint16_t code = 0;
						float v;
						if (i == 3 && (c.fmt->values == Halves || c.fmt->values == SignedHalves))
							v = 1;
						else if (i == 3 && opaqueSurface && r.below(40))
						{
							// Nearly always opaque, also in the least way.
							code = r.below(4) ? 255 : 128;
							v = code == 128 && r.below(2) ? 0.5f : code/255.0f;
						}
						else
							v = makeValue(c.fmt->values, r, c.flat, code);
						line[x*4 + i] = v;
						surface.v.push_back(v);
						surface.codes.push_back(code);
					}
				}
			}
			bool set = c.dim == TD::Cube ? t.setImage(image, face, mip, depth) :
				t.setImage(image, mip, depth);
			CHECK_P(set, "set-image", "setImage() failed");
			s.push_back(std::move(surface));
		});
}

bool matches(const std::uint8_t* data, std::size_t size, const char* tag, const void* payload,
	std::size_t length)
{
	std::uint8_t want[16];
	standin::digest(want, size, tag, payload, length);
	return std::memcmp(data, want, size) == 0;
}

// Checks one block of a surface. Returns what is wrong with it.
const char* checkBlock(const Case& c, const Surface& s, unsigned int bx, unsigned int by,
	const std::uint8_t* data)
{
	const Fmt& f = *c.fmt;
	unsigned int n = f.w*f.h;
	std::vector<std::uint8_t> byte(n*4);
	std::vector<float> value(n*4);
	std::vector<std::uint16_t> half(n*4);
	std::vector<bool> inside(n);
	for (unsigned int i = 0; i < n; ++i)
	{
		unsigned int x = bx*f.w + i%f.w, y = by*f.h + i/f.w;
		inside[i] = x < s.w && y < s.h;
		x = std::min(x, s.w - 1);
		y = std::min(y, s.h - 1);
		for (unsigned int k = 0; k < 4; ++k)
		{
			std::size_t at = (std::size_t(y)*s.w + x)*4 + k;
			byte[i*4 + k] = std::uint8_t(s.codes[at]);
			half[i*4 + k] = s.codes[at];
			value[i*4 + k] = s.v[at];
		}
	}
	auto channels = [&](const std::vector<std::uint8_t>& from, unsigned int first, unsigned int count)
	{
		std::vector<std::uint8_t> p;
		for (unsigned int i = 0; i < n; ++i)
		{
			for (unsigned int k = 0; k < count; ++k)
				p.push_back(from[i*4 + first + k]);
		}
		return p;
	};
	std::vector<std::uint8_t> rgb = channels(byte, 0, 3);
	switch (f.f)
	{
		case TF::BC1_RGB:
			for (const char* tag : {"bc1-any", "bc1-opaque", "bc1-4-color"})
			{
				if (matches(data, 8, tag, rgb.data(), rgb.size()))
					return nullptr;
			}
			return "color block";
		case TF::BC1_RGBA:
		{
			std::vector<std::uint8_t> p = byte;
			bool clear = false;
			for (unsigned int i = 0; i < n; ++i)
			{
				bool thisClear = byte[i*4 + 3] < 128;
				clear = clear || thisClear;
				for (unsigned int k = 0; k < 3; ++k)
				{
					if (thisClear || !c.mask[k])
						p[i*4 + k] = 0;
				}
				p[i*4 + 3] = thisClear ? 0 : 255;
			}
			if (matches(data, 8, "bc1-punch-through", p.data(), p.size()))
				return clear ? nullptr : "opaque block encoded with punch through alpha";
			if (clear)
				return "color block with transparent pixels";
			for (const char* tag : {"bc1-opaque", "bc1-4-color"})
			{
				if (matches(data, 8, tag, rgb.data(), rgb.size()))
					return nullptr;
			}
			return "color block without transparent pixels";
		}
		case TF::BC2:
			for (unsigned int i = 0; i < n; ++i)
			{
				int a = data[i/2] >> i%2*4 & 15;
				if (std::abs(a/15.0 - byte[i*4 + 3]/255.0) > 0.5/15 + 1e-6)
					return "alpha";
			}
			return matches(data + 8, 8, "bc1-4-color", rgb.data(), rgb.size()) ? nullptr : "color block";
		case TF::BC3:
			return matches(data, 16, "bc3", byte.data(), byte.size()) ? nullptr : "block";
		case TF::BC4:
		{
			std::vector<std::uint8_t> p = channels(byte, 0, 1);
			return matches(data, 8, f.type == TT::SNorm ? "bc4-signed" : "bc4", p.data(), p.size()) ?
				nullptr : "block";
		}
		case TF::BC5:
		{
			std::vector<std::uint8_t> p = channels(byte, 0, 1), q = channels(byte, 1, 1);
			p.insert(p.end(), q.begin(), q.end());
			return matches(data, 16, f.type == TT::SNorm ? "bc5-signed" : "bc5", p.data(), p.size()) ?
				nullptr : "block";
		}
		case TF::BC6H:
		{
			std::uint16_t p[48];
			for (unsigned int i = 0; i < 16; ++i)
			{
				for (unsigned int k = 0; k < 3; ++k)
				{
					std::uint16_t h = half[i*4 + k];
					p[i*3 + k] = h == 0x8000 ? 0 : h;
				}
			}
			return matches(data, 16, f.type == TT::Float ? "bc6-signed" : "bc6", p, sizeof(p)) ? nullptr :
				"block";
		}
		case TF::BC7:
		{
			std::vector<std::uint8_t> p = byte;
			for (unsigned int i = 0; i < n*4; ++i)
			{
				if (!c.mask[i%4])
					p[i] = 0;
			}
			return matches(data, 16, "bc7", p.data(), p.size()) ? nullptr : "block";
		}
		default:
			break;
	}
	std::vector<float> p;
	if (isEtc(f))
	{
		unsigned int count = f.f == TF::EAC_R11 ? 1 : f.f == TF::EAC_R11G11 ? 2 :
			f.f == TF::ETC1 || f.f == TF::ETC2_R8G8B8 ? 3 : 4;
		for (unsigned int i = 0; i < n; ++i)
		{
			for (unsigned int k = 0; k < count; ++k)
			{
				float v = value[i*4 + k];
				if (f.type == TT::SNorm)
					v = v*0.5f + 0.5f;
				p.push_back(inside[i] ? v == 0 ? 0 : v : -1000);
			}
		}
		const char* tag = f.f == TF::EAC_R11 ? (f.type == TT::SNorm ? "eac-r-signed" : "eac-r") :
			f.f == TF::EAC_R11G11 ? (f.type == TT::SNorm ? "eac-rg-signed" : "eac-rg") :
			f.f == TF::ETC1 ? "etc1" : f.f == TF::ETC2_R8G8B8 ? "etc-rgb" :
			f.f == TF::ETC2_R8G8B8A1 ? "etc-rgba1" : "etc-rgba";
		return matches(data, f.size, tag, p.data(), p.size()*sizeof(float)) ? nullptr : "block";
	}
	for (unsigned int i = 0; i < n*4; ++i)
	{
		float v = value[i];
		if (!c.mask[i%4])
			v = 0;
		else if (i%4 == 3 && c.alpha == TA::None)
			v = 1;
		p.push_back(v == 0 ? 0 : v);
	}
	std::string tag = "astc" + std::to_string(f.w) + "x" + std::to_string(f.h) +
		(f.type == TT::UFloat ? "hdr" : "ldr");
	return matches(data, 16, tag.c_str(), p.data(), p.size()*sizeof(float)) ? nullptr : "block";
}

// The whole surface, for PVRTC.
const char* checkPvrtc(const Case& c, const Surface& s, const std::uint8_t* data, std::size_t size)
{
	const Fmt& f = *c.fmt;
	static const char* tags[] = {"pvrtc-2-rgb", "pvrtc-2-rgba", "pvrtc-4-rgb", "pvrtc-4-rgba",
		"pvrtc2-2", "pvrtc2-4"};
	unsigned int k = f.pvr;
	std::vector<std::uint8_t> p;
	for (unsigned int v : {s.w, s.h})
	{
		for (int i = 0; i < 4; ++i)
			p.push_back(std::uint8_t(v >> i*8));
	}
	for (std::size_t i = 0; i < s.codes.size(); ++i)
	{
		if (i%4 != 3 || f.alpha)
			p.push_back(std::uint8_t(s.codes[i]));
	}
	std::vector<std::uint8_t> want(size);
	standin::digest(want.data(), size, tags[k], p.data(), p.size());
	return std::memcmp(data, want.data(), size) == 0 ? nullptr : "surface";
}

std::size_t surfaceSize(const Fmt& f, unsigned int w, unsigned int h)
{
	std::size_t x = (w + f.w - 1)/f.w, y = (h + f.h - 1)/f.h;
	if (isPvrtc(f))
	{
		std::size_t least = f.pvr < 4 ? 2 : 1;
		x = std::max(x, least);
		y = std::max(y, least);
	}
	return x*y*f.size;
}

void checkTexture(Src* src, const Case& c, const Surfaces& s, const Texture& t)
{
	CHECK_P(t.converted() && t.format() == c.fmt->f && t.type() == c.fmt->type, "state",
		"the texture isn't converted");
	eachSurface(c, [&](std::size_t at, Texture::CubeFace face, unsigned int mip, unsigned int depth)
		{
			auto data = static_cast<const std::uint8_t*>(c.dim == TD::Cube ? t.data(face, mip, depth) :
				t.data(mip, depth));
			std::size_t size = c.dim == TD::Cube ? t.dataSize(face, mip, depth) :
				t.dataSize(mip, depth);
			const Surface& surface = s[at];
			std::size_t want = surfaceSize(*c.fmt, surface.w, surface.h);
			CHECK_P(data && size == want, "size", "level " << mip << " of " << surface.w << "x" <<
				surface.h << " has " << size << " bytes, not " << want);
			if (isPvrtc(*c.fmt))
			{
				const char* wrong = checkPvrtc(c, surface, data, size);
				CHECK_P(!wrong, "content", "wrong " << wrong << " at level " << mip << " depth " << depth <<
					" face " << int(face));
				if (src)
					src->checks(1);
				return;
			}
			unsigned int columns = (surface.w + c.fmt->w - 1)/c.fmt->w;
			unsigned int rows = (surface.h + c.fmt->h - 1)/c.fmt->h;
			for (unsigned int y = 0; y < rows; ++y)
			{
				for (unsigned int x = 0; x < columns; ++x)
				{
					const char* wrong = checkBlock(c, surface, x, y, data + (y*columns + x)*c.fmt->size);
					CHECK_P(!wrong, "content", "wrong " << wrong << " at block " << x << ", " << y << " level " <<
						mip << " depth " << depth << " face " << int(face));
				}
			}
			if (src)
				src->checks(columns*rows);
		});
}

bool convert(const Case& c, Texture& t)
{
	return t.convert(c.fmt->f, c.fmt->type, c.quality, c.alpha,
		Texture::ColorMask(c.mask[0], c.mask[1], c.mask[2], c.mask[3]), c.threads);
}

} // namespace

namespace
{

// Every format is the first one that its encoder sees in some process.
void checkFirstUse()
{
	for (const Fmt& f : formats())
	{
		pid_t child = fork();
		if (child == 0)
		{
			standin::reset(false);
			Texture t(TD::Dim2D, 4, 4);
			Image image(IF::RGBAF, 4, 4);
			bool good = t.setImage(image) && t.convert(f.f, f.type, TQ::Normal, TA::Standard,
				Texture::ColorMask(), 1) && standin::misuse().empty();
			_exit(good ? 0 : 1);
		}
		int status = 0;
		CHECK_P(child > 0 && waitpid(child, &status, 0) == child, "fork", "no process");
		CHECK_P(WIFEXITED(status) && WEXITSTATUS(status) == 0, "first-use", "a conversion to " << f.name <<
			"/" << int(f.type) << " that is the first one of a process fails or uses an encoder before it is "
			"initialized");
	}
}

}

PROPERTY(C31, 24000, 500000,
	"Each case converts a texture (1D, 2D, 3D, cube, arrays, mip levels, sizes around multiples of the "
	"block size, any contents inside and outside of the range) to one of the 53 pairs of a block "
	"compressed format and type (enumerated) with stand-ins for the encoder libraries, which record what "
	"they are asked to encode; every block of every surface has to be the encoding of the pixels that it "
	"covers, with the right kind of encoder, whatever the number of threads. Some cases convert several "
	"textures at once, compare two qualities, or refuse to start threads. Non-trivial: a surface of "
	"several blocks with a partial one")
{
	static bool first = true;
	if (first)
	{
		first = false;
		checkFirstUse();
	}
	unsigned int mode = unsigned(src.draw(8));
	const Fmt& f = src.stratPick(formats());
	src.label(isPvrtc(f) ? "PVRTC" : isAstc(f) ? "ASTC" : isEtc(f) ? "ETC" : "S3TC");
	standin::reset(mode == 7);
	long options = standin::liveOptions();
	if (mode == 6)
	{
		// Several textures at once.
		src.label("concurrent");
		unsigned int n = 2 + unsigned(src.draw(2));
		std::vector<Case> cases;
		for (unsigned int i = 0; i < n; ++i)
			cases.push_back(makeCase(src, i == 0 || src.draw(2) ? f : src.pick(formats()), 24, 3));
		std::vector<Fail> failures(n);
		std::vector<char> failed(n, 0);
		std::vector<std::thread> threads;
		for (unsigned int i = 0; i < n; ++i)
		{
			threads.emplace_back([&, i]
				{
					try
					{
						Texture t;
						Surfaces s;
						fillTexture(cases[i], t, s);
						CHECK_P(convert(cases[i], t), "refused", "convert() failed");
						checkTexture(nullptr, cases[i], s, t);
					}
					catch (const Fail& e)
					{
						failures[i] = e;
						failed[i] = 1;
					}
				});
		}
		for (std::thread& t : threads)
			t.join();
		for (unsigned int i = 0; i < n; ++i)
		{
			if (failed[i])
				failCase(failures[i].key, failures[i].message);
		}
		src.nontrivial();
		src.checks(n);
	}
	else if (mode == 7)
	{
		// A higher quality never takes less effort.
		src.label("qualities");
		Case c = makeCase(src, f, 16, 1);
		c.threads = 1;
		std::vector<standin::Call> calls[2];
		unsigned int low = unsigned(src.draw(4)), high = low + 1 + unsigned(src.draw(4 - low));
		if (src.draw(2))
		{
			low = 0;
			high = 4;
		}
		for (int i = 0; i < 2; ++i)
		{
			standin::reset(true);
			c.quality = TQ(i ? high : low);
			Texture t;
			Surfaces s;
			fillTexture(c, t, s);
			CHECK_P(convert(c, t), "refused", "convert() failed");
			checkTexture(&src, c, s, t);
			calls[i] = standin::calls();
			for (const standin::Call& call : calls[i])
			{
				CHECK_P(!call.perceptual || c.space == ColorSpace::sRGB, "perceptual",
					"perceptual weights for a linear texture");
				CHECK_P(!call.alphaWeight || c.alpha == TA::Standard || c.alpha == TA::PreMultiplied,
					"alpha-weight", "colors weighted by alpha that isn't an opacity");
			}
		}
		CHECK_P(calls[0].size() == calls[1].size(), "quality", "another number of blocks");
		for (std::size_t i = 0; i < calls[0].size(); ++i)
		{
			CHECK_P(calls[0][i].effort <= calls[1][i].effort, "quality", "quality " << high <<
				" takes less effort than quality " << low);
			CHECK_P(low > 0 || high < 4 || calls[0][i].effort < calls[1][i].effort, "quality",
				"the highest quality takes as much effort as the lowest one");
		}
		src.nontrivial();
	}
	else
	{
		Case c = makeCase(src, f, 40, 8);
		Texture t;
		Surfaces s;
		fillTexture(c, t, s);
		// In some cases only the first few threads can be started.
		if (mode == 5)
		{
			src.label("threads refused");
			fault::threads().left = int(src.draw(3));
		}
		bool converted = convert(c, t);
		fault::threads().left = -1;
		CHECK_P(converted, "refused", "convert() failed");
		checkTexture(&src, c, s, t);
		for (const Surface& surface : s)
		{
			if ((surface.w > f.w || surface.h > f.h) && (surface.w%f.w || surface.h%f.h))
				src.nontrivial();
		}
	}
	std::string misuse = standin::misuse();
	CHECK_P(misuse.empty(), "misuse", misuse);
	CHECK_P(standin::liveOptions() == options, "leak", standin::liveOptions() - options <<
		" option objects of an encoder are left");
	long most = 3*long(std::thread::hardware_concurrency()) + 32;
	CHECK_P(standin::liveContexts() <= most, "leak", standin::liveContexts() << " contexts are left");
}

//---------------------------------------------------------------------------------------------

namespace
{

struct Writer
{
	std::vector<std::uint8_t> v;
	void u32(std::uint32_t x)
	{
		for (int i = 0; i < 4; ++i)
			v.push_back(std::uint8_t(x >> i*8));
	}
	void text(const char* s, std::size_t n) {v.insert(v.end(), s, s + n);}
};

std::uint32_t u32At(const std::vector<std::uint8_t>& v, std::size_t at)
{
	return at + 4 <= v.size() ? v[at] | v[at + 1] << 8 | v[at + 2] << 16 | std::uint32_t(v[at + 3]) << 24 :
		0xffffffffu;
}

void addSurface(std::vector<std::uint8_t>& v, const Texture& t, unsigned int face, unsigned int mip,
	unsigned int depth)
{
	bool cube = t.dimension() == TD::Cube;
	auto data = static_cast<const std::uint8_t*>(cube ? t.data(Texture::CubeFace(face), mip, depth) :
		t.data(mip, depth));
	std::size_t size = cube ? t.dataSize(Texture::CubeFace(face), mip, depth) : t.dataSize(mip, depth);
	v.insert(v.end(), data, data + size);
}

void comparePayload(const std::vector<std::uint8_t>& file, std::size_t at,
	const std::vector<std::uint8_t>& want, const char* what)
{
	CHECK_P(file.size() == at + want.size(), "file-size", what << " of " << file.size() <<
		" bytes, not " << at + want.size());
	for (std::size_t i = 0; i < want.size(); ++i)
		CHECK_P(file[at + i] == want[i], "file-data", what << " differs at byte " << at + i);
}

void checkDds(const Case& c, const Texture& t, const std::vector<std::uint8_t>& file)
{
	const Fmt& f = *c.fmt;
	bool volume = c.dim == TD::Dim3D, cube = c.dim == TD::Cube;
	auto field = [&](const char* name, std::size_t at, std::uint32_t want)
	{
		CHECK_P(u32At(file, at) == want, "dds-header", "DDS " << name << " is " << u32At(file, at) <<
			", not " << want);
	};
	field("magic", 0, 0x20534444);
	field("size", 4, 124);
	std::uint32_t flags = u32At(file, 8), pitch = u32At(file, 20);
	CHECK_P((flags & 0x1007) == 0x1007 && (flags & 0x20000), "dds-header", "DDS flags " << flags);
	CHECK_P(((flags & 0x800000) != 0) == volume, "dds-header", "DDS depth flag in " << flags);
	// The size of a row of blocks, or of the whole top level.
	std::uint32_t row = (c.w + f.w - 1)/f.w*f.size;
	CHECK_P(flags & 0x80000 ? pitch == surfaceSize(f, c.w, c.h) : !(flags & 8) || pitch == row,
		"dds-header", "DDS pitch or size " << pitch << " with flags " << flags);
	field("height", 12, c.h);
	field("width", 16, c.w);
	if (volume)
		field("depth", 24, c.depth);
	field("mip levels", 28, c.mips);
	field("pixel format size", 76, 32);
	field("pixel format flags", 80, 4);
	field("four CC", 84, 0x30315844);
	std::uint32_t caps = u32At(file, 108);
	CHECK_P((caps & 0x1000) && ((caps & 0x400000) != 0) == (c.mips > 1), "dds-header", "DDS caps " <<
		caps);
	field("caps2", 112, cube ? 0xfe00 : volume ? 0x200000 : 0);
	field("DXGI format", 128, c.space == ColorSpace::sRGB ? f.dxgiSrgb : f.dxgi);
	field("resource dimension", 132, c.dim == TD::Dim1D ? 2 : volume ? 4 : 3);
	field("misc flag", 136, cube ? 4 : 0);
	field("array size", 140, volume ? 1 : std::max(c.depth, 1u));
	static const std::uint32_t alphaModes[] = {3, 1, 2, 4};
	field("alpha mode", 144, f.alpha ? alphaModes[int(c.alpha)] : 3);
	std::vector<std::uint8_t> want;
	for (unsigned int layer = 0; layer < (volume ? 1 : std::max(c.depth, 1u)); ++layer)
	{
		for (unsigned int face = 0; face < faces(c); ++face)
		{
			for (unsigned int mip = 0; mip < c.mips; ++mip)
			{
				for (unsigned int slice = 0; slice < (volume ? layers(c, mip) : 1); ++slice)
					addSurface(want, t, face, mip, layer + slice);
			}
		}
	}
	comparePayload(file, 148, want, "DDS file");
}

void checkKtx(const Case& c, const Texture& t, const std::vector<std::uint8_t>& file)
{
	const Fmt& f = *c.fmt;
	bool volume = c.dim == TD::Dim3D;
	static const std::uint8_t magic[] = {0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A,
		0x0A};
	Writer w;
	w.text(reinterpret_cast<const char*>(magic), 12);
	w.u32(0x04030201);
	w.u32(0);
	w.u32(1);
	w.u32(0);
	w.u32(c.space == ColorSpace::sRGB ? f.glSrgb : f.gl);
	w.u32(f.base);
	w.u32(c.w);
	w.u32(c.dim == TD::Dim1D ? 0 : c.h);
	w.u32(volume ? c.depth : 0);
	w.u32(volume ? 0 : c.depth);
	w.u32(faces(c));
	w.u32(c.mips);
	static const char* names[] = {"magic", "magic", "magic", "endianness", "type", "type size", "format",
		"internal format", "base format", "width", "height", "depth", "array elements", "faces", "mip levels"};
	for (unsigned int i = 0; i < 15; ++i)
	{
		CHECK_P(u32At(file, i*4) == u32At(w.v, i*4), "ktx-header", "KTX " << names[i] << " is " <<
			u32At(file, i*4) << ", not " << u32At(w.v, i*4));
	}
	std::size_t start = 64 + u32At(file, 60);
	std::vector<std::uint8_t> want;
	for (unsigned int mip = 0; mip < c.mips; ++mip)
	{
		Writer level;
		for (unsigned int layer = 0; layer < layers(c, mip); ++layer)
		{
			for (unsigned int face = 0; face < faces(c); ++face)
				addSurface(level.v, t, face, mip, layer);
		}
		// Of one face for cube maps that aren't arrays.
		Writer size;
		size.u32(std::uint32_t(level.v.size()/(c.depth == 0 ? faces(c) : 1)));
		want.insert(want.end(), size.v.begin(), size.v.end());
		want.insert(want.end(), level.v.begin(), level.v.end());
	}
	comparePayload(file, start, want, "KTX file");
}

void checkPvr(const Case& c, const Texture& t, const std::vector<std::uint8_t>& file)
{
	const Fmt& f = *c.fmt;
	bool volume = c.dim == TD::Dim3D, array = !volume && c.depth > 0;
	bool premultiplied = c.alpha == TA::PreMultiplied;
	auto field = [&](const char* name, std::size_t at, std::uint32_t want)
	{
		CHECK_P(u32At(file, at) == want, "pvr-header", "PVR " << name << " is " << u32At(file, at) <<
			", not " << want);
	};
	field("version", 0, 0x03525650);
	if (f.alpha || !premultiplied)
		field("flags", 4, premultiplied ? 2 : 0);
	// DXT2 and DXT4.
	field("pixel format", 8, f.pvr - ((f.f == TF::BC2 || f.f == TF::BC3) && premultiplied ? 1 : 0));
	field("pixel format, second half", 12, 0);
	field("color space", 16, c.space == ColorSpace::sRGB ? 1 : 0);
	field("channel type", 20, f.channel);
	field("height", 24, c.h);
	field("width", 28, c.w);
	field("depth", 32, volume ? c.depth : 1);
	field("surfaces", 36, volume ? 1 : std::max(c.depth, 1u));
	field("faces", 40, faces(c));
	field("mip levels", 44, c.mips);
	std::size_t length = u32At(file, 48), end = 52 + length;
	CHECK_P(end <= file.size(), "pvr-metadata", "PVR metadata of " << length << " bytes");
	std::vector<std::string> keys, wantKeys;
	for (std::size_t at = 52; at < end;)
	{
		CHECK_P(end - at >= 12 && u32At(file, at + 8) <= end - at - 12, "pvr-metadata",
			"broken PVR metadata");
		if (u32At(file, at) == 0x53465443)
		{
			keys.push_back(std::string(file.begin() + at + 4, file.begin() + at + 8));
			CHECK_P(u32At(file, at + 8) == 4 && u32At(file, at + 12) == 0, "pvr-metadata",
				"other data in the PVR metadata");
		}
		at += 12 + u32At(file, at + 8);
	}
	if (f.f == TF::BC1_RGBA)
		wantKeys.push_back("BC1A");
	if (f.f == TF::BC1_RGB)
		wantKeys.push_back(std::string("BC1\0", 4));
	if (array)
		wantKeys.push_back("ARRY");
	if (c.dim == TD::Dim1D)
		wantKeys.push_back("DIM1");
	std::sort(keys.begin(), keys.end());
	std::sort(wantKeys.begin(), wantKeys.end());
	CHECK_P(keys == wantKeys, "pvr-metadata", "other entries in the PVR metadata");
	std::vector<std::uint8_t> want;
	for (unsigned int mip = 0; mip < c.mips; ++mip)
	{
		for (unsigned int layer = 0; layer < layers(c, mip); ++layer)
		{
			for (unsigned int face = 0; face < faces(c); ++face)
				addSurface(want, t, face, mip, layer);
		}
	}
	comparePayload(file, end, want, "PVR file");
}

} // namespace

PROPERTY(C32, 200000, 6000000,
	"Each case takes one of the 34 block compressed formats times 6 types (enumerated) in a build with "
	"all compressors (stand-ins), compares the static queries with the specifications, and saves a "
	"converted texture of any shape to DDS, KTX and PVR; header fields, sizes and the order of the data "
	"have to be what the file formats define, or the file type has to be refused as documented. Invalid "
	"pairs and color spaces must be refused. Non-trivial: a valid pair, so that files are written")
{
	std::uint64_t k = src.strat(34*6);
	auto tf = TF(unsigned(TF::BC1_RGB) + k/6);
	auto tt = TT(k%6);
	const Fmt* f = nullptr;
	const Fmt* any = nullptr;
	for (const Fmt& i : formats())
	{
		if (i.f == tf)
			any = &i;
		if (i.f == tf && i.type == tt)
			f = &i;
	}
	CHECK_P(any, "table", "format " << unsigned(tf) << " isn't listed");
	src.note << any->name << "/" << int(tt) << ": ";
	src.checks(6);
	CHECK_P(Texture::isFormatValid(tf, tt) == (f != nullptr), "valid", "isFormatValid(" << any->name <<
		", " << int(tt) << ") is " << !f);
	bool srgb = f && f->srgb;
	CHECK_P(Texture::blockWidth(tf) == any->w && Texture::blockHeight(tf) == any->h &&
		Texture::blockSize(tf) == any->size, "block-shape", "other blocks for " << any->name);
	if (f)
	{
		CHECK_P(Texture::hasNativeSRGB(tf, tt) == srgb, "native-srgb", "hasNativeSRGB(" << any->name <<
			", " << int(tt) << ") is " << !srgb);
	}
	for (int i = 1; i <= 3; ++i)
	{
		bool want = f && (i > 1 || f->dxgi);
		CHECK_P(Texture::isFormatValid(tf, tt, Texture::FileType(i)) == want, "valid-file",
			"isFormatValid(" << any->name << ", " << int(tt) << ", file type " << i << ") is " << !want);
	}
	standin::reset(false);
	Fmt shape = f ? *f : *any;
	shape.type = tt;
	shape.srgb = true;
	Case c = makeCase(src, shape, 20, 2);
	Texture t;
	Surfaces s;
	fillTexture(c, t, s);
	bool good = f && (c.space == ColorSpace::Linear || srgb);
	bool converted = convert(c, t);
	CHECK_P(converted == good, "convert", "convert() returned " << converted << " for " << any->name <<
		", " << int(tt) << (c.space == ColorSpace::sRGB ? " sRGB" : ""));
	if (!good)
	{
		src.label("refused");
		CHECK_P(!t.converted(), "convert", "a refused conversion leaves the texture converted");
		CHECK_P(t.imagesComplete(), "convert", "a refused conversion takes the images");
		return;
	}
	src.nontrivial();
	c.fmt = f;
	for (int i = 1; i <= 3; ++i)
	{
		std::vector<std::uint8_t> file;
		Texture::SaveResult result = t.save(file, Texture::FileType(i));
		src.checks(1);
		if (i == 1 && !f->dxgi)
		{
			CHECK_P(result == Texture::SaveResult::Unsupported && file.empty(), "unsupported",
				"saving " << f->name << " to DDS returned " << int(result));
			continue;
		}
		CHECK_P(result == Texture::SaveResult::Success, "save", "saving to file type " << i <<
			" returned " << int(result));
		if (i == 1)
			checkDds(c, t, file);
		else if (i == 2)
			checkKtx(c, t, file);
		else
			checkPvr(c, t, file);
		std::ostringstream stream;
		CHECK_P(t.save(stream, Texture::FileType(i)) == Texture::SaveResult::Success &&
			stream.str() == std::string(file.begin(), file.end()), "save-stream",
			"another file in a stream, type " << i);
	}
}

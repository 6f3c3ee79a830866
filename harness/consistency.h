// What every image and texture must be at any time: its reported state agrees with its storage.
#pragma once
#include "texcommon.h"

inline unsigned int maskBits(std::uint32_t mask, unsigned int shift)
{
	unsigned int n = 0;
	for (std::uint32_t m = shift < 32 ? mask >> shift : 0; m & 1; m >>= 1)
		++n;
	return n;
}

// The pixel as its storage says, or false for layouts that aren't documented.
inline bool decode(const Image& img, unsigned int x, const std::uint8_t* line, double* out)
{
	const FmtInfo& f = fmt(img.format());
	const std::uint8_t* p = line + std::size_t(x)*f.bytes;
	out[0] = out[1] = out[2] = 0;
	out[3] = 1;
	auto u16 = [](const std::uint8_t* q) {std::uint16_t v; std::memcpy(&v, q, 2); return v;};
	auto u32 = [](const std::uint8_t* q) {std::uint32_t v; std::memcpy(&v, q, 4); return v;};
	switch (f.f)
	{
		case IF::Gray8: out[0] = out[1] = out[2] = p[0]/255.0; return true;
		case IF::Gray16: out[0] = out[1] = out[2] = u16(p)/65535.0; return true;
		case IF::RGB5: case IF::RGB565: case IF::RGBA8:
		{
			std::uint32_t v = f.bytes == 2 ? u16(p) : u32(p);
			const std::uint32_t masks[] = {img.redMask(), img.greenMask(), img.blueMask(),
				img.alphaMask()};
			const unsigned int shifts[] = {img.redShift(), img.greenShift(), img.blueShift(),
				img.alphaShift()};
			for (int c = 0; c < (f.f == IF::RGBA8 ? 4 : 3); ++c)
				out[c] = double((v & masks[c]) >> shifts[c])/f.maxv[c];
			return true;
		}
		case IF::RGB16: case IF::RGBA16:
			for (int c = 0; c < f.channels; ++c)
				out[c] = u16(p + c*2)/65535.0;
			return true;
		case IF::RGBF: case IF::RGBAF:
			for (int c = 0; c < f.channels; ++c)
				out[c] = bitsToFloat(u32(p + c*4));
			return true;
		case IF::Int16: out[0] = out[1] = out[2] = std::int16_t(u16(p)); return true;
		case IF::UInt16: out[0] = out[1] = out[2] = u16(p); return true;
		case IF::Int32: out[0] = out[1] = out[2] = std::int32_t(u32(p)); return true;
		case IF::UInt32: out[0] = out[1] = out[2] = u32(p); return true;
		case IF::Float: out[0] = out[1] = out[2] = bitsToFloat(u32(p)); return true;
		case IF::Double:
			std::memcpy(out, p, 8);
			out[1] = out[2] = out[0];
			return true;
		case IF::Complex: std::memcpy(out, p, 16); return true;
		default: return false;
	}
}

inline void checkImage(Src& src, Image& img, std::uint32_t seed, const std::string& op)
{
	src.checks(1);
	std::string k = "image-after-" + op;
	const Image& cimg = img;
	if (!img.isValid())
	{
		CHECK_P(!img && img.format() == IF::Invalid && img.width() == 0 && img.height() == 0 &&
			img.bitsPerPixel() == 0 && !img.scanline(0) && !cimg.scanline(0), k,
			"an invalid image reports content");
		ColorRGBAd c;
		CHECK_P(!img.getPixel(c, 0, 0) && !img.setPixel(0, 0, ColorRGBAd(1, 1, 1, 1)), k,
			"an invalid image has pixels");
		return;
	}
	const FmtInfo& f = fmt(img.format());
	CHECK_P(bool(img) && img.width() > 0 && img.height() > 0, k, "a valid image is empty");
	CHECK_P(img.bitsPerPixel() == f.bytes*8, k, f.name << " has " << img.bitsPerPixel() <<
		" bits per pixel");
	if (f.f == IF::RGB5 || f.f == IF::RGB565 || f.f == IF::RGBA8)
	{
		unsigned int want = f.f == IF::RGBA8 ? 8 : 5;
		std::uint32_t m[] = {img.redMask(), img.greenMask(), img.blueMask(), img.alphaMask()};
		unsigned int s[] = {img.redShift(), img.greenShift(), img.blueShift(), img.alphaShift()};
		for (int c = 0; c < (f.f == IF::RGBA8 ? 4 : 3); ++c)
		{
			unsigned int bits = c == 1 && f.f == IF::RGB565 ? 6 : want;
			CHECK_P(maskBits(m[c], s[c]) == bits && m[c] == ((1u << bits) - 1) << s[c], k, f.name <<
				" channel " << c << " has mask " << m[c] << " and shift " << s[c]);
		}
		CHECK_P(((m[0] & m[1]) | (m[0] & m[2]) | (m[1] & m[2])) == 0 && (f.channels == 3 ?
			m[3] == 0 : (m[3] & (m[0] | m[1] | m[2])) == 0), k, f.name << " has overlapping masks " <<
			m[0] << " " << m[1] << " " << m[2] << " " << m[3]);
	}
	ColorRGBAd c;
	CHECK_P(!img.scanline(img.height()) && !cimg.scanline(img.height() + seed%1000) &&
		!img.getPixel(c, img.width(), 0) && !img.getPixel(c, 0, img.height()) &&
		!img.setPixel(img.width() + seed%7, 0, c) && !img.setPixel(0, img.height(), c), k,
		"coordinates beyond " << img.width() << "x" << img.height() << " are accepted");
	Rng r(seed);
	for (int n = 0; n < 12; ++n)
	{
		unsigned int x = unsigned(r.below(img.width())), y = unsigned(r.below(img.height()));
		auto line = static_cast<const std::uint8_t*>(cimg.scanline(y));
		CHECK_P(line && line == img.scanline(y), k, "scanline(" << y << ") is null");
		CHECK_P(img.getPixel(c, x, y), k, "getPixel(" << x << "," << y << ") refused");
		double want[4];
		const double have[] = {c.r, c.g, c.b, c.a};
		if (!decode(img, x, line, want))
			continue;
		for (int i = 0; i < 4; ++i)
		{
			// Channels a format doesn't store are another property's subject.
			if (f.channels == 1 && f.kind != Kind::UNorm && i > 0)
				continue;
			bool same = want[i] == have[i] || (want[i] != want[i] && have[i] != have[i]) ||
				std::abs(want[i] - have[i]) <= 1e-6*std::max(1.0, std::abs(want[i]));
			CHECK_P(same, k, f.name << " pixel (" << x << "," << y << ") channel " << i <<
				" is stored as " << want[i] << " but read as " << have[i]);
		}
	}
}

inline void checkTexture(Src& src, const Texture& t, const std::string& op)
{
	src.checks(1);
	std::string k = "texture-after-" + op;
	if (!t.isValid())
	{
		CHECK_P(t.width() == 0 && t.mipLevelCount() == 0 && !t.converted() && !t.imagesComplete(), k,
			"an invalid texture reports content");
		return;
	}
	CHECK_P(t.faceCount() == (t.dimension() == TD::Cube ? 6u : 1u) && t.mipLevelCount() > 0 &&
		t.mipLevelCount() <= refMaxMips(t.dimension(), t.width(), t.height(), t.depth()), k,
		"inconsistent shape");
	bool complete = true, some = false;
	for (unsigned int m = 0; m < t.mipLevelCount(); ++m)
	{
		CHECK_P(t.width(m) == refLevelSize(t.width(), m) && t.height(m) == refLevelSize(t.height(),
			m) && t.depth(m) == (t.dimension() == TD::Dim3D ? refLevelSize(t.depth(), m) : t.depth()),
			k, "level " << m << " has the wrong size");
		for (unsigned int d = 0; d < t.depth(m); ++d)
		{
			for (unsigned int f = 0; f < t.faceCount(); ++f)
			{
				const Image& img = t.getImage(Texture::CubeFace(f), m, d);
				if (!img)
					complete = false;
				else
				{
					CHECK_P(img.format() == IF::RGBAF && img.colorSpace() == t.colorSpace() &&
						img.width() == t.width(m) && img.height() == t.height(m), k, "the image of level " <<
						m << " doesn't fit");
				}
				std::size_t size = t.dataSize(Texture::CubeFace(f), m, d);
				const void* p = t.data(Texture::CubeFace(f), m, d);
				some = some || size;
				CHECK_P((p != nullptr) == t.converted() && (size > 0) == t.converted(), k,
					"data and conversion state disagree");
				if (t.converted())
				{
					// Read it all.
					volatile unsigned int sum = 0;
					unsigned int s = 0;
					for (std::size_t i = 0; i < size; ++i)
						s += static_cast<const std::uint8_t*>(p)[i];
					sum = s;
					CHECK_P(Texture::blockSize(t.format()) == 0 || size%Texture::blockSize(t.format()) ==
						0, k, "level " << m << " has " << size << " bytes");
				}
			}
		}
	}
	CHECK_P(t.imagesComplete() == complete, k, "imagesComplete() is wrong");
	CHECK_P((t.format() != TF::Unknown) == t.converted(), k, "format and conversion state disagree");
}


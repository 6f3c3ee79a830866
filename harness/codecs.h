// Ways of loading an image and independent encoders of image files.
#pragma once
#include "common.h"
#include <cstdio>
#include <fstream>
#include <streambuf>
#include <unistd.h>

namespace
{

std::string slurp(const std::string& path)
{
	std::ifstream in(path, std::ios_base::binary);
	std::ostringstream out;
	out << in.rdbuf();
	return out.str();
}

void spit(const std::string& path, const std::string& data)
{
	std::ofstream out(path, std::ios_base::binary);
	out.write(data.data(), data.size());
}

// A stream that can only be read forward, in small pieces.
class ForwardBuf : public std::streambuf
{
public:
	ForwardBuf(const std::string& data, std::size_t piece) : m_data(data), m_piece(piece) {}
protected:
	int_type underflow() override
	{
		if (m_pos >= m_data.size())
			return traits_type::eof();
		std::size_t n = std::min(m_piece, m_data.size() - m_pos);
		m_buf.assign(m_data.begin() + m_pos, m_data.begin() + m_pos + n);
		m_pos += n;
		setg(m_buf.data(), m_buf.data(), m_buf.data() + n);
		return traits_type::to_int_type(m_buf[0]);
	}
private:
	std::string m_data;
	std::size_t m_piece;
	std::size_t m_pos = 0;
	std::vector<char> m_buf;
};

struct Codec
{
	const char* ext;
	IF format;
	IF loaded;
};

// Pairs whose file format stores the pixel format without loss.
const std::vector<Codec>& losslessCodecs()
{
	static const std::vector<Codec> v =
	{
		{"png", IF::Gray8, IF::Gray8}, {"png", IF::Gray16, IF::Gray16}, {"png", IF::RGB8, IF::RGB8},
		{"png", IF::RGB16, IF::RGB16}, {"png", IF::RGBA8, IF::RGBA8}, {"png", IF::RGBA16, IF::RGBA16},
		{"png", IF::UInt16, IF::Gray16},
		{"bmp", IF::Gray8, IF::Gray8}, {"bmp", IF::RGB5, IF::RGB5}, {"bmp", IF::RGB565, IF::RGB565},
		{"bmp", IF::RGB8, IF::RGB8}, {"bmp", IF::RGBA8, IF::RGBA8},
		{"tga", IF::Gray8, IF::Gray8}, {"tga", IF::RGB8, IF::RGB8},
		{"tga", IF::RGBA8, IF::RGBA8},
		{"tif", IF::Gray8, IF::Gray8}, {"tiff", IF::Gray16, IF::Gray16}, {"tif", IF::RGB8, IF::RGB8},
		{"tiff", IF::RGB16, IF::RGB16}, {"tif", IF::RGBF, IF::RGBF}, {"tiff", IF::RGBA8, IF::RGBA8},
		{"tif", IF::RGBA16, IF::RGBA16}, {"tiff", IF::RGBAF, IF::RGBAF}, {"tif", IF::Int16, IF::Int16},
		{"tiff", IF::UInt16, IF::Gray16}, {"tif", IF::Int32, IF::Int32},
		{"tiff", IF::UInt32, IF::UInt32}, {"tif", IF::Float, IF::Float},
		{"tiff", IF::Double, IF::Double}, {"tif", IF::Complex, IF::Complex},
		{"ppm", IF::RGB8, IF::RGB8}, {"ppm", IF::RGB16, IF::RGB16}, {"pgm", IF::Gray8, IF::Gray8},
		{"pgm", IF::Gray16, IF::Gray16},
		{"pfm", IF::RGBF, IF::RGBF}, {"pfm", IF::Float, IF::Float}
	};
	return v;
}

std::string upperSome(Src& src, std::string ext)
{
	if (src.draw(3) == 0)
	{
		for (char& c : ext)
			c = char(std::toupper(c));
	}
	return ext;
}

struct Loaded
{
	bool ok = false;
	Image img;
};

// All the ways in. The image object may hold an earlier image.
void loadAll(Src& src, const std::string& bytes, const std::string& path, ColorSpace cs,
	std::vector<std::pair<const char*, Loaded>>& out, bool unseekable, bool offset)
{
	auto fresh = [&](Loaded& l)
	{
		if (src.draw(2))
			l.img.initialize(IF::RGB8, 2, 2);
	};
	{
		Loaded l;
		fresh(l);
		spit(path, bytes);
		l.ok = l.img.load(path.c_str(), cs);
		std::remove(path.c_str());
		out.emplace_back("file", std::move(l));
	}
	{
		Loaded l;
		fresh(l);
		// An exact allocation, so that reading past the end is seen.
		std::vector<char> exact(bytes.begin(), bytes.end());
		exact.shrink_to_fit();
		l.ok = l.img.load(exact.data(), exact.size(), cs);
		out.emplace_back("memory", std::move(l));
	}
	{
		Loaded l;
		fresh(l);
		std::string prefix;
		if (offset && src.draw(2))
			prefix.assign(1 + src.draw(300), char(src.draw(256)));
		std::istringstream stream(prefix + bytes, std::ios_base::in | std::ios_base::binary);
		stream.seekg(prefix.size());
		l.ok = l.img.load(stream, cs);
		out.emplace_back(prefix.empty() ? "stream" : "stream-offset", std::move(l));
	}
	if (unseekable)
	{
		Loaded l;
		fresh(l);
		ForwardBuf buf(bytes, 1 + src.draw(5000));
		std::istream stream(&buf);
		l.ok = l.img.load(stream, cs);
		out.emplace_back("forward-stream", std::move(l));
	}
}

//---------------------------------------------------------------------------------------------
// Independent encoders

void put16(std::string& s, unsigned int v) {s += char(v & 0xff); s += char(v >> 8 & 0xff);}
void put32(std::string& s, std::uint32_t v) {put16(s, v & 0xffff); put16(s, v >> 16);}
void putBE32(std::string& s, std::uint32_t v)
{
	for (int i = 3; i >= 0; --i)
		s += char(v >> 8*i & 0xff);
}

std::uint32_t crc32Of(const std::string& s)
{
	std::uint32_t c = 0xffffffffu;
	for (unsigned char ch : s)
	{
		c ^= ch;
		for (int k = 0; k < 8; ++k)
			c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
	}
	return ~c;
}

void pngChunk(std::string& out, const std::string& type, const std::string& data)
{
	putBE32(out, std::uint32_t(data.size()));
	std::string td = type + data;
	out += td;
	putBE32(out, crc32Of(td));
}

std::string zlibStore(const std::string& raw)
{
	std::string z("\x78\x01", 2);
	std::size_t pos = 0;
	do
	{
		std::size_t n = std::min<std::size_t>(65535, raw.size() - pos);
		z += char(pos + n == raw.size());
		put16(z, unsigned(n));
		put16(z, unsigned(~n & 0xffff));
		z.append(raw, pos, n);
		pos += n;
	} while (pos < raw.size());
	std::uint32_t a = 1, b = 0;
	for (unsigned char c : raw)
	{
		a = (a + c)%65521;
		b = (b + a)%65521;
	}
	putBE32(z, b << 16 | a);
	return z;
}

struct Encoded
{
	std::string bytes;
	std::string name;
	std::string ext;
	unsigned int w, h;
	std::vector<Px> px; // expected, as the values getPixel() is to return
	bool alpha = false;
};

Encoded encodeForeign(Src& src)
{
	Encoded e;
	e.w = genDim(src, 40);
	e.h = genDim(src, 40);
	Rng rng(src.seed32());
	std::size_t n = std::size_t(e.w)*e.h;
	std::ostringstream head;
	auto gray = [&](double v) {e.px.push_back(Px{{v, v, v, 1}});};
	switch (src.strat(13))
	{
		case 0: // P1
		case 1: // P4
		{
			bool ascii = src.draw(2) == 0;
			e.name = ascii ? "P1" : "P4";
			e.ext = "pbm";
			head << e.name << "\n" << e.w << " " << e.h << "\n";
			std::string body;
			for (unsigned int y = 0; y < e.h; ++y)
			{
				unsigned int acc = 0;
				for (unsigned int x = 0; x < e.w; ++x)
				{
					unsigned int bit = unsigned(rng.below(2));
					gray(bit ? 0.0 : 1.0);
					if (ascii)
						body += bit ? "1 " : "0 ";
					else
					{
						acc |= bit << (7 - x%8);
						if (x%8 == 7 || x + 1 == e.w)
						{
							body += char(acc);
							acc = 0;
						}
					}
				}
				if (ascii)
					body += "\n";
			}
			e.bytes = head.str() + body;
			break;
		}
		case 2: // P5 / P6 8 and 16 bits
		case 3:
		{
			bool rgb = src.draw(2), wide = src.draw(2);
			e.name = rgb ? "P6" : "P5";
			e.ext = rgb ? "ppm" : "pgm";
			head << e.name << "\n" << e.w << " " << e.h << "\n" << (wide ? 65535 : 255) << "\n";
			std::string body;
			for (std::size_t i = 0; i < n; ++i)
			{
				Px p{{0, 0, 0, 1}};
				for (int c = 0; c < (rgb ? 3 : 1); ++c)
				{
					unsigned int v = unsigned(rng.below(wide ? 65536 : 256));
					if (wide)
						body += char(v >> 8);
					body += char(v & 0xff);
					p.c[c] = v/(wide ? 65535.0 : 255.0);
				}
				if (!rgb)
					p.c[1] = p.c[2] = p.c[0];
				e.px.push_back(p);
			}
			e.bytes = head.str() + body;
			e.name += wide ? "-16" : "-8";
			break;
		}
		case 4: // BMP 24/32
		case 5:
		{
			bool topDown = src.draw(2);
			e.name = "BMP24";
			e.ext = "bmp";
			std::vector<Px> px(n);
			std::string body;
			std::size_t rowSize = (e.w*3 + 3)/4*4;
			for (unsigned int r = 0; r < e.h; ++r)
			{
				unsigned int y = topDown ? r : e.h - 1 - r;
				std::string row;
				for (unsigned int x = 0; x < e.w; ++x)
				{
					unsigned int c[3];
					for (unsigned int& v : c)
						v = unsigned(rng.below(256));
					row += char(c[2]);
					row += char(c[1]);
					row += char(c[0]);
					px[std::size_t(y)*e.w + x] = Px{{c[0]/255.0, c[1]/255.0, c[2]/255.0, 1}};
				}
				row.resize(rowSize);
				body += row;
			}
			e.px = px;
			std::string o = "BM";
			put32(o, std::uint32_t(54 + body.size()));
			put32(o, 0);
			put32(o, 54);
			put32(o, 40);
			put32(o, e.w);
			put32(o, topDown ? std::uint32_t(-std::int32_t(e.h)) : e.h);
			put16(o, 1);
			put16(o, 24);
			put32(o, 0);
			put32(o, std::uint32_t(body.size()));
			put32(o, 2835);
			put32(o, 2835);
			put32(o, 0);
			put32(o, 0);
			e.bytes = o + body;
			break;
		}
		case 6: // TGA 24/32, both origins
		{
			bool topDown = src.draw(2), alpha = src.draw(2);
			e.name = alpha ? "TGA32" : "TGA24";
			e.ext = "tga";
			e.alpha = alpha;
			std::string o;
			o += char(0);
			o += char(0);
			o += char(2);
			o += std::string(5, '\0');
			put16(o, 0);
			put16(o, 0);
			put16(o, e.w);
			put16(o, e.h);
			o += char(alpha ? 32 : 24);
			o += char((alpha ? 8 : 0) | (topDown ? 0x20 : 0));
			std::vector<Px> px(n);
			for (unsigned int r = 0; r < e.h; ++r)
			{
				unsigned int y = topDown ? r : e.h - 1 - r;
				for (unsigned int x = 0; x < e.w; ++x)
				{
					unsigned int c[4];
					for (unsigned int& v : c)
						v = unsigned(rng.below(256));
					o += char(c[2]);
					o += char(c[1]);
					o += char(c[0]);
					if (alpha)
						o += char(c[3]);
					px[std::size_t(y)*e.w + x] = Px{{c[0]/255.0, c[1]/255.0, c[2]/255.0,
						alpha ? c[3]/255.0 : 1.0}};
				}
			}
			e.px = px;
			e.bytes = o;
			break;
		}
		default: // PNG, every colour type and depth
		{
			static const int types[] = {0, 0, 0, 0, 0, 2, 2, 3, 3, 3, 3, 6, 6};
			static const int depths[] = {1, 2, 4, 8, 16, 8, 16, 1, 2, 4, 8, 8, 16};
			std::size_t k = src.draw(13);
			int type = types[k], depth = depths[k];
			e.ext = "png";
			std::ostringstream nm;
			nm << "PNG-type" << type << "-depth" << depth;
			std::vector<unsigned int> palette;
			std::string plte, trns;
			bool transparent = false;
			if (type == 3)
			{
				// A palette that is not a gray ramp, so that it is really a colour image.
				for (int i = 0; i < 1 << depth; ++i)
				{
					unsigned int c[3] = {unsigned(rng.below(256)), unsigned(i), unsigned(255 - i)};
					for (unsigned int v : c)
					{
						plte += char(v);
						palette.push_back(v);
					}
				}
				transparent = src.draw(3) == 0;
				if (transparent)
				{
					for (int i = 0; i < 1 << depth; ++i)
						trns += char(rng.below(256));
					nm << "-alpha";
				}
			}
			e.name = nm.str();
			e.alpha = type == 6 || transparent;
			int channels = type == 2 ? 3 : type == 6 ? 4 : 1;
			double maxv = (1 << depth) - 1;
			std::string raw;
			for (unsigned int y = 0; y < e.h; ++y)
			{
				raw += '\0';
				unsigned int acc = 0, bits = 0;
				for (unsigned int x = 0; x < e.w; ++x)
				{
					Px p{{0, 0, 0, 1}};
					for (int c = 0; c < channels; ++c)
					{
						unsigned int v = unsigned(rng.below(std::uint64_t(1) << depth));
						if (depth == 16)
							raw += char(v >> 8);
						if (depth >= 8)
							raw += char(v & 0xff);
						else
						{
							acc = acc << depth | v;
							bits += depth;
							if (bits == 8)
							{
								raw += char(acc);
								acc = bits = 0;
							}
						}
						if (type == 3)
						{
							for (int i = 0; i < 3; ++i)
								p.c[i] = palette[v*3 + i]/255.0;
							if (transparent)
								p.c[3] = (unsigned char)trns[v]/255.0;
						}
						else
							p.c[c] = v/maxv;
					}
					if (type == 0)
						p.c[1] = p.c[2] = p.c[0];
					e.px.push_back(p);
				}
				if (bits)
					raw += char(acc << (8 - bits));
			}
			std::string o("\x89PNG\r\n\x1a\n", 8), ihdr;
			putBE32(ihdr, e.w);
			putBE32(ihdr, e.h);
			ihdr += char(depth);
			ihdr += char(type);
			ihdr += std::string(3, '\0');
			pngChunk(o, "IHDR", ihdr);
			if (!plte.empty())
				pngChunk(o, "PLTE", plte);
			if (!trns.empty())
				pngChunk(o, "tRNS", trns);
			pngChunk(o, "IDAT", zlibStore(raw));
			pngChunk(o, "IEND", "");
			e.bytes = o;
			break;
		}
	}
	return e;
}

} // namespace

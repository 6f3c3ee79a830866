// C27: loading gives the colours the file defines. Every file is made here, bit by bit, from the
// format's own specification; nothing of the library or of FreeImage takes part in making it.
#include "codecs.h"

std::string drawImageFile(Src& src, std::string& ext, std::string& name);

namespace
{

void putBE16(std::string& s, unsigned int v) {s += char(v >> 8 & 0xff); s += char(v & 0xff);}

Px grayPx(double v) {return Px{{v, v, v, 1}};}

// Packs sub-byte samples, most significant first; rows padded to a multiple of pad bytes.
struct BitRow
{
	std::string out;
	unsigned int acc = 0, bits = 0;
	void add(unsigned int v, unsigned int depth)
	{
		acc = acc << depth | v;
		bits += depth;
		if (bits >= 8)
		{
			out += char(acc >> (bits - 8) & 0xff);
			bits -= 8;
		}
	}
	void finish(std::size_t pad)
	{
		if (bits)
			out += char(acc << (8 - bits) & 0xff);
		bits = 0;
		acc = 0;
		out.resize((out.size() + pad - 1)/pad*pad);
	}
};

// Index runs as real files have them: some long, some short.
std::vector<unsigned int> indexImage(Rng& rng, std::size_t n, unsigned int colors)
{
	std::vector<unsigned int> v(n);
	unsigned int run = 0, cur = 0;
	for (std::size_t i = 0; i < n; ++i)
	{
		if (run == 0)
		{
			cur = unsigned(rng.below(colors));
			run = rng.below(3) ? 1 : 1 + unsigned(rng.below(300));
		}
		--run;
		v[i] = cur;
	}
	return v;
}

struct Color3
{
	unsigned int c[3];
	Px px() const {return Px{{c[0]/255.0, c[1]/255.0, c[2]/255.0, 1}};}
};

// A palette that is not a grey ramp.
std::vector<Color3> palette(Rng& rng, unsigned int n)
{
	std::vector<Color3> p(n);
	for (unsigned int i = 0; i < n; ++i)
		p[i] = Color3{{unsigned(rng.below(256)), i*7%256, 255 - i*7%256}};
	return p;
}

// PackBits as used by TIFF and PSD.
std::string packBits(const std::string& row)
{
	std::string out;
	std::size_t i = 0;
	while (i < row.size())
	{
		std::size_t run = 1;
		while (i + run < row.size() && run < 128 && row[i + run] == row[i])
			++run;
		if (run >= 2)
		{
			out += char(1 - int(run));
			out += row[i];
			i += run;
			continue;
		}
		std::size_t lit = 1;
		while (i + lit < row.size() && lit < 128 &&
			!(i + lit + 1 < row.size() && row[i + lit] == row[i + lit + 1]))
			++lit;
		out += char(lit - 1);
		out.append(row, i, lit);
		i += lit;
	}
	return out;
}

void encodeBmp(Src& src, Rng& rng, Encoded& e)
{
	e.ext = "bmp";
	std::size_t n = std::size_t(e.w)*e.h;
	e.px.resize(n);
	static const char* names[] = {"BMP1", "BMP4", "BMP8", "BMP8-rle", "BMP4-rle", "BMP16-555",
		"BMP16-565", "BMP16-555-bitfields", "BMP24", "BMP32", "BMP32-bitfields", "BMP24-os2",
		"BMP8-os2", "BMP8-gray"};
	unsigned int kind = unsigned(src.draw(14));
	e.name = names[kind];
	bool os2 = kind == 11 || kind == 12;
	bool rle = kind == 3 || kind == 4;
	bool topDown = !os2 && !rle && src.draw(3) == 0;
	unsigned int bpp = kind == 0 ? 1 : kind == 1 || kind == 4 ? 4 : kind == 2 || kind == 3 ||
		kind >= 12 ? 8 : kind <= 7 ? 16 : kind == 9 || kind == 10 ? 32 : 24;
	unsigned int headerSize = os2 ? 12 : 40;
	std::vector<Color3> pal;
	unsigned int used = 0;
	if (bpp <= 8)
	{
		unsigned int full = 1u << bpp;
		// A shorter palette is allowed (not for OS/2 files, which always have the whole one).
		used = os2 || src.draw(2) ? full : 2 + unsigned(rng.below(full - 1));
		if (kind == 13)
			used = full;
		pal = palette(rng, used);
		if (kind == 13)
		{
			for (unsigned int i = 0; i < full; ++i)
				pal[i] = Color3{{i, i, i}};
		}
	}
	std::string body;
	std::vector<unsigned int> idx;
	if (bpp <= 8)
		idx = indexImage(rng, n, used);
	for (unsigned int r = 0; r < e.h; ++r)
	{
		unsigned int y = topDown ? r : e.h - 1 - r;
		if (rle)
		{
			const unsigned int* row = &idx[std::size_t(y)*e.w];
			for (unsigned int x = 0; x < e.w; ++x)
				e.px[std::size_t(y)*e.w + x] = pal[row[x]].px();
			unsigned int x = 0;
			while (x < e.w)
			{
				if (e.w - x >= 3 && rng.below(2))
				{
					// Absolute run.
					unsigned int len = 3 + unsigned(rng.below(std::min(e.w - x - 3, 250u) + 1));
					body += '\0';
					body += char(len);
					std::string lit;
					if (bpp == 8)
					{
						for (unsigned int i = 0; i < len; ++i)
							lit += char(row[x + i]);
					}
					else
					{
						BitRow b;
						for (unsigned int i = 0; i < len; ++i)
							b.add(row[x + i], 4);
						b.finish(1);
						lit = b.out;
					}
					if (lit.size()%2)
						lit += '\0';
					body += lit;
					x += len;
				}
				else
				{
					unsigned int run = 1;
					while (x + run < e.w && run < 255 && row[x + run] == row[x])
						++run;
					body += char(run);
					body += char(bpp == 8 ? row[x] : row[x] << 4 | row[x]);
					x += run;
				}
			}
			body += '\0';
			body += char(r + 1 == e.h ? 1 : 0);
			continue;
		}
		BitRow row;
		for (unsigned int x = 0; x < e.w; ++x)
		{
			Px& p = e.px[std::size_t(y)*e.w + x];
			if (bpp <= 8)
			{
				unsigned int i = idx[std::size_t(y)*e.w + x];
				row.add(i, bpp);
				p = pal[i].px();
			}
			else if (bpp == 16)
			{
				bool six = kind == 6;
				unsigned int c[3] = {unsigned(rng.below(32)), unsigned(rng.below(six ? 64 : 32)),
					unsigned(rng.below(32))};
				put16(row.out, six ? c[0] << 11 | c[1] << 5 | c[2] : c[0] << 10 | c[1] << 5 | c[2]);
				p = Px{{c[0]/31.0, c[1]/(six ? 63.0 : 31.0), c[2]/31.0, 1}};
			}
			else
			{
				unsigned int c[4];
				for (unsigned int& v : c)
					v = unsigned(rng.below(256));
				for (int i = 2; i >= 0; --i)
					row.out += char(c[i]);
				if (bpp == 32)
					row.out += char(c[3]);
				p = Px{{c[0]/255.0, c[1]/255.0, c[2]/255.0, 1}};
			}
		}
		row.finish(4);
		body += row.out;
	}
	unsigned int compression = kind == 3 ? 1 : kind == 4 ? 2 : kind == 6 || kind == 7 || kind == 10 ?
		3 : 0;
	std::string masks;
	if (compression == 3)
	{
		if (kind == 6)
		{
			put32(masks, 0xf800);
			put32(masks, 0x7e0);
			put32(masks, 0x1f);
		}
		else if (kind == 7)
		{
			put32(masks, 0x7c00);
			put32(masks, 0x3e0);
			put32(masks, 0x1f);
		}
		else
		{
			put32(masks, 0xff0000);
			put32(masks, 0xff00);
			put32(masks, 0xff);
		}
	}
	std::string head;
	put32(head, headerSize);
	if (os2)
	{
		put16(head, e.w);
		put16(head, e.h);
		put16(head, 1);
		put16(head, bpp);
	}
	else
	{
		put32(head, e.w);
		put32(head, topDown ? std::uint32_t(-std::int32_t(e.h)) : e.h);
		put16(head, 1);
		put16(head, bpp);
		put32(head, compression);
		put32(head, std::uint32_t(body.size()));
		put32(head, 2835);
		put32(head, 2835);
		put32(head, used && used != 1u << bpp ? used : 0);
		put32(head, 0);
		head += masks;
	}
	for (const Color3& c : pal)
	{
		head += char(c.c[2]);
		head += char(c.c[1]);
		head += char(c.c[0]);
		if (!os2)
			head += '\0';
	}
	std::string o = "BM";
	put32(o, std::uint32_t(14 + head.size() + body.size()));
	put32(o, 0);
	put32(o, std::uint32_t(14 + head.size()));
	e.bytes = o + head + body;
}

void encodeTga(Src& src, Rng& rng, Encoded& e)
{
	e.ext = "tga";
	std::size_t n = std::size_t(e.w)*e.h;
	e.px.resize(n);
	static const char* names[] = {"TGA-palette24", "TGA-palette32", "TGA-gray", "TGA16", "TGA24",
		"TGA32"};
	unsigned int kind = unsigned(src.draw(6));
	bool rle = src.draw(2), topDown = src.draw(2);
	e.name = names[kind] + std::string(rle ? "-rle" : "");
	unsigned int bpp = kind <= 2 ? 8 : kind == 3 ? 16 : kind == 4 ? 24 : 32;
	e.alpha = kind == 1 || kind == 5;
	std::vector<Color3> pal;
	std::vector<unsigned int> palAlpha;
	std::string o, id(rng.below(2) ? 0 : rng.below(40), 'i');
	o += char(id.size());
	o += char(kind < 2);
	o += char((kind < 2 ? 1 : kind == 2 ? 3 : 2) + (rle ? 8 : 0));
	unsigned int colors = kind < 2 ? 1 + unsigned(rng.below(256)) : 0;
	put16(o, 0);
	put16(o, colors);
	o += char(kind == 0 ? 24 : kind == 1 ? 32 : 0);
	put16(o, 0);
	put16(o, 0);
	put16(o, e.w);
	put16(o, e.h);
	o += char(bpp);
	o += char((kind == 5 ? 8 : kind == 3 ? 1 : 0) | (topDown ? 0x20 : 0));
	o += id;
	if (kind < 2)
	{
		pal = palette(rng, colors);
		for (unsigned int i = 0; i < colors; ++i)
		{
			for (int c = 2; c >= 0; --c)
				o += char(pal[i].c[c]);
			palAlpha.push_back(unsigned(rng.below(256)));
			if (kind == 1)
				o += char(palAlpha.back());
		}
	}
	std::vector<unsigned int> idx = indexImage(rng, n, kind < 2 ? colors : 256);
	std::vector<std::string> cells(n); // file order
	for (unsigned int r = 0; r < e.h; ++r)
	{
		unsigned int y = topDown ? r : e.h - 1 - r;
		for (unsigned int x = 0; x < e.w; ++x)
		{
			Px& p = e.px[std::size_t(y)*e.w + x];
			unsigned int i = idx[std::size_t(r)*e.w + x];
			std::string& cell = cells[std::size_t(r)*e.w + x];
			if (kind < 2)
			{
				cell = std::string(1, char(i));
				p = pal[i].px();
				if (kind == 1)
					p.c[3] = palAlpha[i]/255.0;
			}
			else if (kind == 2)
			{
				cell = std::string(1, char(i));
				p = grayPx(i/255.0);
			}
			else
			{
				Rng crng(i*977 + 5);
				unsigned int c[4];
				for (unsigned int& v : c)
					v = unsigned(crng.below(kind == 3 ? 32 : 256));
				if (kind == 3)
				{
					put16(cell, 0x8000 | c[0] << 10 | c[1] << 5 | c[2]);
					p = Px{{c[0]/31.0, c[1]/31.0, c[2]/31.0, 1}};
				}
				else
				{
					for (int k = 2; k >= 0; --k)
						cell += char(c[k]);
					if (kind == 5)
						cell += char(c[3]);
					p = Px{{c[0]/255.0, c[1]/255.0, c[2]/255.0, kind == 5 ? c[3]/255.0 : 1}};
				}
			}
		}
	}
	if (!rle)
	{
		for (const std::string& c : cells)
			o += c;
	}
	else
	{
		// Packets do not cross rows.
		for (unsigned int r = 0; r < e.h; ++r)
		{
			const std::string* row = &cells[std::size_t(r)*e.w];
			unsigned int x = 0;
			while (x < e.w)
			{
				unsigned int run = 1;
				while (x + run < e.w && run < 128 && row[x + run] == row[x])
					++run;
				if (run > 1)
				{
					o += char(0x80 | (run - 1));
					o += row[x];
					x += run;
				}
				else
				{
					unsigned int lit = 1;
					while (x + lit < e.w && lit < 128 && row[x + lit] != row[x + lit - 1])
						++lit;
					o += char(lit - 1);
					for (unsigned int i = 0; i < lit; ++i)
						o += row[x + i];
					x += lit;
				}
			}
		}
	}
	e.bytes = o;
}

unsigned int paeth(unsigned int a, unsigned int b, unsigned int c)
{
	int p = int(a) + int(b) - int(c), pa = std::abs(p - int(a)), pb = std::abs(p - int(b)),
		pc = std::abs(p - int(c));
	return pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
}

void encodePng(Src& src, Rng& rng, Encoded& e)
{
	static const int types[] = {0, 0, 0, 0, 0, 2, 2, 3, 3, 3, 3, 4, 4, 6, 6};
	static const int depths[] = {1, 2, 4, 8, 16, 8, 16, 1, 2, 4, 8, 8, 16, 8, 16};
	std::size_t k = src.draw(15);
	int type = types[k], depth = depths[k];
	bool interlace = src.draw(3) == 0, filters = src.draw(2), split = src.draw(2);
	bool extras = src.draw(3) == 0;
	e.ext = "png";
	std::ostringstream nm;
	nm << "PNG-t" << type << "-d" << depth << (interlace ? "-adam7" : "");
	int channels = type == 2 ? 3 : type == 4 ? 2 : type == 6 ? 4 : 1;
	double maxv = (1 << depth) - 1;
	std::vector<Color3> pal;
	std::string plte, trns;
	unsigned int colors = unsigned(1) << depth;
	if (type == 3)
	{
		if (src.draw(2))
			colors = 1 + unsigned(rng.below(colors));
		pal = palette(rng, colors);
		for (const Color3& c : pal)
			for (unsigned int v : c.c)
				plte += char(v);
		if (src.draw(2))
		{
			// May be shorter than the palette: the rest is opaque.
			std::size_t count = 1 + rng.below(colors);
			for (std::size_t i = 0; i < count; ++i)
				trns += char(rng.below(256));
			nm << "-alpha";
			e.alpha = true;
		}
	}
	else if (type == 0 && depth == 8 && src.draw(3) == 0)
	{
		// One grey value is transparent (FreeImage mistakes the value of lower depths).
		putBE16(trns, unsigned(rng.below(colors)));
		nm << "-key";
		e.alpha = true;
	}
	if (type >= 4)
		e.alpha = true;
	e.name = nm.str();
	std::size_t n = std::size_t(e.w)*e.h;
	std::vector<unsigned int> samples(n*channels);
	for (std::size_t i = 0; i < n; ++i)
	{
		Px p{{0, 0, 0, 1}};
		for (int c = 0; c < channels; ++c)
		{
			unsigned int v = unsigned(rng.below(type == 3 ? colors : std::uint64_t(1) << depth));
			samples[i*channels + c] = v;
			p.c[c] = v/maxv;
		}
		if (type == 0 || type == 4)
		{
			double a = p.c[1];
			p = grayPx(p.c[0]);
			if (type == 4)
				p.c[3] = a;
			else if (!trns.empty() && samples[i] ==
				((unsigned char)trns[0] << 8 | (unsigned char)trns[1]))
				p.c[3] = 0;
		}
		else if (type == 3)
		{
			p = pal[samples[i]].px();
			if (samples[i] < trns.size())
				p.c[3] = (unsigned char)trns[samples[i]]/255.0;
		}
		e.px.push_back(p);
	}
	std::string raw;
	unsigned int bpp = std::max(1, channels*depth/8);
	static const int pass[7][4] = {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4},
		{0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}};
	static const int whole[4] = {0, 0, 1, 1};
	for (int i = 0; i < (interlace ? 7 : 1); ++i)
	{
		const int* s = interlace ? pass[i] : whole;
		std::string prev;
		for (unsigned int y = s[1]; y < e.h; y += s[3])
		{
			if (unsigned(s[0]) >= e.w)
				break;
			BitRow row;
			for (unsigned int x = s[0]; x < e.w; x += s[2])
			{
				for (int c = 0; c < channels; ++c)
				{
					unsigned int v = samples[(std::size_t(y)*e.w + x)*channels + c];
					if (depth == 16)
						putBE16(row.out, v);
					else if (depth == 8)
						row.out += char(v);
					else
						row.add(v, depth);
				}
			}
			row.finish(1);
			const std::string& cur = row.out;
			if (prev.empty())
				prev.assign(cur.size(), '\0');
			unsigned int f = filters ? unsigned(rng.below(5)) : 0;
			raw += char(f);
			for (std::size_t b = 0; b < cur.size(); ++b)
			{
				unsigned int a = b >= bpp ? (unsigned char)cur[b - bpp] : 0,
					up = (unsigned char)prev[b], ul = b >= bpp ? (unsigned char)prev[b - bpp] : 0;
				unsigned int pred = f == 0 ? 0 : f == 1 ? a : f == 2 ? up : f == 3 ? (a + up)/2 :
					paeth(a, up, ul);
				raw += char((unsigned char)cur[b] - pred);
			}
			prev = cur;
		}
	}
	std::string o("\x89PNG\r\n\x1a\n", 8), ihdr;
	putBE32(ihdr, e.w);
	putBE32(ihdr, e.h);
	ihdr += char(depth);
	ihdr += char(type);
	ihdr += std::string(2, '\0');
	ihdr += char(interlace);
	pngChunk(o, "IHDR", ihdr);
	if (extras)
	{
		std::string phys;
		putBE32(phys, 2835);
		putBE32(phys, 2835);
		phys += char(1);
		pngChunk(o, "pHYs", phys);
		pngChunk(o, "teXt", std::string("Comment\0hello", 13));
	}
	if (!plte.empty())
		pngChunk(o, "PLTE", plte);
	if (!trns.empty())
		pngChunk(o, "tRNS", trns);
	std::string z = zlibStore(raw);
	std::size_t pos = 0;
	while (pos < z.size())
	{
		std::size_t len = split ? 1 + rng.below(z.size() - pos) : z.size();
		pngChunk(o, "IDAT", z.substr(pos, len));
		pos += len;
	}
	pngChunk(o, "IEND", "");
	e.bytes = o;
}

void encodePnm(Src& src, Rng& rng, Encoded& e)
{
	std::size_t n = std::size_t(e.w)*e.h;
	unsigned int kind = unsigned(src.draw(4));
	std::ostringstream o;
	auto comment = [&]() {if (rng.below(2)) o << "# a comment 12\n";};
	if (kind < 2)
	{
		bool rgb = kind == 1, wide = src.draw(2);
		e.name = std::string(rgb ? "P3" : "P2") + (wide ? "-16" : "-8");
		e.ext = rgb ? "ppm" : "pgm";
		o << (rgb ? "P3\n" : "P2\n");
		comment();
		o << e.w << " " << e.h << "\n";
		comment();
		o << (wide ? 65535 : 255) << "\n";
		for (std::size_t i = 0; i < n; ++i)
		{
			Px p{{0, 0, 0, 1}};
			for (int c = 0; c < (rgb ? 3 : 1); ++c)
			{
				unsigned int v = unsigned(rng.below(wide ? 65536 : 256));
				o << v << (rng.below(4) ? " " : "\n");
				p.c[c] = v/(wide ? 65535.0 : 255.0);
			}
			e.px.push_back(rgb ? p : grayPx(p.c[0]));
		}
		o << "\n";
	}
	else
	{
		bool rgb = kind == 3, big = src.draw(2);
		e.name = std::string(rgb ? "PFM-rgb" : "PFM-gray") + (big ? "-be" : "-le");
		e.ext = "pfm";
		// FreeImage stores and reads the rows top to bottom, the format's description says bottom
		// to top. Files of one row are the same either way.
		e.h = 1;
		n = e.w;
		o << (rgb ? "PF\n" : "Pf\n") << e.w << " " << e.h << "\n" << (big ? "1.0\n" : "-1.0\n");
		e.px.resize(n);
		std::string body;
		for (unsigned int r = 0; r < e.h; ++r)
		{
			for (unsigned int x = 0; x < e.w; ++x)
			{
				Px p{{0, 0, 0, 1}};
				for (int c = 0; c < (rgb ? 3 : 1); ++c)
				{
					float f = float((rng.unit() - 0.3)*std::pow(2.0, double(rng.below(20)) - 8));
					std::uint32_t u;
					std::memcpy(&u, &f, 4);
					if (big)
						putBE32(body, u);
					else
						put32(body, u);
					p.c[c] = f;
				}
				e.px[std::size_t(e.h - 1 - r)*e.w + x] = rgb ? p : grayPx(p.c[0]);
			}
		}
		o << body;
	}
	e.bytes = o.str();
}

void encodeTiff(Src& src, Rng& rng, Encoded& e)
{
	struct K {const char* name; int photometric; int bits; int samples; int sampleFormat;};
	static const K kinds[] =
	{
		{"bilevel-0white", 0, 1, 1, 1}, {"bilevel-0black", 1, 1, 1, 1}, {"gray4", 1, 4, 1, 1},
		{"gray8", 1, 8, 1, 1}, {"gray8-0white", 0, 8, 1, 1}, {"gray16", 1, 16, 1, 1},
		{"rgb8", 2, 8, 3, 1}, {"rgb16", 2, 16, 3, 1}, {"rgba8", 2, 8, 4, 1}, {"rgba16", 2, 16, 4, 1},
		{"palette8", 3, 8, 1, 1}, {"palette4", 3, 4, 1, 1}, {"float", 1, 32, 1, 3},
		{"rgbf", 2, 32, 3, 3}, {"rgbaf", 2, 32, 4, 3}, {"int16", 1, 16, 1, 2}, {"int32", 1, 32, 1, 2},
		{"uint32", 1, 32, 1, 1}, {"double", 1, 64, 1, 3}
	};
	const K& k = kinds[src.draw(sizeof(kinds)/sizeof(kinds[0]))];
	bool big = src.draw(2), pack = k.bits <= 8 && src.draw(3) == 0, dirFirst = src.draw(2);
	unsigned int rowsPerStrip = src.draw(2) ? e.h : 1 + unsigned(rng.below(e.h));
	e.ext = src.draw(2) ? "tif" : "tiff";
	e.name = std::string("TIFF-") + k.name + (big ? "-be" : "-le") + (pack ? "-packbits" : "");
	e.alpha = k.samples == 4;
	auto p16 = [&](std::string& s, unsigned int v) {big ? putBE16(s, v) : put16(s, v);};
	auto p32 = [&](std::string& s, std::uint32_t v) {big ? putBE32(s, v) : put32(s, v);};
	std::vector<Color3> pal;
	if (k.photometric == 3)
		pal = palette(rng, 1u << k.bits);
	std::vector<std::string> strips;
	for (unsigned int y = 0; y < e.h; ++y)
	{
		BitRow row;
		for (unsigned int x = 0; x < e.w; ++x)
		{
			Px p{{0, 0, 0, 1}};
			for (int c = 0; c < k.samples; ++c)
			{
				double value = 0;
				if (k.sampleFormat == 3)
				{
					double d = (rng.unit() - 0.25)*std::pow(2.0, double(rng.below(24)) - 10);
					if (k.bits == 32)
					{
						float f = float(d);
						std::uint32_t u;
						std::memcpy(&u, &f, 4);
						p32(row.out, u);
						value = f;
					}
					else
					{
						std::uint64_t u;
						std::memcpy(&u, &d, 8);
						p32(row.out, std::uint32_t(big ? u >> 32 : u));
						p32(row.out, std::uint32_t(big ? u : u >> 32));
						value = d;
					}
				}
				else
				{
					std::uint64_t v = rng.below(std::uint64_t(1) << k.bits);
					if (k.bits < 8)
						row.add(unsigned(v), k.bits);
					else if (k.bits == 8)
						row.out += char(v);
					else if (k.bits == 16)
						p16(row.out, unsigned(v));
					else
						p32(row.out, std::uint32_t(v));
					if (k.photometric == 3)
					{
						p = pal[v].px();
						continue;
					}
					if (k.sampleFormat == 2)
						value = k.bits == 16 ? double(std::int16_t(v)) : double(std::int32_t(v));
					else if (k.bits == 32)
						value = double(v);
					else
						value = double(v)/double((std::uint64_t(1) << k.bits) - 1);
					if (k.photometric == 0)
						value = 1 - value;
				}
				p.c[c] = value;
			}
			if (k.samples == 1 && k.photometric != 3)
			{
				// Integer images hold a single number, the others a grey level.
				bool number = k.sampleFormat == 2 || (k.sampleFormat == 1 && k.bits == 32);
				if (number)
				{
					// Only the first channel is stored.
					p.c[1] = p.c[2] = std::numeric_limits<double>::quiet_NaN();
				}
				else
					p = grayPx(p.c[0]);
			}
			e.px.push_back(p);
		}
		row.finish(1);
		if (y%rowsPerStrip == 0)
			strips.emplace_back();
		strips.back() += pack ? packBits(row.out) : row.out;
	}
	struct Entry {unsigned int tag, type; std::vector<std::uint32_t> v;};
	std::vector<Entry> entries;
	auto add = [&](unsigned int tag, unsigned int type, std::vector<std::uint32_t> v)
	{
		entries.push_back(Entry{tag, type, std::move(v)});
	};
	add(256, 4, {e.w});
	add(257, 4, {e.h});
	add(258, 3, std::vector<std::uint32_t>(k.samples, k.bits));
	add(259, 3, {pack ? 32773u : 1u});
	add(262, 3, {std::uint32_t(k.photometric)});
	add(273, 4, std::vector<std::uint32_t>(strips.size())); // filled in below
	std::size_t offsetsEntry = entries.size() - 1;
	add(277, 3, {std::uint32_t(k.samples)});
	add(278, 4, {rowsPerStrip});
	std::vector<std::uint32_t> counts;
	for (const std::string& s : strips)
		counts.push_back(std::uint32_t(s.size()));
	add(279, 4, counts);
	add(284, 3, {1});
	if (k.photometric == 3)
	{
		std::vector<std::uint32_t> map;
		for (int c = 0; c < 3; ++c)
			for (const Color3& p : pal)
				map.push_back(p.c[c]*257);
		add(320, 3, map);
	}
	if (k.samples == 4)
		add(338, 3, {2}); // unassociated alpha
	if (k.sampleFormat != 1)
		add(339, 3, std::vector<std::uint32_t>(k.samples, k.sampleFormat));
	// Sizes of the parts.
	std::size_t dirSize = 2 + entries.size()*12 + 4, extraSize = 0, dataSize = 0;
	for (const Entry& t : entries)
	{
		std::size_t bytes = t.v.size()*(t.type == 3 ? 2 : 4);
		if (bytes > 4)
			extraSize += (bytes + 1)/2*2;
	}
	for (const std::string& s : strips)
		dataSize += s.size();
	dataSize = (dataSize + 1)/2*2;
	std::size_t dirPos = dirFirst ? 8 : 8 + dataSize;
	std::size_t extraPos = dirPos + dirSize, dataPos = dirFirst ? extraPos + extraSize : 8;
	std::string data;
	for (std::size_t i = 0; i < strips.size(); ++i)
	{
		entries[offsetsEntry].v[i] = std::uint32_t(dataPos + data.size());
		data += strips[i];
	}
	data.resize(dataSize);
	std::string dir, extra;
	p16(dir, unsigned(entries.size()));
	for (const Entry& t : entries)
	{
		p16(dir, t.tag);
		p16(dir, t.type);
		p32(dir, std::uint32_t(t.v.size()));
		std::string v;
		for (std::uint32_t x : t.v)
			t.type == 3 ? p16(v, x) : p32(v, x);
		if (v.size() <= 4)
		{
			v.resize(4);
			dir += v;
		}
		else
		{
			p32(dir, std::uint32_t(extraPos + extra.size()));
			v.resize((v.size() + 1)/2*2);
			extra += v;
		}
	}
	p32(dir, 0);
	std::string head = big ? "MM" : "II";
	p16(head, 42);
	p32(head, std::uint32_t(dirPos));
	e.bytes = dirFirst ? head + dir + extra + data : head + data + dir + extra;
}

void encodeGif(Src& src, Rng& rng, Encoded& e)
{
	e.ext = "gif";
	unsigned int depth = 1 + unsigned(src.draw(8)); // bits of the palette
	bool transparent = src.draw(2), local = src.draw(2), interlace = src.draw(3) == 0 && e.h > 4; // FreeImage misplaces the rows of shorter ones
	std::ostringstream nm;
	nm << "GIF-" << depth << "bit" << (transparent ? "-transparent" : "") <<
		(interlace ? "-interlaced" : "");
	e.name = nm.str();
	e.alpha = transparent;
	unsigned int colors = 1u << depth;
	std::vector<Color3> pal = palette(rng, colors);
	unsigned int key = unsigned(rng.below(colors));
	std::string table;
	for (const Color3& c : pal)
		for (unsigned int v : c.c)
			table += char(v);
	std::string o = "GIF89a";
	put16(o, e.w);
	put16(o, e.h);
	o += char(local ? 0x70 : 0xf0 | (depth - 1));
	o += '\0';
	o += '\0';
	if (!local)
		o += table;
	if (src.draw(3) == 0)
		o += std::string("\x21\xfe\x05hello\0", 9);
	if (transparent)
	{
		o += std::string("\x21\xf9\x04\x01\0\0", 6);
		o += char(key);
		o += '\0';
	}
	o += ',';
	put16(o, 0);
	put16(o, 0);
	put16(o, e.w);
	put16(o, e.h);
	o += char((local ? 0x80 | (depth - 1) : 0) | (interlace ? 0x40 : 0));
	if (local)
		o += table;
	std::size_t n = std::size_t(e.w)*e.h;
	std::vector<unsigned int> idx = indexImage(rng, n, colors);
	for (std::size_t i = 0; i < n; ++i)
	{
		Px p = pal[idx[i]].px();
		if (transparent && idx[i] == key)
			p.c[3] = 0;
		e.px.push_back(p);
	}
	std::vector<unsigned int> order;
	if (interlace)
	{
		static const unsigned int start[] = {0, 4, 2, 1}, step[] = {8, 8, 4, 2};
		for (int p = 0; p < 4; ++p)
			for (unsigned int y = start[p]; y < e.h; y += step[p])
				order.push_back(y);
	}
	else
	{
		for (unsigned int y = 0; y < e.h; ++y)
			order.push_back(y);
	}
	// Codes of one size only: the table is cleared before it would grow past it.
	unsigned int minCode = std::max(2u, depth), size = minCode + 1;
	std::string lzw;
	std::uint32_t acc = 0;
	unsigned int bits = 0;
	auto code = [&](unsigned int c)
	{
		acc |= c << bits;
		bits += size;
		while (bits >= 8)
		{
			lzw += char(acc & 0xff);
			acc >>= 8;
			bits -= 8;
		}
	};
	unsigned int clear = 1u << minCode, since = 0;
	code(clear);
	for (unsigned int y : order)
	{
		for (unsigned int x = 0; x < e.w; ++x)
		{
			if (since + 3 >= clear)
			{
				code(clear);
				since = 0;
			}
			code(idx[std::size_t(y)*e.w + x]);
			++since;
		}
	}
	code(clear + 1);
	if (bits)
		lzw += char(acc & 0xff);
	o += char(minCode);
	for (std::size_t pos = 0; pos < lzw.size(); pos += 255)
	{
		std::string block = lzw.substr(pos, 255);
		o += char(block.size());
		o += block;
	}
	o += '\0';
	o += ';';
	e.bytes = o;
}

void encodeHdr(Src& src, Rng& rng, Encoded& e)
{
	e.ext = "hdr";
	e.name = "HDR";
	(void)src;
	std::ostringstream o;
	o << "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y " << e.h << " +X " << e.w << "\n";
	std::string body;
	bool rle = e.w >= 8 && src.draw(2);
	if (rle)
		e.name = "HDR-rle";
	for (unsigned int y = 0; y < e.h; ++y)
	{
		std::string plane[4];
		for (unsigned int x = 0; x < e.w; ++x)
		{
			unsigned int c[4];
			// The largest mantissa is normalized; no byte pattern of the old run-length scheme.
			for (unsigned int& v : c)
				v = 2 + unsigned(rng.below(254));
			c[0] = 128 + unsigned(rng.below(128));
			c[3] = 118 + unsigned(rng.below(20));
			Px p{{0, 0, 0, 1}};
			for (int i = 0; i < 4; ++i)
			{
				if (!rle)
					body += char(c[i]);
				plane[i] += char(c[i]);
				if (i < 3)
					p.c[i] = c[i]*std::pow(2.0, int(c[3]) - 136);
			}
			e.px.push_back(p);
		}
		if (rle)
		{
			body += char(2);
			body += char(2);
			body += char(e.w >> 8);
			body += char(e.w & 0xff);
			for (const std::string& p : plane)
			{
				for (std::size_t pos = 0; pos < p.size(); pos += 128)
				{
					std::string lit = p.substr(pos, 128);
					body += char(lit.size());
					body += lit;
				}
			}
		}
	}
	e.bytes = o.str() + body;
}

void encodeOther(Src& src, Rng& rng, Encoded& e)
{
	std::size_t n = std::size_t(e.w)*e.h;
	switch (src.draw(3))
	{
		case 0: // SGI
		{
			int channels = src.draw(3) == 0 ? 1 : src.draw(2) ? 3 : 4;
			e.ext = "sgi";
			e.name = channels == 1 ? "SGI-gray" : channels == 3 ? "SGI-rgb" : "SGI-rgba";
			e.alpha = channels == 4;
			std::string o;
			putBE16(o, 474);
			o += '\0';
			o += char(1);
			putBE16(o, channels == 1 ? 2 : 3);
			putBE16(o, e.w);
			putBE16(o, e.h);
			putBE16(o, channels);
			putBE32(o, 0);
			putBE32(o, 255);
			o.resize(512);
			e.px.assign(n, Px{{0, 0, 0, 1}});
			for (int c = 0; c < channels; ++c)
			{
				for (unsigned int r = 0; r < e.h; ++r)
				{
					for (unsigned int x = 0; x < e.w; ++x)
					{
						unsigned int v = unsigned(rng.below(256));
						o += char(v);
						e.px[std::size_t(e.h - 1 - r)*e.w + x].c[c] = v/255.0;
					}
				}
			}
			if (channels == 1)
			{
				for (Px& p : e.px)
					p = grayPx(p.c[0]);
			}
			e.bytes = o;
			break;
		}
		case 1: // Sun raster, standard encoding
		{
			bool rgb = src.draw(2);
			e.ext = "ras";
			e.name = rgb ? "RAS-rgb" : "RAS-gray";
			std::size_t row = (e.w*(rgb ? 3 : 1) + 1)/2*2;
			std::string o;
			putBE32(o, 0x59a66a95);
			putBE32(o, e.w);
			putBE32(o, e.h);
			putBE32(o, rgb ? 24 : 8);
			putBE32(o, std::uint32_t(row*e.h));
			putBE32(o, 1);
			putBE32(o, 0);
			putBE32(o, 0);
			for (unsigned int y = 0; y < e.h; ++y)
			{
				std::string line;
				for (unsigned int x = 0; x < e.w; ++x)
				{
					unsigned int c[3];
					for (unsigned int& v : c)
						v = unsigned(rng.below(256));
					if (rgb)
					{
						for (int k = 2; k >= 0; --k)
							line += char(c[k]);
						e.px.push_back(Px{{c[0]/255.0, c[1]/255.0, c[2]/255.0, 1}});
					}
					else
					{
						line += char(c[0]);
						e.px.push_back(grayPx(c[0]/255.0));
					}
				}
				line.resize(row);
				o += line;
			}
			e.bytes = o;
			break;
		}
		default: // PSD, merged image
		{
			int channels = src.draw(3) == 0 ? 1 : 3;
			bool wide = src.draw(2), pack = !wide && src.draw(2);
			e.ext = "psd";
			e.name = std::string(channels == 1 ? "PSD-gray" : "PSD-rgb") + (wide ? "16" : "8") +
				(pack ? "-packbits" : "");
			std::string o = "8BPS";
			putBE16(o, 1);
			o += std::string(6, '\0');
			putBE16(o, channels);
			putBE32(o, e.h);
			putBE32(o, e.w);
			putBE16(o, wide ? 16 : 8);
			putBE16(o, channels == 1 ? 1 : 3);
			putBE32(o, 0);
			putBE32(o, 0);
			putBE32(o, 0);
			putBE16(o, pack ? 1 : 0);
			e.px.assign(n, Px{{0, 0, 0, 1}});
			std::string sizes, data;
			for (int c = 0; c < channels; ++c)
			{
				for (unsigned int y = 0; y < e.h; ++y)
				{
					std::string row;
					for (unsigned int x = 0; x < e.w; ++x)
					{
						unsigned int v = unsigned(rng.below(wide ? 65536 : 256));
						if (rng.below(3) && !row.empty() && !wide)
							v = (unsigned char)row.back();
						wide ? putBE16(row, v) : void(row += char(v));
						e.px[std::size_t(y)*e.w + x].c[c] = v/(wide ? 65535.0 : 255.0);
					}
					if (pack)
						row = packBits(row);
					putBE16(sizes, unsigned(row.size()));
					data += row;
				}
			}
			if (channels == 1)
			{
				for (Px& p : e.px)
					p = grayPx(p.c[0]);
			}
			e.bytes = o + (pack ? sizes : "") + data;
			break;
		}
	}
}

} // namespace

namespace
{

Encoded drawFile(Src& src, std::uint64_t mode, unsigned int maxW, unsigned int maxH)
{
	if (mode == 0)
		return encodeForeign(src);
	Encoded e;
	e.w = genDim(src, maxW);
	e.h = genDim(src, maxH);
	Rng rng(src.seed32());
	switch (mode)
	{
		case 1: case 2: encodeBmp(src, rng, e); break;
		case 3: case 4: encodeTga(src, rng, e); break;
		case 5: case 6: encodePng(src, rng, e); break;
		case 7: encodePnm(src, rng, e); break;
		case 8: case 9: encodeTiff(src, rng, e); break;
		case 10: src.draw(2) ? encodeGif(src, rng, e) : encodeHdr(src, rng, e); break;
		default: encodeOther(src, rng, e); break;
	}
	return e;
}

} // namespace

std::string drawImageFile(Src& src, std::string& ext, std::string& name)
{
	Encoded e = drawFile(src, src.draw(12), 12, 12);
	ext = e.ext;
	name = e.name;
	return e.bytes;
}

PROPERTY(C27, 100000, 1600000,
	"a file is made by an independent encoder: BMP (1/4/8/16/24/32 bits, palettes, RLE4/RLE8, bit "
	"fields, OS/2 headers, both row orders), TGA (palette, grey, 16/24/32 bits, RLE, both "
	"origins), PNG (every colour type and depth, tRNS, filters, Adam7, split IDAT), ASCII and binary "
	"PNM, PFM, TIFF (bilevel to double, both byte orders, strips, PackBits, palettes, alpha), GIF, "
	"HDR, SGI, RAS, PSD; it is loaded by file, memory, offset stream and forward-only stream and "
	"compared pixel by pixel, then used through a copy and a conversion. Non-trivial: more than one "
	"pixel value")
{
	std::string dir = pbt::scratchDir();
	ColorSpace cs = src.draw(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	Encoded e = drawFile(src, src.strat(12), 70, 40);
	src.note << e.name << " " << e.w << "x" << e.h << " " << csName(cs);
	src.label(e.name);
	std::vector<std::pair<const char*, Loaded>> loaded;
	loadAll(src, e.bytes, dir + "/in." + e.ext, cs, loaded, true, true);
	for (auto& l : loaded)
	{
		const Image& img = l.second.img;
		std::string key = e.name + ":" + l.first;
		CHECK_P(l.second.ok && img.isValid(), key + ":refused", "a valid " << e.name <<
			" image could not be loaded from " << l.first);
		CHECK_P(img.width() == e.w && img.height() == e.h, key + ":size", "loaded size is " <<
			img.width() << "x" << img.height());
		CHECK_P(img.colorSpace() == cs, key + ":colorspace", "wrong colour space");
		for (unsigned int y = 0; y < e.h; ++y)
		{
			for (unsigned int x = 0; x < e.w; ++x)
			{
				Px p = getPx(img, x, y), q = e.px[std::size_t(y)*e.w + x];
				for (int c = 0; c < (e.alpha ? 4 : 3); ++c)
				{
					if (std::isnan(q.c[c]))
						continue;
					CHECK_P(std::abs(p.c[c] - q.c[c]) < 1e-9*std::max(1.0, std::abs(q.c[c])),
						key + ":pixel", "pixel (" << x << "," << y << ") is " << p <<
						", the file holds " << q);
				}
			}
		}
		src.checks(std::uint64_t(e.w)*e.h);
		CHECK_P(sameImage(img, loaded[0].second.img), key + ":routes-differ", "the image from " <<
			l.first << " is not the one from the file");
	}
	// The loaded image is an ordinary image.
	const Image& img = loaded[src.draw(loaded.size())].second.img;
	Image copy(img);
	CHECK_P(sameImage(copy, img), e.name + ":copy", "a copy of the loaded image differs");
	Image conv = img.convert(IF::RGBAF);
	CHECK_P(conv.isValid() && conv.format() == IF::RGBAF, e.name + ":convert",
		"the loaded image cannot be converted");
	for (unsigned int y = 0; y < e.h; ++y)
	{
		for (unsigned int x = 0; x < e.w; ++x)
		{
			Px p = getPx(conv, x, y), q = e.px[std::size_t(y)*e.w + x];
			for (int c = 0; c < (e.alpha ? 4 : 3); ++c)
			{
				if (std::isnan(q.c[c]) || std::isnan(q.c[1]))
					continue;
				CHECK_P(std::abs(p.c[c] - q.c[c]) < 1e-5*std::max(1.0, std::abs(q.c[c])),
					e.name + ":converted-pixel", "as RGBAF pixel (" << x << "," << y << ") is " << p <<
					", the file holds " << q);
			}
		}
	}
	for (const Px& p : e.px)
	{
		if (!(p == e.px[0]))
		{
			src.nontrivial();
			break;
		}
	}
}

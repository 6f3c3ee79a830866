// C07 DDS, C08 KTX, C09 PVR: what is written, read back by parsers written from the specifications.
// C11: every way of saving gives the same bytes. C12: failures to write are reported.
#include "texcommon.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

namespace
{

typedef std::vector<std::uint8_t> Bytes;

struct Reader
{
	Reader(const Bytes& b, const char* k) : data(b), key(k) {}
	const std::uint8_t* take(std::size_t n, const char* what)
	{
		CHECK_P(n <= data.size() - pos, std::string(key) + "-truncated", "the file ends inside " <<
			what << ": " << data.size() << " bytes, " << n << " needed at " << pos);
		const std::uint8_t* p = data.data() + pos;
		pos += n;
		return p;
	}
	std::uint32_t u32(const char* what)
	{
		const std::uint8_t* p = take(4, what);
		return p[0] | p[1] << 8 | p[2] << 16 | std::uint32_t(p[3]) << 24;
	}
	void end()
	{
		CHECK_P(pos == data.size(), std::string(key) + "-trailing", data.size() - pos <<
			" bytes follow the last surface");
	}
	const Bytes& data;
	const char* key;
	std::size_t pos = 0;
};

#define WANT(field, have, want) \
	CHECK_P((have) == (want), r.key + std::string("-") + field, field << " is " << (have) << \
		", not " << (want) << " for " << what)

// How the bits of a pixel are to be read according to a file.
struct Layout
{
	int bytes;
	int offset[4];
	int width[4];
	char type;
};

std::string layoutName(const Layout& l)
{
	std::ostringstream os;
	os << l.bytes << " bytes";
	for (int c = 0; c < 4; ++c)
	{
		if (l.width[c])
			os << " " << "rgba"[c] << l.width[c] << "@" << l.offset[c];
	}
	os << " " << l.type;
	return os.str();
}

Layout layoutOf(const TexFmt& f, TT t)
{
	Layout l{int(f.bytes), {}, {}, typeChar(t)};
	for (int c = 0; c < 4; ++c)
	{
		l.width[c] = f.width[c];
		l.offset[c] = f.width[c] ? f.offset[c] : 0;
	}
	return l;
}

bool operator==(const Layout& a, const Layout& b)
{
	return layoutName(a) == layoutName(b);
}

Layout bytesLayout(int channels, int bits, char type, bool bgr = false)
{
	Layout l{channels*bits/8, {}, {}, type};
	for (int c = 0; c < channels; ++c)
	{
		int k = bgr && c < 3 ? 2 - c : c;
		l.offset[c] = k*bits;
		l.width[c] = bits;
	}
	return l;
}

// A converted texture with its content, ready to save.
struct Converted
{
	Spec spec;
	const TexFmt* f;
	TT t;
	ConvertArgs args;
	Texture tex;
	std::string name;
	Floats content;
	bool array() const {return spec.depth > 0 && spec.dim != TD::Dim3D;}
	unsigned int elements() const {return array() ? spec.depth : 1;}
};

Converted makeConverted(Src& src, const std::vector<FmtType>& pairs, unsigned int maxPixels,
	unsigned int bigEvery = 300)
{
	Converted r;
	const FmtType& p = src.stratPick(pairs);
	r.f = p.f;
	r.t = p.t;
	src.note << p.f->name << " " << typeName(p.t) << " ";
	r.spec = genSpec(src, maxPixels, p.f->srgb && p.t == TT::UNorm && src.draw(2) ? 1 : 0, bigEvery);
	src.note << r.spec;
	r.tex = makeTexture(r.spec);
	r.content = fillTexture(src, r.tex, r.spec, *p.f, p.t);
	r.args = genConvertArgs(src);
	CHECK_P(convertWith(r.tex, p.f->f, p.t, r.args), "convert-refused", "convert to " << p.f->name <<
		" " << typeName(p.t) << " failed for " << r.spec << r.args);
	std::ostringstream os;
	os << p.f->name << " " << typeName(p.t) << " " << r.spec;
	r.name = os.str();
	if (r.spec.surfaces() > 1 || r.spec.w*r.spec.h > 1)
		src.nontrivial();
	return r;
}

Bytes saveBytes(Converted& c, Texture::FileType type, const char* key)
{
	Bytes out;
	Texture::SaveResult res = c.tex.save(out, type);
	CHECK_P(res == Texture::SaveResult::Success, std::string(key) + "-save", "saving " << c.name <<
		" returned " << int(res));
	return out;
}

// The rows of a surface in a file against the data of the texture.
void checkSurface(Reader& r, Converted& c, const SurfIdx& i, std::size_t rowAlign,
	Src& src)
{
	unsigned int w = refLevelSize(c.spec.w, i.mip), h = refLevelSize(c.spec.h, i.mip);
	std::size_t row = std::size_t(w)*c.f->bytes;
	const std::uint8_t* data = surfData(c.tex, i);
	CHECK_P(data && surfSize(c.tex, i) == row*h, std::string(r.key) + "-data", surfName(i) <<
		" has no data to compare");
	for (unsigned int y = 0; y < h; ++y)
	{
		const std::uint8_t* p = r.take(row, "a surface");
		if (std::memcmp(p, data + y*row, row) != 0)
		{
			std::size_t k = std::mismatch(p, p + row, data + y*row).first - p;
			CHECK_P(false, std::string(r.key) + "-surface", surfName(i) << " of " << c.name <<
				" isn't where the format puts it: row " << y << " byte " << k << " differs");
		}
		std::size_t pad = (rowAlign - row%rowAlign)%rowAlign;
		if (pad)
			r.take(pad, "row padding");
	}
	src.checks(h);
}

// Decodes the pixels as the file's own description says, and compares with the source colours.
void checkMeaning(const Converted& c, const Layout& l, const char* key)
{
	Layout want = layoutOf(*c.f, c.t);
	CHECK_P(l == want, std::string(key) + "-format", "the file describes pixels of " << c.name <<
		" as " << layoutName(l) << ", they are " << layoutName(want));
}

//---------------------------------------------------------------------------------------------
// DDS

struct Dxgi {std::uint32_t id; Layout l; bool srgb;};

const std::vector<Dxgi>& dxgiFormats()
{
	static std::vector<Dxgi> v;
	if (!v.empty())
		return v;
	auto add = [](std::uint32_t id, int ch, int bits, char t, bool srgb = false, bool bgr = false)
	{
		v.push_back(Dxgi{id, bytesLayout(ch, bits, t, bgr), srgb});
	};
	add(2, 4, 32, 'f'); add(3, 4, 32, 'U'); add(4, 4, 32, 'I');
	add(6, 3, 32, 'f'); add(7, 3, 32, 'U'); add(8, 3, 32, 'I');
	add(10, 4, 16, 'f'); add(11, 4, 16, 'u'); add(12, 4, 16, 'U'); add(13, 4, 16, 'n');
	add(14, 4, 16, 'I');
	add(16, 2, 32, 'f'); add(17, 2, 32, 'U'); add(18, 2, 32, 'I');
	v.push_back(Dxgi{24, {4, {0, 10, 20, 30}, {10, 10, 10, 2}, 'u'}, false});
	v.push_back(Dxgi{25, {4, {0, 10, 20, 30}, {10, 10, 10, 2}, 'U'}, false});
	v.push_back(Dxgi{26, {4, {0, 11, 22, 0}, {11, 11, 10, 0}, 'F'}, false});
	add(28, 4, 8, 'u'); add(29, 4, 8, 'u', true); add(30, 4, 8, 'U'); add(31, 4, 8, 'n');
	add(32, 4, 8, 'I');
	add(34, 2, 16, 'f'); add(35, 2, 16, 'u'); add(36, 2, 16, 'U'); add(37, 2, 16, 'n');
	add(38, 2, 16, 'I');
	add(41, 1, 32, 'f'); add(42, 1, 32, 'U'); add(43, 1, 32, 'I');
	add(49, 2, 8, 'u'); add(50, 2, 8, 'U'); add(51, 2, 8, 'n'); add(52, 2, 8, 'I');
	add(54, 1, 16, 'f'); add(56, 1, 16, 'u'); add(57, 1, 16, 'U'); add(58, 1, 16, 'n');
	add(59, 1, 16, 'I');
	add(61, 1, 8, 'u'); add(62, 1, 8, 'U'); add(63, 1, 8, 'n'); add(64, 1, 8, 'I');
	v.push_back(Dxgi{67, {4, {0, 9, 18, 0}, {9, 9, 9, 0}, 'F'}, false});
	v.push_back(Dxgi{85, {2, {11, 5, 0, 0}, {5, 6, 5, 0}, 'u'}, false});
	v.push_back(Dxgi{86, {2, {10, 5, 0, 15}, {5, 5, 5, 1}, 'u'}, false});
	add(87, 4, 8, 'u', false, true); add(91, 4, 8, 'u', true, true);
	// IA44 is the only format with two channels of four bits.
	v.push_back(Dxgi{112, {1, {4, 0, 0, 0}, {4, 4, 0, 0}, 'u'}, false});
	v.push_back(Dxgi{115, {2, {8, 4, 0, 12}, {4, 4, 4, 4}, 'u'}, false});
	return v;
}

} // namespace

PROPERTY(C07, 120000, 2400000,
	"Each case converts a random texture (dimension, size, layers, mip levels, colour space, alpha) to "
	"one of the format and type pairs DDS has a DXGI format for (enumerated), saves it and reads the "
	"file with a parser written from the DDS specification: every header field, the layout the DXGI "
	"format describes, and every row of every surface at its place. Non-trivial: more than one pixel "
	"or surface.")
{
	static const std::vector<FmtType> pairs = validPairs([](const TexFmt& f, TT t)
		{
			return ddsSupports(f, t);
		});
	Converted c = makeConverted(src, pairs, 900);
	Bytes file = saveBytes(c, Texture::FileType::DDS, "dds");
	const Spec& s = c.spec;
	const std::string& what = c.name;
	Reader r(file, "dds");
	WANT("magic", r.u32("magic"), 0x20534444u);
	WANT("size", r.u32("header"), 124u);
	std::uint32_t flags = r.u32("header");
	std::uint32_t height = r.u32("header"), width = r.u32("header"), pitch = r.u32("header");
	std::uint32_t depth = r.u32("header"), mips = r.u32("header");
	r.take(44, "header");
	std::uint32_t pfSize = r.u32("header"), pfFlags = r.u32("header"), fourcc = r.u32("header");
	r.take(20, "header");
	std::uint32_t caps = r.u32("header"), caps2 = r.u32("header");
	r.take(12, "header");
	bool vol = s.dim == TD::Dim3D, cube = s.dim == TD::Cube;
	WANT("required flags", flags & 0x1007, 0x1007u);
	WANT("depth flag", flags & 0x800000, vol ? 0x800000u : 0u);
	CHECK_P(s.mips == 1 || (flags & 0x20000), "dds-flags", "no mip flag for " << what);
	WANT("height", height, s.h);
	WANT("width", width, s.w);
	if (flags & 0x8)
		WANT("pitch", pitch, s.w*c.f->bytes);
	WANT("linear size flag", flags & 0x80000, 0u);
	if (vol)
		WANT("depth", depth, s.depth);
	else
		CHECK_P(depth <= 1, "dds-depth", "depth is " << depth << " for " << what);
	WANT("mip count", mips, s.mips);
	WANT("pixel format size", pfSize, 32u);
	WANT("pixel format flags", pfFlags, 4u);
	WANT("FourCC", fourcc, 0x30315844u);
	WANT("texture caps", caps & 0x1000, 0x1000u);
	WANT("mip caps", caps & 0x400000, s.mips > 1 ? 0x400000u : 0u);
	if (s.mips > 1 || vol || cube)
		WANT("complex caps", caps & 0x8, 0x8u);
	WANT("caps2", caps2, cube ? 0xfe00u : vol ? 0x200000u : 0u);

	std::uint32_t dxgi = r.u32("DX10 header"), dim = r.u32("DX10 header"),
		misc = r.u32("DX10 header"), array = r.u32("DX10 header"), misc2 = r.u32("DX10 header");
	WANT("resource dimension", dim, s.dim == TD::Dim1D ? 2u : vol ? 4u : 3u);
	WANT("misc flag", misc, cube ? 4u : 0u);
	WANT("array size", array, c.elements());
	std::uint32_t mode = 3;
	if (c.f->alpha)
	{
		switch (c.args.alpha)
		{
			case Texture::Alpha::None: mode = 3; break;
			case Texture::Alpha::Standard: mode = 1; break;
			case Texture::Alpha::PreMultiplied: mode = 2; break;
			case Texture::Alpha::Encoded: mode = 4; break;
		}
	}
	WANT("alpha mode", misc2, mode);
	const Dxgi* d = nullptr;
	for (const Dxgi& i : dxgiFormats())
	{
		if (i.id == dxgi)
			d = &i;
	}
	CHECK_P(d, "dds-format", "DXGI format " << dxgi << " for " << what);
	checkMeaning(c, d->l, "dds");
	WANT("sRGB format", d->srgb, s.cs == ColorSpace::sRGB);

	for (unsigned int e = 0; e < c.elements(); ++e)
	{
		for (unsigned int f = 0; f < s.faces(); ++f)
		{
			for (unsigned int m = 0; m < s.mips; ++m)
			{
				unsigned int slices = vol ? s.layers(m) : 1;
				for (unsigned int z = 0; z < slices; ++z)
					checkSurface(r, c, SurfIdx{m, vol ? z : e, f}, 1, src);
			}
		}
	}
	r.end();
	checkConverted(c.tex, s, *c.f, c.t, c.content);
}

//---------------------------------------------------------------------------------------------
// KTX

namespace
{

// Layout that a pair of OpenGL format and type describes, as pixels in little-endian memory.
bool glLayout(std::uint32_t format, std::uint32_t type, Layout& l, bool& integer)
{
	int channels;
	bool bgr = false;
	integer = false;
	switch (format)
	{
		case 0x1903: channels = 1; break;
		case 0x8227: channels = 2; break;
		case 0x1907: channels = 3; break;
		case 0x1908: channels = 4; break;
		case 0x80E0: channels = 3; bgr = true; break;
		case 0x80E1: channels = 4; bgr = true; break;
		case 0x8D94: channels = 1; integer = true; break;
		case 0x8228: channels = 2; integer = true; break;
		case 0x8D98: channels = 3; integer = true; break;
		case 0x8D99: channels = 4; integer = true; break;
		case 0x8D9A: channels = 3; bgr = true; integer = true; break;
		case 0x8D9B: channels = 4; bgr = true; integer = true; break;
		default: return false;
	}
	switch (type)
	{
		case 0x1400: l = bytesLayout(channels, 8, 'I', bgr); return true;
		case 0x1401: l = bytesLayout(channels, 8, 'U', bgr); return true;
		case 0x1402: l = bytesLayout(channels, 16, 'I', bgr); return true;
		case 0x1403: l = bytesLayout(channels, 16, 'U', bgr); return true;
		case 0x1404: l = bytesLayout(channels, 32, 'I', bgr); return true;
		case 0x1405: l = bytesLayout(channels, 32, 'U', bgr); return true;
		case 0x1406: l = bytesLayout(channels, 32, 'f', bgr); return !integer;
		case 0x140B: l = bytesLayout(channels, 16, 'f', bgr); return !integer;
	}
	// Packed types: widths of the components in the order of the format, first component in the most
	// significant bits unless reversed.
	std::vector<int> bits;
	bool rev = false;
	char t = 'U';
	switch (type)
	{
		case 0x8033: bits = {4, 4, 4, 4}; break;
		case 0x8365: bits = {4, 4, 4, 4}; rev = true; break;
		case 0x8034: bits = {5, 5, 5, 1}; break;
		case 0x8366: bits = {5, 5, 5, 1}; rev = true; break;
		case 0x8363: bits = {5, 6, 5}; break;
		case 0x8364: bits = {5, 6, 5}; rev = true; break;
		case 0x8035: bits = {8, 8, 8, 8}; break;
		case 0x8367: bits = {8, 8, 8, 8}; rev = true; break;
		case 0x8036: bits = {10, 10, 10, 2}; break;
		case 0x8368: bits = {10, 10, 10, 2}; rev = true; break;
		case 0x8C3B: bits = {11, 11, 10}; rev = true; t = 'F'; break;
		case 0x8C3E: bits = {9, 9, 9}; rev = true; t = 'F'; break;
		default: return false;
	}
	if (int(bits.size()) != channels || (t == 'F' && (bgr || integer)))
		return false;
	int total = 0;
	for (int b : bits)
		total += b;
	if (type == 0x8C3E)
		total += 5; // the shared exponent is in the most significant bits
	l = Layout{total/8, {}, {}, t};
	int at = rev ? 0 : total;
	for (int k = 0; k < channels; ++k)
	{
		int c = bgr && k < 3 ? 2 - k : k;
		if (!rev)
			at -= bits[std::size_t(k)];
		l.offset[c] = at;
		l.width[c] = bits[std::size_t(k)];
		if (rev)
			at += bits[std::size_t(k)];
	}
	return true;
}

unsigned int glTypeSize(std::uint32_t type)
{
	switch (type)
	{
		case 0x1400: case 0x1401: return 1;
		case 0x1402: case 0x1403: case 0x140B: return 2;
		case 0x8033: case 0x8034: case 0x8363: case 0x8364: case 0x8365: case 0x8366: return 2;
		default: return 4;
	}
}

// Sized internal formats by the widths and type they store.
std::uint32_t glInternal(const TexFmt& f, TT t, bool srgb)
{
	char k = typeChar(t);
	std::string w;
	for (int c = 0; c < 4; ++c)
	{
		if (f.width[c])
			w += std::to_string(f.width[c]) + " ";
	}
	std::string key = w + k + (srgb ? "s" : "");
	static const std::map<std::string, std::uint32_t> m =
	{
		{"4 4 4 4 u", 0x8056}, {"5 6 5 u", 0x8D62}, {"5 5 5 1 u", 0x8057},
		{"8 u", 0x8229}, {"8 n", 0x8F94}, {"8 U", 0x8232}, {"8 I", 0x8231},
		{"8 8 u", 0x822B}, {"8 8 n", 0x8F95}, {"8 8 U", 0x8238}, {"8 8 I", 0x8237},
		{"8 8 8 u", 0x8051}, {"8 8 8 us", 0x8C41}, {"8 8 8 n", 0x8F96}, {"8 8 8 U", 0x8D7D},
		{"8 8 8 I", 0x8D8F},
		{"8 8 8 8 u", 0x8058}, {"8 8 8 8 us", 0x8C43}, {"8 8 8 8 n", 0x8F97}, {"8 8 8 8 U", 0x8D7C},
		{"8 8 8 8 I", 0x8D8E},
		{"10 10 10 2 u", 0x8059}, {"10 10 10 2 U", 0x906F},
		{"16 u", 0x822A}, {"16 n", 0x8F98}, {"16 U", 0x8234}, {"16 I", 0x8233}, {"16 f", 0x822D},
		{"16 16 u", 0x822C}, {"16 16 n", 0x8F99}, {"16 16 U", 0x823A}, {"16 16 I", 0x8239},
		{"16 16 f", 0x822F},
		{"16 16 16 u", 0x8054}, {"16 16 16 n", 0x8F9A}, {"16 16 16 U", 0x8D77},
		{"16 16 16 I", 0x8D89}, {"16 16 16 f", 0x881B},
		{"16 16 16 16 u", 0x805B}, {"16 16 16 16 n", 0x8F9B}, {"16 16 16 16 U", 0x8D76},
		{"16 16 16 16 I", 0x8D88}, {"16 16 16 16 f", 0x881A},
		{"32 U", 0x8236}, {"32 I", 0x8235}, {"32 f", 0x822E},
		{"32 32 U", 0x823C}, {"32 32 I", 0x823B}, {"32 32 f", 0x8230},
		{"32 32 32 U", 0x8D71}, {"32 32 32 I", 0x8D83}, {"32 32 32 f", 0x8815},
		{"32 32 32 32 U", 0x8D70}, {"32 32 32 32 I", 0x8D82}, {"32 32 32 32 f", 0x8814},
		{"11 11 10 F", 0x8C3A}, {"9 9 9 F", 0x8C3D},
	};
	auto i = m.find(key);
	return i == m.end() ? 0 : i->second;
}

} // namespace

PROPERTY(C08, 120000, 2400000,
	"Each case converts a random texture to one of the format and type pairs KTX supports "
	"(enumerated), saves it and reads the file with a parser written from the KTX 1.1 and OpenGL "
	"specifications: every header field, the layout that glFormat and glType describe, the sized "
	"internal format, the size and padding of every level, and every row of every surface at its "
	"place. Non-trivial: more than one pixel or surface.")
{
	static const std::vector<FmtType> pairs = validPairs([](const TexFmt& f, TT t)
		{
			return ktxSupports(f, t);
		});
	Converted c = makeConverted(src, pairs, 900);
	Bytes file = saveBytes(c, Texture::FileType::KTX, "ktx");
	const Spec& s = c.spec;
	const std::string& what = c.name;
	Reader r(file, "ktx");
	static const std::uint8_t id[12] = {0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A,
		0x0A};
	CHECK_P(std::memcmp(r.take(12, "identifier"), id, 12) == 0, "ktx-identifier",
		"wrong identifier for " << what);
	WANT("endianness", r.u32("header"), 0x04030201u);
	std::uint32_t type = r.u32("header"), typeSize = r.u32("header"), format = r.u32("header"),
		internal = r.u32("header"), base = r.u32("header");
	Layout l;
	bool integer;
	CHECK_P(glLayout(format, type, l, integer), "ktx-format", "glFormat " << format << " and glType " <<
		type << " don't go together for " << what);
	WANT("type size", typeSize, glTypeSize(type));
	// Normalized formats are described by integer types without an integer format.
	bool wantInteger = c.t == TT::UInt || c.t == TT::Int;
	WANT("integer format", integer, wantInteger);
	if (!integer && (l.type == 'U' || l.type == 'I'))
		l.type = l.type == 'U' ? 'u' : 'n';
	checkMeaning(c, l, "ktx");
	WANT("internal format", internal, glInternal(*c.f, c.t, s.cs == ColorSpace::sRGB));
	int channels = 0;
	for (int w : c.f->width)
		channels += w > 0;
	static const std::vector<std::vector<std::uint32_t>> bases = {{}, {0x1903, 0x1909, 0x8049},
		{0x8227, 0x190A}, {0x1907, 0x80E0}, {0x1908, 0x80E1}};
	const auto& b = bases[std::size_t(channels)];
	CHECK_P(std::find(b.begin(), b.end(), base) != b.end(), "ktx-base", "base internal format " <<
		base << " doesn't have " << channels << " channels for " << what);
	bool vol = s.dim == TD::Dim3D, cube = s.dim == TD::Cube;
	WANT("width", r.u32("header"), s.w);
	WANT("height", r.u32("header"), s.dim == TD::Dim1D ? 0u : s.h);
	WANT("depth", r.u32("header"), vol ? s.depth : 0u);
	WANT("array elements", r.u32("header"), c.array() ? s.depth : 0u);
	WANT("faces", r.u32("header"), cube ? 6u : 1u);
	WANT("mip levels", r.u32("header"), s.mips);
	std::uint32_t kv = r.u32("header");
	for (std::size_t stop = r.pos + kv; r.pos < stop;)
	{
		std::uint32_t n = r.u32("key and value data");
		r.take((n + 3)/4*4, "key and value data");
		CHECK_P(r.pos <= stop, "ktx-keyvalue", "the key and value data doesn't fit its size");
	}
	for (unsigned int m = 0; m < s.mips; ++m)
	{
		std::uint32_t size = r.u32("image size");
		std::size_t row = (std::size_t(refLevelSize(s.w, m))*c.f->bytes + 3)/4*4;
		std::size_t face = row*refLevelSize(s.h, m);
		std::size_t all = face*(vol ? s.layers(m) : 1);
		if (c.array())
			all *= c.elements()*s.faces();
		WANT("image size", std::size_t(size), all);
		std::size_t start = r.pos;
		for (unsigned int e = 0; e < c.elements(); ++e)
		{
			for (unsigned int f = 0; f < s.faces(); ++f)
			{
				for (unsigned int z = 0; z < (vol ? s.layers(m) : 1); ++z)
					checkSurface(r, c, SurfIdx{m, vol ? z : e, f}, 4, src);
				CHECK_P((r.pos - start)%4 == 0, "ktx-padding", "a face isn't padded to 4 bytes");
			}
		}
	}
	r.end();
	checkConverted(c.tex, s, *c.f, c.t, c.content);
}

//---------------------------------------------------------------------------------------------
// PVR

PROPERTY(C09, 120000, 2400000,
	"Each case converts a random texture to one of all valid uncompressed format and type pairs "
	"(enumerated), saves it and reads the file with a parser written from the PVR version 3 "
	"specification: every header field, the layout that the pixel format and channel type describe, "
	"the metadata blocks, and every surface at its place. Non-trivial: more than one pixel or "
	"surface.")
{
	static const std::vector<FmtType> pairs = validPairs();
	Converted c = makeConverted(src, pairs, 900);
	Bytes file = saveBytes(c, Texture::FileType::PVR, "pvr");
	const Spec& s = c.spec;
	const std::string& what = c.name;
	Reader r(file, "pvr");
	WANT("version", r.u32("header"), 0x03525650u);
	std::uint32_t flags = r.u32("header");
	std::uint32_t lo = r.u32("header"), hi = r.u32("header");
	std::uint32_t cs = r.u32("header"), type = r.u32("header");
	bool vol = s.dim == TD::Dim3D, cube = s.dim == TD::Cube;
	WANT("unknown flags", flags & ~2u, 0u);
	if (c.f->alpha)
		WANT("pre-multiplied flag", flags, c.args.alpha == Texture::Alpha::PreMultiplied ? 2u : 0u);
	WANT("colour space", cs, s.cs == ColorSpace::sRGB ? 1u : 0u);
	WANT("height", r.u32("header"), s.h);
	WANT("width", r.u32("header"), s.w);
	WANT("depth", r.u32("header"), vol ? s.depth : 1u);
	WANT("surfaces", r.u32("header"), c.elements());
	WANT("faces", r.u32("header"), cube ? 6u : 1u);
	WANT("mip levels", r.u32("header"), s.mips);

	// The pixel format.
	static const char types[] = "unUIunUIunUIfF";
	static const int unit[] = {8, 8, 8, 8, 16, 16, 16, 16, 32, 32, 32, 32, 0, 0};
	CHECK_P(type < 14, "pvr-type", "channel type " << type << " for " << what);
	if (hi == 0)
	{
		WANT("special format", lo, 19u);
		CHECK_P(c.f->f == TF::E5B9G9R9_UFloat, "pvr-format", "special format " << lo << " for " << what);
	}
	else
	{
		Layout l{0, {}, {}, types[type]};
		int total = 0, count = 0;
		bool packed = false;
		for (int k = 0; k < 4; ++k)
		{
			int bits = int(hi >> 8*k & 0xff);
			total += bits;
			count += bits > 0;
			packed = packed || (bits && bits%8 != 0);
		}
		int at = packed ? total : 0;
		bool seen[4] = {};
		for (int k = 0; k < 4; ++k)
		{
			char name = char(lo >> 8*k & 0xff);
			int bits = int(hi >> 8*k & 0xff);
			CHECK_P((name != 0) == (bits != 0), "pvr-format", "channel " << k << " of the pixel format "
				"is named " << int(name) << " and has " << bits << " bits for " << what);
			if (!name)
				continue;
			const char* pos = std::strchr("rgba", name);
			CHECK_P(pos && k < count, "pvr-format", "channel " << k << " is named " << int(name) <<
				" for " << what);
			int ch = int(pos - "rgba" + 0)%4;
			ch = name == 'r' ? 0 : name == 'g' ? 1 : name == 'b' ? 2 : 3;
			CHECK_P(!seen[ch], "pvr-format", "channel " << name << " repeats for " << what);
			seen[ch] = true;
			if (packed)
				at -= bits;
			l.offset[ch] = at;
			l.width[ch] = bits;
			if (!packed)
				at += bits;
		}
		l.bytes = total/8;
		checkMeaning(c, l, "pvr");
		int u = packed ? total : l.width[0];
		CHECK_P(unit[type] == 0 || unit[type] == u, "pvr-type", "channel type " << type <<
			" is for units of " << unit[type] << " bits, not " << u << ": " << what);
	}
	CHECK_P(types[type] == typeChar(c.t), "pvr-type", "channel type " << type << " for " << what);

	// Metadata.
	std::uint32_t meta = r.u32("header");
	std::size_t stop = r.pos + meta;
	bool array = false, dim1 = false;
	while (r.pos < stop)
	{
		std::uint32_t cc = r.u32("metadata"), key = r.u32("metadata"), size = r.u32("metadata");
		r.take(size, "metadata");
		CHECK_P(r.pos <= stop, "pvr-metadata", "the metadata doesn't fit its size for " << what);
		if (cc == 0x53465443 && key == 0x59525241)
			array = true;
		else if (cc == 0x53465443 && key == 0x314D4944)
			dim1 = true;
		else if (cc == 0x53465443)
			CHECK_P(false, "pvr-metadata", "metadata with the key " << key << " for " << what);
	}
	WANT("array metadata", array, c.array());
	WANT("1D metadata", dim1, s.dim == TD::Dim1D);

	for (unsigned int m = 0; m < s.mips; ++m)
	{
		for (unsigned int e = 0; e < c.elements(); ++e)
		{
			if (vol)
			{
				for (unsigned int z = 0; z < s.layers(m); ++z)
					checkSurface(r, c, SurfIdx{m, z, 0}, 1, src);
				continue;
			}
			for (unsigned int f = 0; f < s.faces(); ++f)
				checkSurface(r, c, SurfIdx{m, e, f}, 1, src);
		}
	}
	r.end();
	checkConverted(c.tex, s, *c.f, c.t, c.content);
}

//---------------------------------------------------------------------------------------------
// C11

namespace
{

std::string readFile(const std::string& path)
{
	std::ifstream in(path, std::ios_base::binary);
	std::ostringstream out;
	out << in.rdbuf();
	return out.str();
}

void writeFile(const std::string& path, const std::string& data)
{
	std::ofstream out(path, std::ios_base::binary);
	out.write(data.data(), std::streamsize(data.size()));
}

bool exists(const std::string& path)
{
	struct stat st;
	return lstat(path.c_str(), &st) == 0;
}

// A stream that takes what it's given in pieces, and fails at a chosen point. What arrived stays in
// data.
class FaultBuf : public std::streambuf
{
public:
	// Once: only one write fails, as when space is freed again.
	enum Mode {Write, Throw, Sync, Once};

	FaultBuf(std::size_t limit, std::size_t buffer, Mode mode) : m_limit(limit), m_mode(mode)
	{
		m_buffer.resize(buffer);
		if (buffer)
			setp(&m_buffer[0], &m_buffer[0] + buffer);
	}

	std::string data;
	bool failed = false;

protected:
	bool drain(const char* p, std::size_t n)
	{
		if (m_mode == Sync)
		{
			// Everything is accepted; syncing reports that the data didn't fit.
			data.append(p, n);
			return true;
		}
		std::size_t fit = std::min(n, m_limit - std::min(m_limit, data.size()));
		data.append(p, fit);
		if (fit == n)
			return true;
		failed = true;
		if (m_mode == Throw)
			throw std::runtime_error("no space");
		if (m_mode == Once)
			m_limit = std::numeric_limits<std::size_t>::max();
		return false;
	}

	bool flushBuffer()
	{
		std::size_t n = std::size_t(pptr() - pbase());
		bool ok = drain(pbase(), n);
		if (!m_buffer.empty())
			setp(&m_buffer[0], &m_buffer[0] + m_buffer.size());
		return ok;
	}

	int_type overflow(int_type c) override
	{
		if (!flushBuffer())
			return traits_type::eof();
		if (traits_type::eq_int_type(c, traits_type::eof()))
			return traits_type::not_eof(c);
		char v = traits_type::to_char_type(c);
		if (m_buffer.empty())
			return drain(&v, 1) ? c : traits_type::eof();
		*pptr() = v;
		pbump(1);
		return c;
	}

	int sync() override
	{
		if (!flushBuffer())
			return -1;
		if (m_mode == Sync && data.size() > m_limit)
		{
			failed = true;
			return -1;
		}
		return 0;
	}

private:
	std::size_t m_limit;
	Mode m_mode;
	std::string m_buffer;
};

std::string changeCase(Src& src, std::string s)
{
	for (char& c : s)
	{
		if (src.draw(2))
			c = char(std::toupper(c));
	}
	return s;
}

const char* resultName(Texture::SaveResult r)
{
	static const char* n[] = {"Success", "Invalid", "UnknownFormat", "Unsupported", "WriteError"};
	return unsigned(r) < 5 ? n[unsigned(r)] : "?";
}

} // namespace

PROPERTY(C11, 45000, 720000,
	"Each case saves a texture of random format, shape and content as each file type to memory, a "
	"stream that already has content, a stream that takes small pieces, a file given an explicit type, "
	"and a file whose type comes from its name in random letter case, replacing longer files, and "
	"compares every byte; then it asks for what can't be saved (no conversion, unknown extension, "
	"unsupported format, no name) and checks the result, and that existing files, memory and the "
	"texture are left alone. Non-trivial: at least one file type was written.")
{
	static const std::vector<FmtType> pairs = validPairs();
	Converted c = makeConverted(src, pairs, 400);
	src.isNontrivial = false;
	const std::string dir = pbt::scratchDir() + "/";
	static const char* ext[] = {"", "dds", "ktx", "pvr"};
	std::vector<Bytes> before;
	forSurfaces(c.spec, [&](const SurfIdx& i) {before.push_back(surfBytes(c.tex, i));});

	Texture none = makeTexture(c.spec);
	Texture invalid;
	const std::string old(src.draw(3) ? 20000 : src.draw(50), 'o');
	for (int ft = 1; ft <= 3; ++ft)
	{
		auto type = Texture::FileType(ft);
		bool can = ft == 1 ? ddsSupports(*c.f, c.t) : ft == 2 ? ktxSupports(*c.f, c.t) : true;
		auto want = can ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported;
		std::string what = c.name + " as " + ext[ft];
		auto expect = [&](const char* sink, Texture::SaveResult r, Texture::SaveResult w)
		{
			src.checks(1);
			CHECK_P(r == w, std::string("result-") + sink, "saving " << what << " to a " << sink <<
				" returned " << resultName(r) << ", not " << resultName(w));
		};

		Bytes mem(old.begin(), old.end());
		expect("vector", c.tex.save(mem, type), want);
		std::string ref = can ? std::string(mem.begin(), mem.end()) : std::string();
		if (!can)
			CHECK_P(mem == Bytes(old.begin(), old.end()), "failed-vector", "a failed save of " << what <<
				" changed the output");
		auto same = [&](const char* sink, const std::string& got)
		{
			src.checks(1);
			if (got == ref)
				return;
			std::size_t n = std::min(got.size(), ref.size());
			std::size_t k = std::mismatch(got.begin(), got.begin() + n, ref.begin()).first - got.begin();
			CHECK_P(false, std::string("bytes-") + sink, what << " saved to a " << sink << " differs "
				"from memory at byte " << k << ": " << got.size() << " and " << ref.size() << " bytes");
		};
		{
			std::string prefix(src.draw(40), 'p');
			std::ostringstream os(std::ios_base::binary);
			os << prefix;
			expect("stream", c.tex.save(os, type), want);
			same("stream", os.str().substr(prefix.size()));
			CHECK_P(os.str().substr(0, prefix.size()) == prefix, "stream-prefix", "content before " <<
				what << " was overwritten");
			CHECK_P(bool(os), "stream-state", "the stream of " << what << " isn't good");
			// The same stream again.
			expect("stream", c.tex.save(os, type), want);
			same("stream", can ? os.str().substr(prefix.size() + ref.size()) : std::string());
		}
		{
			FaultBuf buf(~std::size_t(0), src.draw(30), FaultBuf::Write);
			std::ostream os(&buf);
			expect("small-stream", c.tex.save(os, type), want);
			// All of it must have arrived by now.
			same("small-stream", buf.data);
		}
		{
			static const std::vector<std::string> names = {"a.", "a.b.", ".", "with space.", "a.png.",
				"a.pvr.ktx.dds."};
			std::string path = dir + src.pick(names) + changeCase(src, ext[ft]);
			bool had = src.draw(2);
			if (had)
				writeFile(path, old);
			Texture::SaveResult r = c.tex.save(path.c_str());
			expect("named-file", r, want);
			std::string got = readFile(path);
			bool there = exists(path);
			std::remove(path.c_str());
			if (can)
				same("named-file", got);
			else
				CHECK_P(there == had && got == (had ? old : std::string()), "failed-file", "a refused save "
					"of " << what << " touched " << path);
		}
		{
			// The explicit type wins over the name.
			static const std::vector<std::string> names = {"x", "x.dds", "x.ktx", "x.PVR", "x.png", "x."};
			std::string path = dir + src.pick(names);
			bool had = src.draw(2);
			if (had)
				writeFile(path, old);
			expect("typed-file", c.tex.save(path.c_str(), type),
				want);
			std::string got = readFile(path);
			bool there = exists(path);
			std::remove(path.c_str());
			if (can)
				same("typed-file", got);
			else
				CHECK_P(there == had && got == (had ? old : std::string()), "failed-file", "a refused save "
					"of " << what << " touched " << path);
		}
		if (can)
			src.nontrivial();

		// Textures that aren't converted.
		for (Texture* t : {&none, &invalid})
		{
			Bytes v(old.begin(), old.end());
			expect("unconverted-vector", t->save(v, type), Texture::SaveResult::Invalid);
			CHECK_P(v == Bytes(old.begin(), old.end()), "failed-vector",
				"a failed save changed the output");
			std::ostringstream os;
			expect("unconverted-stream", t->save(os, type), Texture::SaveResult::Invalid);
			CHECK_P(os.str().empty(), "failed-stream", "a failed save wrote to the stream");
			std::string path = dir + "none." + ext[ft];
			writeFile(path, "keep");
			expect("unconverted-file", t->save(path.c_str(), type), Texture::SaveResult::Invalid);
			expect("unconverted-file", t->save(path.c_str()), Texture::SaveResult::Invalid);
			std::string got = readFile(path);
			std::remove(path.c_str());
			CHECK_P(got == "keep", "failed-file", "a failed save touched the file");
		}
	}

	// No way to know the type.
	{
		Bytes v(3, 7);
		Texture::SaveResult r = c.tex.save(v, Texture::FileType::Auto);
		CHECK_P(r == Texture::SaveResult::UnknownFormat && v == Bytes(3, 7), "auto-vector",
			"saving to memory without a type returned " << resultName(r));
		std::ostringstream os;
		r = c.tex.save(os, Texture::FileType::Auto);
		CHECK_P(r == Texture::SaveResult::UnknownFormat && os.str().empty(), "auto-stream",
			"saving to a stream without a type returned " << resultName(r));
		static const std::vector<std::string> names = {"noext", "x.png", "x.ddsx", "x.dd", "x.ktx2",
			"xdds", "dds", "x.pvr.", "x.dds ", "ktx/x", "x.kt x"};
		std::string name = src.pick(names);
		std::string path = dir + name;
		bool sub = name.find('/') != std::string::npos;
		if (sub)
			mkdir((dir + "ktx").c_str(), 0777);
		bool had = src.draw(2);
		if (had)
			writeFile(path, old);
		r = c.tex.save(path.c_str());
		std::string got = readFile(path);
		bool there = exists(path);
		std::remove(path.c_str());
		if (sub)
			rmdir((dir + "ktx").c_str());
		CHECK_P(r == Texture::SaveResult::UnknownFormat, "unknown-extension", "saving to " << name <<
			" returned " << resultName(r));
		CHECK_P(there == had && got == (had ? old : std::string()), "unknown-extension",
			"a refused save touched " << name);
		r = c.tex.save(static_cast<const char*>(nullptr), Texture::FileType::PVR);
		CHECK_P(r == Texture::SaveResult::Invalid, "null-name", "saving without a name returned " <<
			resultName(r));
		src.checks(4);
	}

	// Saving changes nothing.
	std::size_t k = 0;
	forSurfaces(c.spec, [&](const SurfIdx& i)
		{
			CHECK_P(surfBytes(c.tex, i) == before[k++], "save-mutates", "saving changed " << surfName(i));
		});
	CHECK_P(c.tex.format() == c.f->f && c.tex.type() == c.t, "save-mutates",
		"saving changed the format");
}

//---------------------------------------------------------------------------------------------
// C12

extern "C" int cuttlefish_tool_entry(int argc, const char** argv);

namespace
{

// Limits how far files can grow while alive.
class SizeLimit
{
public:
	explicit SizeLimit(std::size_t n)
	{
		static bool once = (std::signal(SIGXFSZ, SIG_IGN), true);
		(void)once;
		getrlimit(RLIMIT_FSIZE, &m_old);
		struct rlimit l = m_old;
		l.rlim_cur = n;
		ok = setrlimit(RLIMIT_FSIZE, &l) == 0;
	}
	~SizeLimit() {setrlimit(RLIMIT_FSIZE, &m_old);}
	bool ok;
private:
	struct rlimit m_old;
};

struct Quiet
{
	Quiet() : out(std::cout.rdbuf(sink.rdbuf())), err(std::cerr.rdbuf(sink.rdbuf())) {}
	~Quiet()
	{
		std::cout.rdbuf(out);
		std::cerr.rdbuf(err);
		std::cout.clear();
		std::cerr.clear();
	}
	std::ostringstream sink;
	std::streambuf* out;
	std::streambuf* err;
};

} // namespace

PROPERTY(C12, 12000, 160000,
	"Each case takes a texture or image that saves successfully to n bytes and injects write faults: "
	"streams that fail, fail once, throw or fail to sync after k bytes for every k when n is small and otherwise "
	"for all k around the start, the end and the seams between headers and surfaces plus random ones, "
	"at several buffer sizes; streams already in a failed state; and files that can't grow beyond k "
	"bytes (RLIMIT_FSIZE), full devices, missing folders, folders in place of files, through the "
	"library and the command line tool. Success must be reported exactly when every byte arrived. "
	"Non-trivial: a fault struck inside the data.")
{
	const std::string dir = pbt::scratchDir() + "/";
	bool image = src.draw(3) == 2;
	std::string ref, ext, what;
	Converted c;
	Image img;
	auto type = Texture::FileType::DDS;
	std::vector<std::size_t> seams;
	if (image)
	{
		static const std::vector<std::string> exts = {"png", "bmp", "tga", "tif"};
		ext = src.pick(exts);
		ImgOpts o;
		o.maxDim = 20;
		static const std::vector<IF> formats = {IF::Gray8, IF::RGB8, IF::RGBA8};
		o.formats = {src.pick(formats)};
		img = genImage(src, o);
		Bytes mem;
		CHECK_P(img.save(mem, ext.c_str()), "image-save", "saving an image as " << ext << " failed");
		ref.assign(mem.begin(), mem.end());
		what = std::string(fmt(img.format()).name) + " image as " + ext;
	}
	else
	{
		static const std::vector<FmtType> pairs = validPairs();
		bool small = src.draw(3) != 0;
		c = makeConverted(src, pairs, small ? 40 : 1500, small ? 0 : 300);
		src.isNontrivial = false;
		std::vector<int> can = {3};
		if (ddsSupports(*c.f, c.t))
			can.push_back(1);
		if (ktxSupports(*c.f, c.t))
			can.push_back(2);
		type = Texture::FileType(src.pick(can));
		static const char* e[] = {"", "dds", "ktx", "pvr"};
		ext = e[int(type)];
		Bytes mem = saveBytes(c, type, "save");
		ref.assign(mem.begin(), mem.end());
		what = c.name + " as " + ext;
		std::size_t head = type == Texture::FileType::DDS ? 148 : type == Texture::FileType::KTX ? 64 : 52;
		for (std::size_t k : {std::size_t(4), std::size_t(12), std::size_t(128), head, head + 4,
			head + 16, head + 32})
		{
			seams.push_back(k);
		}
	}
	const std::size_t n = ref.size();
	src.note << " " << what << " " << n << " bytes";
	auto saveStream = [&](std::ostream& os)
	{
		return image ? img.save(os, ext.c_str()) : c.tex.save(os, type) ==
			Texture::SaveResult::Success;
	};
	auto saveFile = [&](const std::string& path)
	{
		if (image)
			return img.save(path.c_str());
		Texture::SaveResult r = src.draw(2) ? c.tex.save(path.c_str()) : c.tex.save(path.c_str(), type);
		CHECK_P(r == Texture::SaveResult::Success || r == Texture::SaveResult::WriteError, "result",
			"a write fault for " << what << " returned " << resultName(r));
		return r == Texture::SaveResult::Success;
	};

	// Where faults strike.
	std::set<std::size_t> points = {0, 1, 2, 3, n/2, n - 1, n, n + 1};
	for (std::size_t i = 1; i <= 4 && i < n; ++i)
		points.insert(n - i);
	for (std::size_t s : seams)
	{
		for (std::size_t d = 0; d < 3; ++d)
			points.insert(s + d > 0 ? s + d - 1 : 0);
	}
	bool all = n <= 400;
	if (all)
	{
		for (std::size_t i = 0; i < n; ++i)
			points.insert(i);
		src.label("every-byte");
	}
	else
	{
		for (int i = 0; i < 12; ++i)
			points.insert(src.draw(n));
	}
	auto mode = FaultBuf::Mode(src.draw(4));
	static const std::vector<std::size_t> buffers = {0, 1, 7, 64, 512, 4096, 100000};
	std::size_t buffer = src.pick(buffers);
	static const char* modes[] = {"write", "throw", "sync", "once"};
	src.label(std::string("stream-") + modes[mode]);
	for (std::size_t k : points)
	{
		if (k > n + 1)
			continue;
		FaultBuf buf(k, buffer, mode);
		std::ostream os(&buf);
		bool ok = saveStream(os);
		src.checks(1);
		bool want = k >= n;
		CHECK_P(ok == want, "stream-fault", "saving " << what << " (" << n << " bytes) to a stream that "
			"fails (" << modes[mode] << ") after " << k << " bytes with a buffer of " << buffer <<
			" reported " << (ok ? "success" : "failure"));
		CHECK_P(buf.data.size() <= n && ref.compare(0, buf.data.size(), buf.data) == 0 &&
			(!ok || buf.data == ref), "stream-content", "a stream that fails after " << k <<
			" bytes got the wrong " << buf.data.size() << " bytes of " << what);
		if (k > 0 && k < n)
			src.nontrivial();
	}
	for (auto state : {std::ios_base::failbit, std::ios_base::badbit, std::ios_base::eofbit})
	{
		std::ostringstream os;
		os.setstate(state);
		CHECK_P(!saveStream(os), "stream-state", "saving " << what << " to a failed stream (" <<
			int(state) << ") reported success");
		CHECK_P(os.str().empty(), "stream-state", "a failed stream was written to");
	}

	// Files that can't hold everything.
	static const std::vector<std::string> names = {"limit."};
	const std::string path = dir + "limit." + ext;
	std::vector<std::size_t> limits(points.begin(), points.end());
	while (limits.size() > 24)
		limits.erase(limits.begin() + long(src.draw(limits.size())));
	for (std::size_t k : limits)
	{
		bool had = src.draw(2);
		if (had)
			writeFile(path, std::string(n + 100, 'o'));
		bool ok;
		{
			SizeLimit limit(k);
			if (!limit.ok)
				throw pbt::Discard();
			ok = saveFile(path);
		}
		std::string got = readFile(path);
		std::remove(path.c_str());
		src.checks(1);
		CHECK_P(ok == (k >= n), "file-limit", "saving " << what << " (" << n << " bytes) to a file "
			"limited to " << k << " bytes reported " << (ok ? "success" : "failure"));
		CHECK_P(!ok || got == ref, "file-content", what << " wasn't written as to memory");
	}
	struct Bad {const char* name; std::string path;};
	std::vector<Bad> bad = {{"a full device", dir + "full." + ext}, {"a missing folder", dir +
		"missing/x." + ext}, {"a folder", dir + "folder." + ext}, {"a file as folder", dir +
		"plain/x." + ext}, {"a dangling link", dir + "dangling." + ext}, {"a name that's too long", dir +
		std::string(300, 'n') + "." + ext}, {"a loop of links", dir + "loop." + ext}};
	symlink("/dev/full", bad[0].path.c_str());
	mkdir(bad[2].path.c_str(), 0777);
	writeFile(dir + "plain", "");
	symlink("missing/x", bad[4].path.c_str());
	symlink(("loop." + ext).c_str(), bad[6].path.c_str());
	auto clean = [&]
	{
		std::remove(bad[0].path.c_str());
		rmdir(bad[2].path.c_str());
		std::remove((dir + "plain").c_str());
		std::remove(bad[4].path.c_str());
		std::remove(bad[6].path.c_str());
	};
	std::string wrong;
	for (const Bad& b : bad)
	{
		src.checks(1);
		if (saveFile(b.path))
			wrong = b.name;
	}
	if (wrong.empty() && !image)
	{
		// The command line tool must say so with its exit status.
		const std::string input = dir + "in.png";
		Image in(IF::RGBA8, 1 + unsigned(src.draw(9)), 1 + unsigned(src.draw(9)));
		for (unsigned int y = 0; y < in.height(); ++y)
			std::memset(in.scanline(y), 100, in.width()*4);
		CHECK_P(in.save(input.c_str()), "image-save", "saving the input failed");
		std::size_t k = src.draw(50); // less than any header and pixel
		for (std::size_t i = 0; i <= bad.size(); ++i)
		{
			std::string target = i < bad.size() ? bad[i].path : path;
			std::vector<const char*> args = {"cuttlefish", "-i", input.c_str(), "-f", "R8G8B8A8", "-o",
				target.c_str()};
			if (src.draw(2))
				args.push_back("-q");
			int status;
			{
				Quiet quiet;
				if (i < bad.size())
					status = cuttlefish_tool_entry(int(args.size()), args.data());
				else
				{
					SizeLimit limit(k);
					status = cuttlefish_tool_entry(int(args.size()), args.data());
				}
			}
			src.checks(1);
			if (status == 0)
				wrong = std::string("(tool) ") + (i < bad.size() ? bad[i].name : "a limited file");
		}
		std::remove(input.c_str());
		std::remove(path.c_str());
	}
	clean();
	CHECK_P(wrong.empty(), "bad-target", "saving " << what << " to " << wrong << " reported success");
}

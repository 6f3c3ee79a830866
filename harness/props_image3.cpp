// C19 codec round trips and C20 hostile image bytes.
#include "codecs.h"

PROPERTY(C19, 90000, 1200000,
	"three modes: (a) a drawn image (all pixel formats, up to 40x40, 8 content kinds) is saved in a "
	"file format that holds it without loss, to a file, a memory buffer and a stream that already "
	"holds data, and loaded back by file, memory, offset stream and forward-only stream; (b) the "
	"same for any pixel format and file format, where refusing is allowed but accepting means a "
	"loadable file of the right size; (c) a file made by an independent encoder (PBM/PGM/PPM, BMP, "
	"TGA, PNG of every colour type and depth) is loaded every way and compared pixel by pixel. "
	"Non-trivial: at least two different pixel values and more than one pixel")
{
	std::uint64_t mode = src.strat(4);
	std::string dir = pbt::scratchDir();
	ColorSpace cs = src.draw(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	if (mode == 3)
	{
		Encoded e = encodeForeign(src);
		src.note << "foreign " << e.name << " " << e.w << "x" << e.h;
		src.label("foreign:" + e.name);
		std::vector<std::pair<const char*, Loaded>> loaded;
		loadAll(src, e.bytes, dir + "/in." + e.ext, cs, loaded, true, true);
		for (auto& l : loaded)
		{
			const Image& img = l.second.img;
			std::string key = std::string("foreign:") + e.name + ":" + l.first;
			CHECK_P(l.second.ok && img.isValid(), key + ":refused", "a valid " << e.name <<
				" image could not be loaded from " << l.first);
			CHECK_P(img.width() == e.w && img.height() == e.h, key + ":size", "loaded size is " <<
				img.width() << "x" << img.height());
			CHECK_P(img.colorSpace() == cs, key + ":colorspace", "wrong colour space");
			for (unsigned int y = 0; y < e.h; ++y)
			{
				for (unsigned int x = 0; x < e.w; ++x)
				{
					Px p = getPx(img, x, y), q = e.px[std::size_t(y)*e.w + x];
					for (int c = 0; c < (e.alpha ? 4 : 3); ++c)
					{
						CHECK_P(std::abs(p.c[c] - q.c[c]) < 1e-9, key + ":pixel", "pixel (" << x <<
							"," << y << ") is " << p << ", the file holds " << q);
					}
				}
			}
			src.checks(std::uint64_t(e.w)*e.h);
		}
		if (e.px.size() > 1)
			src.nontrivial();
		return;
	}

	Codec codec;
	std::string ext;
	if (mode == 2)
	{
		static const std::vector<std::string> exts = {"png", "bmp", "tga", "tif", "tiff", "ppm",
			"pgm", "pbm", "pfm", "jpg", "exr", "hdr", "gif", "webp", "xpm", "foo", "", "dds"};
		ext = src.pick(exts);
		codec = Codec{ext.c_str(), IF::Invalid, IF::Invalid};
	}
	else
	{
		codec = losslessCodecs()[src.strat(losslessCodecs().size()*16)/16];
		ext = codec.ext;
	}
	ext = upperSome(src, ext);
	ImgOpts o;
	o.maxDim = 40;
	o.bigEvery = 1000;
	o.rawWide = true;
	if (mode != 2)
		o.formats = {codec.format};
	Image img = genImage(src, o);
	const FmtInfo& fi = fmt(img.format());
	src.note << " as " << ext;
	src.label("ext:" + ext);
	std::string key = std::string(mode == 2 ? "any:" : "lossless:") + fi.name + ":" + codec.ext;
	Snap before = snap(img);
	std::vector<std::uint8_t> rawBefore = rawBytes(img);

	// Save to the three sinks.
	std::string path = dir + "/out." + ext;
	std::remove(path.c_str());
	if (src.draw(2))
		spit(path, std::string(5000, 'x')); // an older file must be replaced
	bool okFile = img.save(path.c_str());
	std::string fileBytes = okFile ? slurp(path) : std::string();
	std::remove(path.c_str());
	std::vector<std::uint8_t> mem;
	if (src.draw(2))
		mem.assign(7000, 0x55);
	std::string extArg = src.draw(2) ? ext : "name." + ext;
	if (ext.empty())
		extArg = ext;
	bool okMem = img.save(mem, extArg.c_str());
	std::string prefix(src.draw(50), 'p');
	std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
	stream << prefix;
	bool okStream = img.save(stream, extArg.c_str());
	CHECK_P(okFile == okMem && okMem == okStream, key + ":sink-result", "save to file " << okFile <<
		", memory " << okMem << ", stream " << okStream);
	CHECK_P(rawBytes(img) == rawBefore && img.width() == before.w && img.height() == before.h,
		key + ":save-changed", "saving changed the image");
	// TGA has 16-bit sizes.
	bool fits = std::string(codec.ext) != "tga" || std::max(before.w, before.h) <= 65535;
	if (mode != 2 && fits)
		CHECK_P(okFile, key + ":save-refused", "saving " << fi.name << " as " << ext << " failed");
	if (!okFile)
	{
		src.label("refused");
		return;
	}
	std::string memBytes(mem.begin(), mem.end());
	CHECK_P(!fileBytes.empty() && fileBytes == memBytes, key + ":file-vs-memory",
		"file and memory bytes differ (" << fileBytes.size() << " and " << memBytes.size() << ")");
	CHECK_P(stream.str() == prefix + memBytes, key + ":stream-vs-memory",
		"stream holds " << stream.str().size() << " bytes after " << prefix.size() <<
		", memory " << memBytes.size());

	std::vector<std::pair<const char*, Loaded>> loaded;
	loadAll(src, memBytes, path, cs, loaded, true, true);
	for (auto& l : loaded)
	{
		const Image& li = l.second.img;
		std::string k = key + ":" + l.first;
		CHECK_P(l.second.ok && li.isValid(), k + ":load-failed", "the saved image could not be loaded");
		CHECK_P(li.width() == before.w && li.height() == before.h, k + ":size", "loaded size is " <<
			li.width() << "x" << li.height());
		CHECK_P(li.colorSpace() == cs, k + ":colorspace", "wrong colour space");
		CHECK_P(sameImage(li, loaded[0].second.img), k + ":paths-differ",
			"loading the same bytes from file and " << l.first << " differs");
		if (mode == 2)
			continue;
		if (codec.format == IF::RGBA8 && li.format() == IF::RGB8)
		{
			// FreeImage drops a fully opaque alpha channel; no pixel value is lost by that.
			for (unsigned int y = 0; y < before.h; ++y)
				for (unsigned int x = 0; x < before.w; ++x)
					CHECK_P(getPx(li, x, y) == before.at(x, y), k + ":pixels", "pixel (" << x << "," <<
						y << ") is " << getPx(li, x, y) << ", saved " << before.at(x, y));
			continue;
		}
		CHECK_P(li.format() == codec.loaded, k + ":format", "loaded format is " <<
			fmt(li.format()).name);
		CHECK_P(rawBytes(li) == rawBefore, k + ":pixels", "pixel storage differs after the round trip");
		src.checks(std::uint64_t(before.w)*before.h);
	}
	if (nonConstant(before))
		src.nontrivial();
}

namespace
{

std::uint32_t le(const std::string& b, std::size_t pos, int n)
{
	std::uint32_t v = 0;
	for (int i = n - 1; i >= 0; --i)
		v = v << 8 | (pos + i < b.size() ? (unsigned char)b[pos + i] : 0);
	return v;
}

std::uint32_t be(const std::string& b, std::size_t pos, int n)
{
	std::uint32_t v = 0;
	for (int i = 0; i < n; ++i)
		v = v << 8 | (pos + i < b.size() ? (unsigned char)b[pos + i] : 0);
	return v;
}

bool saneSize(std::uint64_t w, std::uint64_t h)
{
	return w <= 20000 && h <= 20000 && w*h <= 1u << 20;
}

// Whether the dimensions the data declares are small enough to be decoded at all.
bool saneDimensions(const std::string& b)
{
	if (b.compare(0, 2, "BM") == 0)
	{
		std::int64_t h = std::int32_t(le(b, 22, 4));
		// OS/2 headers have 16-bit sizes.
		return std::int32_t(le(b, 18, 4)) >= 0 && saneSize(le(b, 18, 4), std::uint64_t(h < 0 ? -h : h));
	}
	if (b.compare(0, 4, "\x89PNG") == 0)
		return saneSize(be(b, 16, 4), be(b, 20, 4));
	if (b.size() > 2 && b[0] == 'P')
	{
		// Any long run of digits in the header counts.
		std::uint64_t product = 1, cur = 0;
		bool digits = false;
		for (std::size_t i = 2; i < b.size() && i < 100; ++i)
		{
			if (b[i] >= '0' && b[i] <= '9')
			{
				cur = std::min<std::uint64_t>(cur*10 + (b[i] - '0'), 1u << 30);
				digits = true;
			}
			else if (digits)
			{
				if (cur > 20000 && cur != 65535)
					return false;
				if (cur != 65535 && cur != 255)
					product = std::min<std::uint64_t>(product*std::max<std::uint64_t>(cur, 1), 1ull << 40);
				cur = 0;
				digits = false;
				if (b[1] == '1' && product > 1u << 20)
					return false;
			}
			if (i > 40)
				break;
		}
		return product <= 1ull << 32 && cur <= 20000;
	}
	// TGA has no signature, so anything else may be one.
	std::uint32_t w = le(b, 12, 2), h = le(b, 14, 2);
	return w > 0 && h > 0 && saneSize(w, h);
}

} // namespace

PROPERTY(C20, 180000, 2400000,
	"a valid file (library or independent encoder, PNG/BMP/TGA/PNM/TIFF/GIF) is truncated, has bytes "
	"flipped, overwritten, inserted, removed or duplicated, or its header fields replaced by "
	"extreme values, or the bytes are arbitrary after a genuine signature; the result is loaded by "
	"file, memory (exact-size allocation), offset stream and forward-only stream. Non-trivial: the "
	"bytes still start with a recognised signature")
{
	std::string dir = pbt::scratchDir();
	std::string bytes, ext;
	std::uint64_t origin = src.strat(3);
	if (origin == 0)
	{
		Encoded e = encodeForeign(src);
		bytes = e.bytes;
		ext = e.ext;
		src.note << e.name << " " << e.w << "x" << e.h;
	}
	else if (origin == 1)
	{
		static const std::vector<Codec> codecs = {{"png", IF::RGBA8, IF::RGBA8},
			{"png", IF::Gray16, IF::Gray16}, {"png", IF::RGB8, IF::RGB8}, {"bmp", IF::RGB8, IF::RGB8},
			{"bmp", IF::Gray8, IF::Gray8}, {"bmp", IF::RGB565, IF::RGB565}, {"tga", IF::RGB8, IF::RGB8},
			{"ppm", IF::RGB8, IF::RGB8}, {"pgm", IF::Gray16, IF::Gray16}};
		const Codec& c = src.pick(codecs);
		ImgOpts o;
		o.formats = {c.format};
		o.maxDim = 20;
		Image img = genImage(src, o);
		std::vector<std::uint8_t> mem;
		CHECK_P(img.save(mem, c.ext), "seed-save", "could not save the seed image");
		bytes.assign(mem.begin(), mem.end());
		ext = c.ext;
	}
	else
	{
		static const std::vector<std::string> magics = {std::string("\x89PNG\r\n\x1a\n", 8), "BM", "P6\n",
			"P5\n", "P4\n", "P1\n", "", "GIF89a", std::string("\0\0\2\0\0\0\0\0\0\0\0\0", 12)};
		bytes = src.pick(magics);
		static const std::vector<std::string> exts = {"png", "bmp", "ppm", "tga", "bin"};
		ext = src.pick(exts);
		std::size_t n = src.draw(400);
		Rng rng(src.seed32());
		for (std::size_t i = 0; i < n; ++i)
			bytes += char(rng.below(256));
		src.note << "random bytes";
	}
	unsigned int ops = origin == 2 ? 0 : unsigned(src.draw(6));
	for (unsigned int i = 0; i < ops && !bytes.empty(); ++i)
	{
		// Headers are what matters most, so half of the edits are there.
		std::size_t limit = src.draw(2) ? bytes.size() : std::min<std::size_t>(bytes.size(), 64);
		// The signature stays, so that the codec meant is the codec used.
		std::size_t sig = ext == "png" ? 8 : ext == "tga" ? 3 : 2;
		if (limit <= sig)
			break;
		std::size_t pos = sig + src.draw(limit - sig);
		switch (src.draw(7))
		{
			case 0: bytes[pos] = char(bytes[pos] ^ (1 << src.draw(8))); break;
			case 1: bytes[pos] = char(src.draw(256)); break;
			case 2: bytes.resize(pos); break;
			case 3: bytes.insert(pos, std::string(1 + src.draw(16), char(src.draw(256)))); break;
			case 4: bytes.erase(pos, 1 + src.draw(16)); break;
			case 5: bytes.insert(pos, bytes.substr(pos, 1 + src.draw(32))); break;
			case 6:
			{
				static const std::uint32_t values[] = {0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff,
					0x7fffffff, 0x80000000u, 0xffffffffu, 0x10000};
				std::uint32_t v = values[src.draw(12)];
				unsigned int size = 1u << src.draw(3);
				for (unsigned int b = 0; b < size && pos + b < bytes.size(); ++b)
					bytes[pos + b] = char(v >> 8*b);
				break;
			}
		}
	}
	src.note << " edits=" << ops << " size=" << bytes.size();
	if (!saneDimensions(bytes))
	{
		// Dimensions in the hundreds of millions of pixels measure the codec's (a system library's)
		// integer arithmetic and this machine's memory, not the code under test.
		src.label("discarded-size");
		throw pbt::Discard();
	}
	if (bytes.size() <= 160)
	{
		static const char* digits = "0123456789abcdef";
		src.note << " bytes=";
		for (unsigned char b : bytes)
			src.note << digits[b >> 4] << digits[b & 15];
	}
	std::vector<std::pair<const char*, Loaded>> loaded;
	loadAll(src, bytes, dir + "/in." + ext, ColorSpace::sRGB, loaded, true, true);
	const Image& first = loaded[0].second.img;
	for (auto& l : loaded)
	{
		const Image& img = l.second.img;
		CHECK_P(l.second.ok == img.isValid(), std::string("result:") + l.first, "load() returned " <<
			l.second.ok << " but isValid() is " << img.isValid());
		CHECK_P(l.second.ok == loaded[0].second.ok, std::string("paths-differ:") + l.first,
			"load from file gave " << loaded[0].second.ok << ", from " << l.first << " " << l.second.ok);
		if (!l.second.ok)
		{
			CHECK_P(img.format() == IF::Invalid && img.width() == 0 && img.height() == 0,
				"failed-load-state", "a failed load left a " << img.width() << "x" << img.height() <<
				" image");
			continue;
		}
		CHECK_P(img.width() > 0 && img.height() > 0, "empty-image", "the image has no pixels");
		CHECK_P(img.colorSpace() == ColorSpace::sRGB, "colorspace", "wrong colour space");
		CHECK_P(img.width() == first.width() && img.height() == first.height() &&
			img.format() == first.format(), std::string("paths-differ-size:") + l.first,
			"file gave " << first.width() << "x" << first.height() << ", " << l.first << " " <<
			img.width() << "x" << img.height());
		fmt(img.format());
		if (std::uint64_t(img.width())*img.height() <= 1u << 18)
		{
			Snap s = snap(img);
			(void)s;
			// TGA has no signature; FreeImage leaves the pixels a truncated one lacks uninitialised.
			bool signature = bytes.compare(0, 2, "BM") == 0 || bytes.compare(0, 2, "\x89P") == 0 ||
				bytes[0] == 'P';
			CHECK_P(!signature || sameImage(img, first), std::string("paths-differ-pixels:") + l.first,
				"the pixels from file and " << l.first << " differ");
			// The image is usable.
			Image copy(img);
			CHECK_P(copy.isValid(), "unusable", "the loaded image cannot be copied");
			Image conv = img.convert(IF::RGBAF);
			CHECK_P(conv.isValid() && conv.width() == img.width() && conv.height() == img.height(),
				"unusable", "the loaded image cannot be converted");
			src.checks(s.px.size());
		}
	}
	src.label(loaded[0].second.ok ? "accepted" : "refused");
	src.label("ext:" + ext);
	bool recognised = bytes.size() > 2 && (bytes.compare(0, 2, "BM") == 0 ||
		bytes.compare(0, 2, "\x89P") == 0 || bytes[0] == 'P' || bytes[0] == 'G');
	if (recognised || loaded[0].second.ok)
		src.nontrivial();
}

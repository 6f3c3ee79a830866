// C13, C15
#include "common.h"

//---------------------------------------------------------------------------------------------
// C13: pixel get/set

static Px expectSet(const FmtInfo& f, ColorSpace cs, const Px& in, bool convertGray)
{
	Px v = in;
	if (f.gray && convertGray)
	{
		double l;
		if (cs == ColorSpace::sRGB)
			l = refToSRGB(refLuma(refToLinear(in.c[0]), refToLinear(in.c[1]), refToLinear(in.c[2])));
		else
			l = refLuma(in.c[0], in.c[1], in.c[2]);
		v.c[0] = v.c[1] = v.c[2] = l;
	}
	return v;
}

static double genChannel(Src& s, const FmtInfo& f, bool wild)
{
	if (f.kind == Kind::Raw)
	{
		switch (s.draw(wild ? 6 : 3))
		{
			case 0: return double(s.draw(200));
			case 1: return std::floor(f.minv + s.unit()*(f.maxv[0] - f.minv));
			case 2: return s.draw(2) ? f.maxv[0] : f.minv;
			case 3: return f.maxv[0] + 1 + double(s.draw(1000000));
			case 4: return f.minv - 1 - double(s.draw(1000000));
			default: return (s.unit() - 0.5)*1e20;
		}
	}
	switch (s.draw(wild ? 7 : 4))
	{
		case 0: return double(s.draw(2));
		case 1: return s.unit();
		case 2: return double(s.draw(256))/255.0;
		case 3: return double(s.draw(65536))/65535.0;
		case 4: return -s.unit()*3;
		case 5: return 1 + s.unit()*10;
		default: return (s.unit() - 0.5)*2000;
	}
}

PROPERTY(C13, 1600000, 32000000,
	"image format (stratified), size 1..24, colour space, prior content, a history of 1..12 pixel "
	"writes (in range, out of range colours and coordinates, luminance on/off); non-trivial: at "
	"least one accepted write to an image with more than one pixel")
{
	ImgOpts o;
	o.rawWide = true;
	o.maxDim = 12;
	o.bigEvery = 4000;
	Image img = genImage(src, o);
	const FmtInfo& f = fmt(img.format());
	unsigned int w = img.width(), h = img.height();
	unsigned int n = 1 + unsigned(src.draw(12));
	for (unsigned int i = 0; i < n; ++i)
	{
		bool wild = src.chance(40);
		Px in;
		for (double& c : in.c)
			c = genChannel(src, f, wild);
		bool gray = !src.chance(30);
		bool inRange = !src.chance(12);
		// The ends of big images are as likely as the rest.
		auto pick = [&src](unsigned int d)
		{
			return d > 40 && src.draw(2) ? d - 1 - unsigned(src.draw(4)) : unsigned(src.draw(d));
		};
		unsigned int x = pick(w), y = pick(h);
		if (!inRange)
		{
			unsigned int big = src.draw(2) ? 0xFFFFFFFFu : unsigned(src.draw(3));
			if (src.draw(2))
				x = big > 0xFFFF ? big : w + big;
			else
				y = big > 0xFFFF ? big : h + big;
		}
		src.note << " set(" << x << "," << y << " " << in << (gray ? "" : " nogray") << ")";
		std::vector<std::uint8_t> before = rawBytes(img);
		bool ok = img.setPixel(x, y, ColorRGBAd(in.c[0], in.c[1], in.c[2], in.c[3]), gray);
		std::vector<std::uint8_t> after = rawBytes(img);
		src.checks(1);
		CHECK_P(ok == inRange, "setPixel-result", "setPixel(" << x << "," << y << ") on " << w << "x" <<
			h << " returned " << ok);
		ColorRGBAd got{};
		bool gok = img.getPixel(got, x, y);
		CHECK_P(gok == inRange, "getPixel-result", "getPixel(" << x << "," << y << ") on " << w << "x"
			<< h << " returned " << gok);
		CHECK_P((img.scanline(y) != nullptr) == (y < h), "scanline-range", "scanline(" << y <<
			") for height " << h);
		CHECK_P(before.size() == after.size() && before.size() == std::size_t(w)*h*f.bytes,
			"pixel-storage", "storage size " << after.size() << " for " << w << "x" << h << "x" <<
			f.bytes);
		std::size_t at = inRange ? (std::size_t(y)*w + x)*f.bytes : before.size();
		for (std::size_t b = 0; b < before.size(); ++b)
		{
			if (b >= at && b < at + f.bytes)
				continue;
			CHECK_P(before[b] == after[b], "neighbour-changed", "setPixel(" << x << "," << y <<
				") changed byte " << b << " of another pixel");
		}
		if (!inRange)
		{
			src.label("out-of-range");
			continue;
		}
		if (w*h > 1)
			src.nontrivial();
		Px want = expectSet(f, img.colorSpace(), in, gray);
		Px g{{got.r, got.g, got.b, got.a}};
		for (int c = 0; c < 4; ++c)
		{
			bool stored = f.channels == 4 || (f.channels == 3 && c < 3) ||
				(f.channels == 2 && c < 2) || (f.channels == 1 && c < 3);
			int srcChannel = f.channels == 1 && c < 3 ? 0 : c;
			double ideal, tol;
			if (!stored)
			{
				ideal = c == 3 ? 1.0 : 0.0;
				tol = 0;
			}
			else
			{
				ideal = want.c[srcChannel];
				if (f.kind == Kind::UNorm)
				{
					ideal = clampd(ideal, 0, 1);
					tol = 0.5/f.maxv[c] + 1e-9;
				}
				else if (f.kind == Kind::Raw)
				{
					ideal = clampd(ideal, f.minv, f.maxv[0]);
					tol = 0.9999999999;
				}
				else
				{
					tol = halfQuantum(f, c, ideal) + (f.gray && gray ? std::abs(ideal)*1e-12 : 0);
					if (f.gray && gray)
					{
						for (double m : in.c)
							tol += std::abs(m)*1e-12;
					}
				}
			}
			CHECK_P(std::abs(g.c[c] - ideal) <= tol, "pixel-value", "channel " << c << " of " << f.name
				<< " (" << csName(img.colorSpace()) << ", luminance " << gray << "): wrote " << in <<
				", expected " << ideal << " +- " << tol << ", read " << g.c[c]);
		}
		// Writing back what was read must be a fixpoint.
		if (!gray || !f.gray)
		{
			img.setPixel(x, y, got, false);
			CHECK_P(rawBytes(img) == after, "readback-fixpoint",
				"writing back the read colour changed the stored pixel of " << f.name);
		}
	}
}

//---------------------------------------------------------------------------------------------
// C15: rotation and flips

typedef Image::RotateAngle RA;

// Where source pixel (x, y) of a w x h image goes when rotated clockwise by quarter turns.
static void rotCW(unsigned int w, unsigned int h, int quarters, unsigned int x, unsigned int y,
	unsigned int& ox, unsigned int& oy)
{
	switch (quarters & 3)
	{
		case 0: ox = x; oy = y; break;
		case 1: ox = h - 1 - y; oy = x; break;
		case 2: ox = w - 1 - x; oy = h - 1 - y; break;
		default: ox = y; oy = w - 1 - x; break;
	}
}

static int quartersOf(RA a)
{
	switch (a)
	{
		case RA::CW90: case RA::CCW270: return 1;
		case RA::CW180: case RA::CCW180: return 2;
		case RA::CW270: case RA::CCW90: return 3;
	}
	return 0;
}

PROPERTY(C15, 900000, 12000000,
	"image format (stratified), size 1..40 (biased to 1xN, Nx1, powers of two), content, then a "
	"history of 1..4 rotations/flips compared bit for bit with the index permutation, plus inverse "
	"laws; non-trivial: non-constant image with more than one pixel")
{
	static const RA angles[] = {RA::CW90, RA::CW180, RA::CW270, RA::CCW90, RA::CCW180, RA::CCW270};
	ImgOpts o;
	o.rawWide = true;
	o.maxDim = 40;
	o.bigEvery = 500;
	Image img = genImage(src, o);
	const FmtInfo& f = fmt(img.format());
	if (nonConstant(snap(img)))
		src.nontrivial();
	unsigned int ops = 1 + unsigned(src.draw(4));
	for (unsigned int i = 0; i < ops; ++i)
	{
		unsigned int w = img.width(), h = img.height();
		std::vector<std::uint8_t> before = rawBytes(img);
		unsigned int op = unsigned(src.draw(8));
		unsigned int nw = w, nh = h;
		Image res;
		std::vector<std::uint8_t> want(before.size());
		auto put = [&](unsigned int x, unsigned int y, unsigned int ox, unsigned int oy)
		{
			std::memcpy(&want[(std::size_t(oy)*nw + ox)*f.bytes],
				&before[(std::size_t(y)*w + x)*f.bytes], f.bytes);
		};
		const char* name;
		if (op < 6)
		{
			static const char* names[] = {"CW90", "CW180", "CW270", "CCW90", "CCW180", "CCW270"};
			name = names[op];
			src.note << " rotate " << name;
			res = img.rotate(angles[op]);
			int q = quartersOf(angles[op]);
			if (q & 1)
				std::swap(nw, nh);
			for (unsigned int y = 0; y < h; ++y)
			{
				for (unsigned int x = 0; x < w; ++x)
				{
					unsigned int ox, oy;
					rotCW(w, h, q, x, y, ox, oy);
					put(x, y, ox, oy);
				}
			}
			CHECK_P(rawBytes(img) == before, "rotate-mutates", "rotate modified its source");
			src.label("rotate");
		}
		else
		{
			bool horiz = op == 6;
			name = horiz ? "flipHorizontal" : "flipVertical";
			src.note << " " << name;
			res = img;
			bool ok = horiz ? res.flipHorizontal() : res.flipVertical();
			CHECK_P(ok, "flip-result", name << " failed for " << f.name);
			for (unsigned int y = 0; y < h; ++y)
				for (unsigned int x = 0; x < w; ++x)
					put(x, y, horiz ? w - 1 - x : x, horiz ? y : h - 1 - y);
			CHECK_P(rawBytes(img) == before, "flip-aliases", "flipping a copy changed the original");
			src.label("flip");
		}
		src.checks(1);
		CHECK_P(res.isValid(), "rotate-invalid", name << " gave an invalid image for " << f.name <<
			" " << w << "x" << h);
		CHECK_P(res.format() == img.format() && res.colorSpace() == img.colorSpace(), "rotate-meta",
			name << " changed format or colour space of " << f.name);
		CHECK_P(res.width() == nw && res.height() == nh, "rotate-size", name << " of " << w << "x" << h
			<< " gave " << res.width() << "x" << res.height());
		std::vector<std::uint8_t> got = rawBytes(res);
		CHECK_P(got.size() == want.size(), "rotate-storage", name << " of " << f.name <<
			" changed the storage size from " << want.size() << " to " << got.size());
		for (std::size_t b = 0; b < got.size(); ++b)
		{
			CHECK_P(got[b] == want[b], "rotate-pixels", name << " of " << f.name << " " << w << "x" << h
				<< ": byte " << b%f.bytes << " of pixel (" << (b/f.bytes)%nw << "," << b/f.bytes/nw <<
				") is " << int(got[b]) << ", expected " << int(want[b]));
		}
		img = std::move(res);
	}
}

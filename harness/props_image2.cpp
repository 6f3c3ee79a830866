// C14, C16, C17, C18
#include "common.h"
#include "refresize.h"

//---------------------------------------------------------------------------------------------
// C14

static bool normalizedLike(const FmtInfo& f)
{
	return f.kind == Kind::UNorm || (f.kind == Kind::Float && f.f != IF::Complex);
}

PROPERTY(C14, 2500000, 40000000,
	"source and target image format (stratified over all ordered pairs with a defined value mapping), "
	"size 1..16, colour space, content (incl. HDR/negative for float formats), luminance flag; "
	"non-trivial: formats differ and the image is not constant")
{
	static std::vector<std::pair<IF, IF>> pairs;
	if (pairs.empty())
	{
		for (const FmtInfo& a : allFormats())
		{
			for (const FmtInfo& b : allFormats())
			{
				bool ok;
				if (a.f == b.f)
					ok = true;
				else if (normalizedLike(a) && normalizedLike(b))
					ok = true;
				else if (a.kind == Kind::Raw)
					ok = b.kind == Kind::Raw || b.kind == Kind::Float;
				else if (b.kind == Kind::Raw)
					ok = a.kind == Kind::Float;
				else
					ok = a.f == IF::Complex || b.f == IF::Complex;
				if (ok)
					pairs.emplace_back(a.f, b.f);
			}
		}
	}
	std::pair<IF, IF> pr = pairs[src.strat(pairs.size())];
	const FmtInfo& a = fmt(pr.first);
	const FmtInfo& b = fmt(pr.second);
	ImgOpts o;
	o.formats = {a.f};
	o.maxDim = 16;
	o.bigEvery = 4000;
	o.rawWide = src.draw(2) != 0;
	Image img = genImage(src, o);
	bool gray = !src.chance(40);
	bool scaleUp = b.kind == Kind::Raw && a.kind == Kind::Float;
	if (scaleUp)
	{
		// Give raw targets something to hold.
		for (unsigned int y = 0; y < img.height(); ++y)
		{
			for (unsigned int x = 0; x < img.width(); ++x)
			{
				Px p = getPx(img, x, y);
				img.setPixel(x, y, ColorRGBAd(p.c[0]*3000, p.c[1]*3000, p.c[2]*3000, p.c[3]), false);
			}
		}
	}
	Snap before = snap(img);
	src.note << " convert to " << b.name << (gray ? " gray" : " nogray");
	src.label(std::string("to:") + b.name);
	std::vector<std::uint8_t> raw = rawBytes(img);
	if (a.f != b.f && nonConstant(before))
		src.nontrivial();
	Image res = img.convert(b.f, gray);
	src.checks(before.px.size());
	CHECK_P(rawBytes(img) == raw && img.format() == a.f, "convert-mutates", "convert changed its source");
	CHECK_P(res.isValid(), "convert-invalid", a.name << " -> " << b.name << " gave an invalid image");
	CHECK_P(res.format() == b.f && res.width() == img.width() && res.height() == img.height() &&
		res.colorSpace() == img.colorSpace() && res.bitsPerPixel() == b.bytes*8, "convert-meta",
		a.name << " -> " << b.name << ": format " << int(res.format()) << " size " << res.width() << "x"
		<< res.height() << " bpp " << res.bitsPerPixel());
	if (a.f == b.f)
	{
		CHECK_P(sameImage(img, res), "convert-copy", "converting to the same format is not a copy");
		return;
	}
	bool toGray = b.gray && gray && a.f != IF::Complex;
	bool srgb = img.colorSpace() == ColorSpace::sRGB;
	for (unsigned int y = 0; y < before.h; ++y)
	{
		for (unsigned int x = 0; x < before.w; ++x)
		{
			Px in = before.at(x, y);
			Px got = getPx(res, x, y);
			Px want = in;
			double peak = std::max(std::abs(in.c[0]), std::max(std::abs(in.c[1]), std::abs(in.c[2])));
			if (toGray)
			{
				double l = srgb ? refToSRGB(refLuma(refToLinear(in.c[0]), refToLinear(in.c[1]),
					refToLinear(in.c[2]))) : refLuma(in.c[0], in.c[1], in.c[2]);
				want.c[0] = want.c[1] = want.c[2] = l;
			}
			int stored = b.channels == 1 ? 3 : b.channels == 2 ? 2 : b.channels;
			for (int c = 0; c < 4; ++c)
			{
				double ideal, tol;
				if (c >= stored)
				{
					ideal = c == 3 ? 1 : 0;
					tol = 0;
				}
				else
				{
					ideal = want.c[b.channels == 1 ? 0 : c];
					if (b.kind == Kind::UNorm)
					{
						ideal = clampd(ideal, 0, 1);
						double stepA = a.kind == Kind::UNorm ? 1/a.maxv[c < 3 || a.channels == 4 ? c : 0] : 0;
						if (c == 3 && a.channels < 4)
							stepA = 0; // opaque must stay exactly opaque
						double stepB = 1/b.maxv[c];
						tol = std::max(stepA, stepB)*1.001 + (toGray ? 1/255.0 : 0);
						// 16-bit sources may pass through 8 bits on their way to 5/6 bits.
						if (b.f == IF::RGB5 || b.f == IF::RGB565)
							tol += 1/255.0;
						if (c == 3 && a.channels < 4)
							tol = 0;
						// Same precision on both sides must be exact, as must full range ends.
						if (!toGray && a.kind == Kind::UNorm && a.maxv[c] == b.maxv[c])
							tol = 1e-9;
						if (ideal == 0 || ideal >= 1 - 1e-12)
							tol = 1e-9;
						// Anything with more precision than 8 bits keeps it in a 16-bit target.
						if (b.maxv[c] == 65535 && a.kind == Kind::Float)
							tol = 1.001/65535;
					}
					else if (b.kind == Kind::Raw)
					{
						ideal = clampd(ideal, b.minv, b.maxv[0]);
						// Any integer next to it.
						double slack = toGray ? 1e-6*std::max(1.0, std::abs(ideal)) : 0;
						double r = got.c[c];
						tol = r >= std::floor(ideal - slack) && r <= std::ceil(ideal + slack) ?
							std::abs(r - ideal) : 0;
					}
					else
					{
						double rel = b.f == IF::Double || b.f == IF::Complex ? 1e-9 : 1e-6;
						if (a.kind == Kind::UNorm || (a.kind == Kind::Float && a.f != IF::Double &&
							a.f != IF::Complex) || a.kind == Kind::Raw)
						{
							// FreeImage computes some of these in single precision.
							rel = 1e-6;
						}
						tol = rel*peak + 1e-30;
						if (a.kind == Kind::UNorm)
						{
							tol = 1e-6;
							// Luminance of low precision sources may be computed in their precision.
							if (toGray && a.channels >= 3)
								tol += 1/std::min(a.maxv[0], 65535.0)*(a.maxv[0] < 255 ? 1 : 1.001);
						}
						if (b.channels == 1 || c < 3 || a.channels == 4)
							;
					}
				}
				CHECK_P(std::abs(got.c[c] - ideal) <= tol, std::string("convert-value:") + a.name + "->" + b.name +
					(toGray ? ":luminance" : "") + (c == 3 ? ":alpha" : ""), a.name << " -> " << b.name <<
					(toGray ? " luminance" : "") << " (" << csName(img.colorSpace()) << "): pixel (" << x <<
					"," << y << ") " << in << " channel " << c << " expected " << ideal << " +- " << tol <<
					", got " << got.c[c]);
			}
		}
	}
}

//---------------------------------------------------------------------------------------------
// C16

static bool limitedFilters(IF f)
{
	return f == IF::Int16 || f == IF::Int32 || f == IF::UInt32 || f == IF::Double || f == IF::Complex;
}

PROPERTY(C16, 375000, 6000000,
	"image format (stratified), source size 1..40, target size 0..48 (biased to same, half, double, "
	"1, degenerate), filter, colour space, content; checked per pixel against a reference resampler, "
	"plus range and constancy laws; non-trivial: size changes and the source is not constant")
{
	ImgOpts o;
	o.maxDim = 40;
	o.bigEvery = 1500;
	IF f = allFormats()[src.strat(allFormats().size())].f;
	o.formats = {f};
	if (fmt(f).kind == Kind::Raw || f == IF::Complex)
		o.colorSpace = 0;
	// Now and then more pixels than 16 bits count go into one.
	bool whole = src.draw(2500) == 2499;
	unsigned int w = 0, h = 0;
	if (whole)
	{
		static const IF fallback[] = {IF::Int16, IF::Int32, IF::UInt32, IF::Double, IF::Complex};
		if (src.draw(3))
		{
			f = fallback[src.draw(5)];
			o.formats = {f};
			o.colorSpace = fmt(f).kind == Kind::Raw || f == IF::Complex ? 0 : -1;
		}
		w = src.draw(2) ? 65530 + unsigned(src.draw(1000)) : 250 + unsigned(src.draw(20));
		h = w > 60000 ? 1 : 65600/w + unsigned(src.draw(3));
		if (src.draw(2))
			std::swap(w, h);
		src.label("whole");
	}
	Image img = genImage(src, o, w, h);
	Snap before = snap(img);
	auto target = [&src](unsigned int d) -> unsigned int
	{
		switch (src.draw(8))
		{
			case 0: return d;
			case 1: return std::max(1u, d/2);
			case 2: return d*2 > 64 ? d : d*2;
			case 3: return 1;
			case 4: return src.draw(5) ? std::max(1u, (d*2 + 2)/3) : 0;
			default: return 1 + unsigned(src.draw(d > 64 ? d + 30 : 48));
		}
	};
	unsigned int nw = whole ? 1 + unsigned(src.draw(2)) : target(img.width());
	unsigned int nh = whole ? 1 : target(img.height());
	auto filter = Image::ResizeFilter(whole && src.draw(3) ? unsigned(Image::ResizeFilter::Box) :
		unsigned(src.draw(5)));
	src.note << " resize to " << nw << "x" << nh << " filter " << int(filter);
	std::vector<std::uint8_t> raw = rawBytes(img);
	Image res = img.resize(nw, nh, filter);
	src.checks(std::uint64_t(nw)*nh);
	CHECK_P(rawBytes(img) == raw && img.format() == f && img.colorSpace() == before.cs,
		"resize-mutates", "resize changed its source");
	if (nw == 0 || nh == 0)
	{
		CHECK_P(!res.isValid(), "resize-zero", "resize to " << nw << "x" << nh << " is valid");
		src.label("zero");
		return;
	}
	bool same = nw == img.width() && nh == img.height();
	bool expectValid = same || !limitedFilters(f) || filter == Image::ResizeFilter::Box ||
		filter == Image::ResizeFilter::Linear;
	CHECK_P(res.isValid() == expectValid, "resize-valid", "resize of " << fmt(f).name << " filter " <<
		int(filter) << " valid=" << res.isValid());
	if (!expectValid)
	{
		src.label("unsupported-filter");
		return;
	}
	CHECK_P(res.width() == nw && res.height() == nh && res.format() == f &&
		res.colorSpace() == before.cs && res.bitsPerPixel() == fmt(f).bytes*8, "resize-meta",
		"resize to " << nw << "x" << nh << " gave " << res.width() << "x" << res.height() << " format " <<
		int(res.format()) << " bpp " << res.bitsPerPixel());
	if (same)
	{
		CHECK_P(sameImage(img, res), "resize-same", "resize to the same size is not a copy");
		return;
	}
	Snap after = snap(res);
	if (nonConstant(before))
		src.nontrivial();
	checkResize(before, after, filter, "resize", fmt(f).name);
	// Box and linear stay inside the source range. With 16 bits per channel up to what the conversion
	// to linear space rounds.
	if (filter == Image::ResizeFilter::Box || filter == Image::ResizeFilter::Linear)
	{
		for (int c = 0; c < fmt(f).channels; ++c)
		{
			double lo = 1e300, hi = -1e300;
			for (const Px& p : before.px)
			{
				lo = std::min(lo, p.c[c]);
				hi = std::max(hi, p.c[c]);
			}
			double slack = fmt(f).kind == Kind::UNorm ? (before.cs == ColorSpace::sRGB &&
				fmt(f).maxv[c] == 65535 ? 8/fmt(f).maxv[c] : 1e-9) : fmt(f).kind == Kind::Raw ? 1 :
				1e-5*std::max(std::abs(lo), std::abs(hi)) + 1e-6;
			for (const Px& p : after.px)
			{
				CHECK_P(p.c[c] >= lo - slack && p.c[c] <= hi + slack, "resize-range", fmt(f).name <<
					" channel " << c << " value " << p.c[c] << " outside the source range [" << lo << "," <<
					hi << "]");
			}
		}
	}
}

//---------------------------------------------------------------------------------------------
// C17

static void checkPixels(const Image& img, const Snap& before, const char* op,
	const std::function<Px(const Px&)>& f, bool keepFormat = true)
{
	(void)keepFormat;
	const FmtInfo& fi = fmt(before.format);
	CHECK_P(img.format() == before.format && img.width() == before.w && img.height() == before.h,
		"op-meta", op << " changed format or size");
	for (unsigned int y = 0; y < before.h; ++y)
	{
		for (unsigned int x = 0; x < before.w; ++x)
		{
			Px in = before.at(x, y);
			Px ideal = f(in);
			Px got = getPx(img, x, y);
			double peak = 0;
			for (double v : in.c)
				peak = std::max(peak, std::abs(v));
			for (int c = 0; c < 4; ++c)
			{
				double want, tol;
				int stored = fi.channels == 1 ? 3 : fi.channels;
				if (c >= stored)
				{
					want = c == 3 ? 1 : 0;
					tol = 0;
				}
				else
				{
					want = ideal.c[fi.channels == 1 ? 0 : c];
					if (fi.kind == Kind::UNorm)
					{
						want = clampd(want, 0, 1);
						tol = 0.5/fi.maxv[c] + 1e-7;
					}
					else if (fi.kind == Kind::Raw)
					{
						want = clampd(want, fi.minv, fi.maxv[0]);
						tol = 1 + std::abs(want)*1e-9;
					}
					else
					{
						double rel = fi.f == IF::Double || fi.f == IF::Complex ? 1e-12 : 1.2e-7;
						tol = rel*std::max(std::abs(want), std::min(peak, std::abs(want) + 1e-5)) +
							1e-14*peak*peak + 1e-40;
					}
				}
				CHECK_P(std::abs(got.c[c] - want) <= tol, "op-value", op << " on " << fi.name << " (" <<
					csName(before.cs) << "): pixel (" << x << "," << y << ") " << in << " channel " << c <<
					" expected " << want << " +- " << tol << ", got " << got.c[c]);
			}
		}
	}
}

PROPERTY(C17, 2000000, 32000000,
	"image format (stratified), size 1..16, colour space, content, a history of 1..4 of colour space "
	"change / grayscale / pre-multiply / swizzle (all 5^4 channel patterns) each checked per pixel "
	"against the formula; non-trivial: at least one operation that changes a pixel")
{
	ImgOpts o;
	o.maxDim = 16;
	o.bigEvery = 4000;
	o.rawWide = true;
	Image img = genImage(src, o);
	const FmtInfo& fi = fmt(img.format());
	unsigned int n = 1 + unsigned(src.draw(4));
	for (unsigned int i = 0; i < n; ++i)
	{
		Snap before = snap(img);
		std::vector<std::uint8_t> raw = rawBytes(img);
		bool srgb = before.cs == ColorSpace::sRGB;
		unsigned int op = unsigned(src.draw(4));
		src.checks(before.px.size());
		if (op == 0)
		{
			ColorSpace to = src.chance(75) ? (srgb ? ColorSpace::Linear : ColorSpace::sRGB) : before.cs;
			if (fi.kind == Kind::Raw && to != before.cs)
				continue; // the transfer function has no meaning for raw integers
			src.note << " changeColorSpace(" << csName(to) << ")";
			src.label("colorspace");
			CHECK_P(img.changeColorSpace(to), "op-result", "changeColorSpace failed");
			CHECK_P(img.colorSpace() == to, "op-colorspace", "colour space not updated");
			if (to == before.cs)
			{
				CHECK_P(rawBytes(img) == raw, "op-noop", "changing to the same colour space changed pixels");
				continue;
			}
			checkPixels(img, before, "changeColorSpace", [srgb](const Px& p)
				{
					Px r = p;
					for (int c = 0; c < 3; ++c)
						r.c[c] = srgb ? refToLinear(p.c[c]) : refToSRGB(p.c[c]);
					return r;
				});
		}
		else if (op == 1)
		{
			if (fi.kind == Kind::Raw && srgb)
				continue;
			src.note << " grayscale";
			src.label("grayscale");
			CHECK_P(img.grayscale(), "op-result", "grayscale failed");
			CHECK_P(img.colorSpace() == before.cs, "op-colorspace", "grayscale changed the colour space");
			checkPixels(img, before, "grayscale", [srgb](const Px& p)
				{
					double l = srgb ? refToSRGB(refLuma(refToLinear(p.c[0]), refToLinear(p.c[1]),
						refToLinear(p.c[2]))) : refLuma(p.c[0], p.c[1], p.c[2]);
					return Px{{l, l, l, p.c[3]}};
				});
		}
		else if (op == 2)
		{
			src.note << " preMultiplyAlpha";
			src.label("premultiply");
			CHECK_P(img.preMultiplyAlpha(), "op-result", "preMultiplyAlpha failed");
			CHECK_P(img.colorSpace() == before.cs, "op-colorspace",
				"preMultiplyAlpha changed the colour space");
			if (fi.channels < 4)
			{
				CHECK_P(rawBytes(img) == raw, "op-noop", "preMultiplyAlpha changed an image without alpha");
				continue;
			}
			checkPixels(img, before, "preMultiplyAlpha", [srgb](const Px& p)
				{
					Px r = p;
					for (int c = 0; c < 3; ++c)
					{
						r.c[c] = srgb ? refToSRGB(refToLinear(p.c[c])*p.c[3]) : p.c[c]*p.c[3];
					}
					return r;
				});
		}
		else
		{
			Image::Channel ch[4];
			for (auto& c : ch)
				c = Image::Channel(src.draw(5));
			src.note << " swizzle(" << int(ch[0]) << int(ch[1]) << int(ch[2]) << int(ch[3]) << ")";
			src.label("swizzle");
			CHECK_P(img.swizzle(ch[0], ch[1], ch[2], ch[3]), "op-result", "swizzle failed");
			CHECK_P(img.colorSpace() == before.cs, "op-colorspace", "swizzle changed the colour space");
			checkPixels(img, before, "swizzle", [&ch](const Px& p)
				{
					Px r;
					for (int c = 0; c < 4; ++c)
						r.c[c] = int(ch[c]) < 4 ? p.c[int(ch[c])] : c == 3 ? 1 : 0;
					return r;
				});
		}
		if (rawBytes(img) != raw)
			src.nontrivial();
	}
}

//---------------------------------------------------------------------------------------------
// C18

PROPERTY(C18, 2400000, 24000000,
	"source format (stratified), target format (colour and alpha formats, normalized and float), size "
	"1..20 (biased to single rows/columns), wrap/sign options, height scale, content; checked per pixel "
	"against the finite-difference formula; non-trivial: non-constant source")
{
	static const std::vector<IF> targets = {IF::RGBF, IF::RGBAF, IF::RGB8, IF::RGBA8, IF::RGB16,
		IF::RGBA16, IF::RGB565};
	ImgOpts o;
	o.maxDim = 20;
	o.bigEvery = 4000;
	Image img = genImage(src, o);
	IF dst = src.pick(targets);
	const FmtInfo& d = fmt(dst);
	Image::NormalOptions opt = Image::NormalOptions::Default;
	bool keep = src.draw(2) && d.kind == Kind::Float;
	bool wx = src.draw(2), wy = src.draw(2);
	if (keep)
		opt |= Image::NormalOptions::KeepSign;
	if (wx)
		opt |= Image::NormalOptions::WrapX;
	if (wy)
		opt |= Image::NormalOptions::WrapY;
	double height;
	switch (src.draw(4))
	{
		case 0: height = 1; break;
		case 1: height = double(src.draw(100))/10; break;
		case 2: height = -double(src.draw(50))/10; break;
		default: height = std::pow(10.0, double(src.draw(6)) - 3); break;
	}
	src.note << " normalMap(" << d.name << (keep ? " keep" : "") << (wx ? " wrapx" : "") <<
		(wy ? " wrapy" : "") << " h=" << height << ")";
	Snap s = snap(img);
	if (nonConstant(s))
		src.nontrivial();
	std::vector<std::uint8_t> raw = rawBytes(img);
	Image res = img.createNormalMap(opt, height, dst);
	src.checks(s.px.size());
	CHECK_P(rawBytes(img) == raw, "normal-mutates", "createNormalMap changed its source");
	CHECK_P(res.isValid() && res.format() == dst && res.width() == s.w && res.height() == s.h,
		"normal-meta", "normal map has the wrong format or size");
	for (unsigned int y = 0; y < s.h; ++y)
	{
		for (unsigned int x = 0; x < s.w; ++x)
		{
			auto value = [&](long px, long py) {return s.at(unsigned(px), unsigned(py)).c[0];};
			long l = long(x) - 1, r = long(x) + 1, u = long(y) - 1, b = long(y) + 1;
			double distX = 2, distY = 2;
			if (l < 0)
			{
				if (wx) l = s.w - 1; else {l = 0; distX = 1;}
			}
			if (r >= long(s.w))
			{
				if (wx) r = 0; else {r = s.w - 1; distX = 1;}
			}
			if (u < 0)
			{
				if (wy) u = s.h - 1; else {u = 0; distY = 1;}
			}
			if (b >= long(s.h))
			{
				if (wy) b = 0; else {b = s.h - 1; distY = 1;}
			}
			// The y axis points up while rows go down.
			double nx = (value(l, y) - value(r, y))*height/distX;
			double ny = (value(x, b) - value(x, u))*height/distY;
			double len = std::sqrt(nx*nx + ny*ny + 1);
			double n[4] = {nx/len, ny/len, 1/len, 1};
			Px got = getPx(res, x, y);
			for (int c = 0; c < 4; ++c)
			{
				double want = n[c];
				if (c < 3 && !keep)
					want = want*0.5 + 0.5;
				double tol = d.kind == Kind::UNorm ? 0.5/d.maxv[c] + 1e-7 : 3e-7;
				if (c == 3)
					tol = 1e-9;
				CHECK_P(std::abs(got.c[c] - want) <= tol, "normal-value", "pixel (" << x << "," << y <<
					") of " << s.w << "x" << s.h << " channel " << c << " expected " << want << ", got " <<
					got.c[c]);
			}
		}
	}
}

// C04 texture lifecycle, C05 mip chains, C06 custom mips, C22 value semantics, C26 API histories.
#include <algorithm>
#include "texcommon.h"
#include "refresize.h"
#include <map>

namespace
{

typedef Image::ResizeFilter RF;

const char* filterName(RF f)
{
	static const char* n[] = {"box", "linear", "cubic", "catmull-rom", "b-spline"};
	return n[unsigned(f)];
}

const float* row(const Image& img, unsigned int y)
{
	const float* p = static_cast<const float*>(img.scanline(y));
	CHECK_P(p, "null-scanline", "scanline(" << y << ") is null");
	return p;
}

// Largest difference between two RGBAF images, relative to the largest magnitude present.
void checkClose(const Image& have, const Image& want, double tol, const std::string& key,
	const std::string& what, double extra = 0)
{
	CHECK_P(have.isValid(), key + "-missing", what << ": no image");
	CHECK_P(have.format() == IF::RGBAF, key + "-format", what << ": format is " <<
		fmt(have.format()).name);
	CHECK_P(have.width() == want.width() && have.height() == want.height(), key + "-size", what <<
		": size is " << have.width() << "x" << have.height() << ", not " << want.width() << "x" <<
		want.height());
	CHECK_P(have.colorSpace() == want.colorSpace(), key + "-colorspace", what <<
		": colour space is " << csName(have.colorSpace()));
	double scale = 1;
	for (unsigned int y = 0; y < want.height(); ++y)
	{
		const float* b = row(want, y);
		for (unsigned int k = 0; k < want.width()*4; ++k)
		{
			if (std::isfinite(b[k]))
				scale = std::max(scale, double(std::abs(b[k])));
		}
	}
	for (unsigned int y = 0; y < want.height(); ++y)
	{
		const float* a = row(have, y);
		const float* b = row(want, y);
		for (unsigned int k = 0; k < want.width()*4; ++k)
		{
			if (!(a[k] == b[k] || std::abs(double(a[k]) - b[k]) <= tol*scale + extra ||
				(a[k] != a[k] && b[k] != b[k])))
			{
				CHECK_P(false, key, what << ": channel " << k%4 << " of pixel (" << k/4 << "," << y <<
					") is " << a[k] << ", not " << b[k]);
			}
		}
	}
}

void fillSimple(Image& img, std::uint32_t seed, int mode, const float* constant)
{
	Rng r(seed);
	for (unsigned int y = 0; y < img.height(); ++y)
	{
		float* p = static_cast<float*>(img.scanline(y));
		for (unsigned int x = 0; x < img.width(); ++x, p += 4)
		{
			for (int c = 0; c < 4; ++c)
			{
				switch (mode)
				{
					case 0: p[c] = float(r.unit()); break;
					case 1: p[c] = float(r.below(2)); break;
					case 2: p[c] = constant[c]; break;
					case 3: p[c] = float((x + y + seed%7 + c)%5)*0.25f; break;
					default: p[c] = float(r.unit()*8 - 1); break;
				}
			}
		}
	}
}

struct Base
{
	Spec spec; // spec.mips as initialized
	int mode;
	float constant[4];
};

// A texture with its first level set (other levels sometimes set, sometimes left out).
Texture genBase(Src& src, Base& b, unsigned int maxPixels)
{
	b.spec = genSpec(src, maxPixels, -1, maxPixels >= 900 ? 2000 : 0);
	if (src.draw(3))
		b.spec.mips = 1;
	src.note << b.spec;
	Texture t = makeTexture(b.spec);
	b.mode = int(src.draw(5));
	std::uint32_t seed = src.seed32();
	Rng r(seed);
	for (float& c : b.constant)
		c = float(r.unit());
	src.note << " content mode " << b.mode << "#" << seed;
	bool others = b.spec.mips > 1 && src.draw(2);
	std::uint32_t id = 0;
	forSurfaces(b.spec, [&](const SurfIdx& i)
		{
			if (i.mip > 0 && !others)
				return;
			Image img(IF::RGBAF, refLevelSize(b.spec.w, i.mip), refLevelSize(b.spec.h, i.mip),
				b.spec.cs);
			float other[4] = {0.9f, 0.1f, 0.3f, 0.7f};
			fillSimple(img, std::uint32_t(pbt::hash2(seed, ++id)), b.mode,
				i.mip ? other : b.constant);
			CHECK_P(setSurface(t, i, std::move(img)), "set-image", "setImage(" << surfName(i) <<
				") refused for " << b.spec);
		});
	return t;
}

// One 3D level by the documented slice combination, from slices already resized in X and Y.
// Slices numerically on the edge of the box are chosen by the bits of ties.
Image combineSlices(const std::vector<Image>& prev, unsigned int count, unsigned int d, RF filter,
	ColorSpace cs, unsigned int ties, std::vector<unsigned int>& tied)
{
	double inv = double(prev.size())/count;
	double half = std::max(inv, 1.0);
	double center = (d + 0.5)*inv;
	unsigned int w = prev[0].width(), h = prev[0].height();
	Image out(IF::RGBAF, w, h, cs);
	std::vector<double> weights;
	tied.clear();
	for (std::size_t i = 0; i < prev.size(); ++i)
	{
		double dist = std::abs(i + 0.5 - center)/half;
		double weight;
		if (filter == RF::Box)
		{
			if (std::abs(dist - 0.5) < 1e-9)
			{
				weight = ties >> tied.size() & 1 ? 0 : 1;
				tied.push_back(unsigned(i));
			}
			else
				weight = dist < 0.5 ? 1 : 0;
		}
		else
			weight = std::max(1 - dist, 0.0);
		weights.push_back(weight);
	}
	double total = 0;
	for (double v : weights)
		total += v;
	if (total == 0)
		return out;
	for (unsigned int y = 0; y < h; ++y)
	{
		float* o = static_cast<float*>(out.scanline(y));
		for (unsigned int k = 0; k < w*4; ++k)
		{
			double sum = 0;
			bool srgb = cs == ColorSpace::sRGB && k%4 != 3;
			for (std::size_t i = 0; i < prev.size(); ++i)
			{
				if (weights[i] == 0)
					continue;
				double v = row(prev[i], y)[k];
				sum += (srgb ? refToLinear(v) : v)*weights[i];
			}
			sum /= total;
			o[k] = float(srgb ? refToSRGB(sum) : sum);
		}
	}
	return out;
}

// What the rounding of large values can amount to after they cancel each other.
double cancellation(const std::vector<Image>& slices)
{
	double most = 0;
	for (const Image& img : slices)
	{
		bool srgb = img.colorSpace() == ColorSpace::sRGB;
		for (unsigned int y = 0; y < img.height(); ++y)
		{
			for (unsigned int k = 0; k < img.width()*4; ++k)
			{
				double v = row(img, y)[k];
				if (!std::isfinite(v))
					continue;
				most = std::max(most, std::abs(v));
				if (srgb && k%4 != 3)
					most = std::max(most, 12.92*std::abs(refToLinear(v)));
			}
		}
	}
	return most*5e-7;
}

void checkCombined(const Texture& t, unsigned int mip, const std::vector<Image>& slices, RF filter,
	double tol, const std::string& key, double extra = 0)
{
	unsigned int count = t.depth(mip);
	// Slices on an edge that were left out of the slice before that edge.
	std::vector<unsigned int> leftOut;
	for (unsigned int d = 0; d < count; ++d)
	{
		std::vector<unsigned int> tied;
		unsigned int maybeIn = 0;
		bool ok = false;
		pbt::Fail first;
		for (unsigned int ties = 0; ties == 0 || ties < 1u << tied.size(); ++ties)
		{
			Image want = combineSlices(slices, count, d, filter, t.colorSpace(), ties, tied);
			std::ostringstream what;
			what << "level " << mip << " slice " << d << " filter " << filterName(filter);
			try
			{
				checkClose(t.getImage(mip, d), want, tol, key, what.str(), extra);
				ok = true;
				maybeIn |= ~ties;
			}
			catch (pbt::Fail& e)
			{
				if (ties == 0)
					first = e;
			}
		}
		if (!ok)
			throw first;
		std::vector<unsigned int> out;
		for (std::size_t i = 0; i < tied.size(); ++i)
		{
			if (maybeIn >> i & 1)
				continue;
			CHECK_P(std::find(leftOut.begin(), leftOut.end(), tied[i]) == leftOut.end(), key + "-lost",
				"slice " << tied[i] << " of level " << mip - 1 << " is on the edge between the boxes of "
				"slices " << d - 1 << " and " << d << " of the next level and not in any of them");
			out.push_back(tied[i]);
		}
		leftOut = out;
	}
}

struct TexState
{
	Spec s;
	bool valid = false;
};

void checkShape(const Texture& t, const Spec& s, const std::string& key)
{
	CHECK_P(t.isValid() && bool(t), key + "-valid", "not valid for " << s);
	CHECK_P(t.dimension() == s.dim, key + "-dimension", "dimension() is " << dimName(t.dimension()));
	CHECK_P(t.colorSpace() == s.cs, key + "-colorspace", "colorSpace() is " <<
		csName(t.colorSpace()) << " for " << s);
	CHECK_P(t.mipLevelCount() == s.mips, key + "-mips", "mipLevelCount() is " << t.mipLevelCount() <<
		" for " << s);
	CHECK_P(t.faceCount() == s.faces(), key + "-faces", "faceCount() is " << t.faceCount());
	CHECK_P(t.isArray() == (s.dim != TD::Dim3D && s.depth > 0), key + "-array", "isArray() is " <<
		t.isArray() << " for " << s);
	for (unsigned int m = 0; m < s.mips + 2; ++m)
	{
		bool in = m < s.mips;
		unsigned int w = in ? refLevelSize(s.w, m) : 0, h = in ? refLevelSize(s.h, m) : 0,
			d = in ? s.layers(m) : 0;
		CHECK_P(t.width(m) == w && t.height(m) == h && t.depth(m) == d, key + "-level", "level " <<
			m << " of " << s << " is " << t.width(m) << "x" << t.height(m) << "x" << t.depth(m) <<
			", not " << w << "x" << h << "x" << d);
	}
}

unsigned int genLevels(Src& src, unsigned int full)
{
	switch (src.draw(4))
	{
		case 0: return Texture::allMipLevels;
		case 1: return full + unsigned(src.draw(4));
		default: return unsigned(src.draw(full + 1));
	}
}

} // namespace

PROPERTY(C05, 300000, 6000000,
	"Each case builds a texture of random dimension (1D, 2D, 3D, cube), size, layers, colour space and "
	"content, sometimes with stale lower levels, generates mipmaps with a random filter and level "
	"count and compares every pixel of every level with the previous level resized (and for 3D "
	"combined across slices by the reference), one surface against the reference resampler, plus "
	"shape and constancy. Non-trivial: at least one level was generated from a non-constant image.")
{
	Base b;
	Texture t = genBase(src, b, 1500);
	auto filter = RF(src.draw(5));
	unsigned int full = refMaxMips(b.spec.dim, b.spec.w, b.spec.h, b.spec.depth);
	unsigned int levels = genLevels(src, full);
	src.note << " levels=" << levels << " filter=" << filterName(filter);
	src.label(std::string("filter:") + filterName(filter));
	std::vector<std::vector<std::uint8_t>> base;
	Spec first = b.spec;
	first.mips = 1;
	forSurfaces(first, [&](const SurfIdx& i) {base.push_back(rawBytes(getSurface(t, i)));});
	CHECK_P(t.generateMipmaps(filter, levels), "generate-refused", "generateMipmaps(" << levels <<
		") failed for " << b.spec);
	Spec s = b.spec;
	s.mips = std::min(std::max(levels, 1u), full);
	checkShape(t, s, "shape");
	CHECK_P(t.imagesComplete(), "complete", "images aren't complete after generating mipmaps");
	CHECK_P(!t.converted(), "converted", "converted after generating mipmaps");
	std::size_t k = 0;
	forSurfaces(first, [&](const SurfIdx& i)
		{
			CHECK_P(rawBytes(getSurface(t, i)) == base[k], "base-changed", surfName(i) <<
				" changed when generating mipmaps");
			++k;
		});
	if (s.mips > 1 && b.mode != 2)
		src.nontrivial();
	double tol = s.cs == ColorSpace::sRGB ? 1e-4 : 1e-5;
	std::uint64_t probe = src.draw(1000);
	std::uint64_t n = 0;
	for (unsigned int m = 1; m < s.mips; ++m)
	{
		unsigned int w = refLevelSize(s.w, m), h = refLevelSize(s.h, m);
		if (s.dim == TD::Dim3D)
		{
			std::vector<Image> slices;
			for (unsigned int d = 0; d < s.layers(m - 1); ++d)
				slices.push_back(t.getImage(m - 1, d).resize(w, h, filter));
			checkCombined(t, m, slices, filter, tol, "mip-3d");
		}
		for (unsigned int l = 0; l < s.layers(m); ++l)
		{
			for (unsigned int f = 0; f < s.faces(); ++f)
			{
				SurfIdx i{m, l, f};
				const Image& img = getSurface(t, i);
				if (s.dim != TD::Dim3D)
				{
					const Image& prev = getSurface(t, SurfIdx{m - 1, l, f});
					checkClose(img, prev.resize(w, h, filter), tol, "mip-2d", surfName(i));
					if (n == probe%(s.surfaces()) && prev.width()*prev.height() <= 900 &&
						!(prev.width() == w && prev.height() == h))
					{
						src.label("reference-resampled");
						checkResize(snap(prev), snap(img), filter, "mip-reference", surfName(i));
					}
				}
				++n;
				src.checks(std::uint64_t(w)*h);
				if (b.mode == 2)
				{
					for (unsigned int y = 0; y < h; ++y)
					{
						for (unsigned int x = 0; x < w*4; ++x)
						{
							CHECK_P(std::abs(row(img, y)[x] - b.constant[x%4]) <= tol*2,
								"constant", surfName(i) << " of a constant texture holds " <<
								row(img, y)[x] << ", not " << b.constant[x%4]);
						}
					}
				}
			}
		}
	}
}

PROPERTY(C06, 300000, 6000000,
	"Each case adds random custom images (any format, own size and colour space, Once or Continue, "
	"several faces, layers and levels, some for surfaces that don't exist, owned, referenced or the "
	"texture's own images, copied and assigned in various ways) to a "
	"random texture and compares every surface with a model of the chain; 3D cases also give partial "
	"or mixed levels, which must be refused. Non-trivial: at least one custom image replaced a "
	"surface.")
{
	Base b;
	Texture t = genBase(src, b, 900);
	auto filter = RF(src.draw(5));
	unsigned int full = refMaxMips(b.spec.dim, b.spec.w, b.spec.h, b.spec.depth);
	unsigned int levels = genLevels(src, full);
	Spec s = b.spec;
	s.mips = std::min(std::max(levels, 1u), full);
	src.note << " levels=" << levels << " filter=" << filterName(filter);
	src.label(std::string("filter:") + filterName(filter));

	// Copies stay alive for custom images that are referenced.
	std::vector<std::unique_ptr<Image>> kept;
	Texture::CustomMipImages custom;
	std::map<std::vector<unsigned int>, std::pair<Image, Texture::MipReplacement>> model;
	bool ownImages = src.draw(b.spec.mips > 1 ? 2 : 8) == 1 && t.imagesComplete();
	auto add = [&](unsigned int face, unsigned int mip, unsigned int layer,
		Texture::MipReplacement replacement)
	{
		unsigned int w = refLevelSize(s.w, mip), h = refLevelSize(s.h, mip);
		ImgOpts o;
		o.maxDim = 16;
		o.formats.clear();
		static const std::vector<IF> common = {IF::RGBAF, IF::RGBA8, IF::RGB8, IF::RGBF, IF::Gray8,
			IF::RGBA16};
		if (src.draw(4))
			o.formats = common;
		bool fit = src.draw(3) != 0;
		Image img = genImage(src, o, fit ? w : 0, fit ? h : 0);
		src.note << "->face " << face << " mip " << mip << " layer " << layer <<
			(replacement == Texture::MipReplacement::Once ? " once" : " continue");
		Texture::ImageIndex index(Texture::CubeFace(face), mip, layer);
		if (ownImages && src.draw(2))
		{
			// The texture's own image, as it is before the call.
			SurfIdx i{unsigned(src.draw(b.spec.mips)), 0, unsigned(src.draw(b.spec.faces()))};
			i.layer = unsigned(src.draw(b.spec.layers(i.mip)));
			const Image& own = getSurface(t, i);
			src.note << " own " << surfName(i);
			src.label("own image");
			if (model.emplace(std::vector<unsigned int>{face, mip, layer},
				std::make_pair(own, replacement)).second)
			{
				custom.emplace(index, Texture::CustomMipImage(own, replacement));
			}
			return;
		}
		bool owned = src.draw(2);
		if (!model.emplace(std::vector<unsigned int>{face, mip, layer},
			std::make_pair(img, replacement)).second)
		{
			return;
		}
		if (owned)
			custom.emplace(index, Texture::CustomMipImage(std::move(img), replacement));
		else
		{
			kept.emplace_back(new Image(std::move(img)));
			custom.emplace(index, Texture::CustomMipImage(*kept.back(), replacement));
		}
	};
	unsigned int count = 1 + unsigned(src.draw(4));
	bool refuse = false;
	for (unsigned int n = 0; n < count; ++n)
	{
		auto replacement = Texture::MipReplacement(src.draw(2));
		unsigned int mip = 1 + unsigned(src.draw(std::max(s.mips, 2u)));
		if (src.draw(12) == 11)
			mip = 0; // level 0 can't be replaced
		if (s.dim == TD::Dim3D)
		{
			unsigned int slices = s.layers(mip);
			bool partial = slices > 1 && src.draw(8) == 7;
			bool mixed = slices > 1 && src.draw(8) == 7;
			unsigned int skip = partial ? unsigned(src.draw(slices)) : slices;
			unsigned int flip = mixed ? unsigned(src.draw(slices)) : slices;
			for (unsigned int d = 0; d < slices; ++d)
			{
				if (d == skip)
					continue;
				add(0, mip, d, d == flip ? Texture::MipReplacement(1 - int(replacement)) :
					replacement);
			}
		}
		else
		{
			// Mostly existing surfaces; others must have no effect.
			unsigned int face = unsigned(src.draw(s.dim == TD::Cube ? 6 : src.draw(8) == 7 ? 6 : 1));
			unsigned int layer = unsigned(src.draw(s.layers(0) + (src.draw(8) == 7 ? 2 : 0)));
			add(face, mip, layer, replacement);
		}
	}
	auto find = [&](unsigned int face, unsigned int mip, unsigned int layer)
	{
		return model.find(std::vector<unsigned int>{face, mip, layer});
	};
	if (s.dim == TD::Dim3D)
	{
		for (unsigned int m = 1; m < s.mips; ++m)
		{
			auto firstFound = find(0, m, 0);
			for (unsigned int d = 1; d < s.layers(m); ++d)
			{
				auto other = find(0, m, d);
				if ((other == model.end()) != (firstFound == model.end()) || (other != model.end() &&
					other->second.second != firstFound->second.second))
				{
					refuse = true;
				}
			}
		}
	}
	// An invalid custom image must be refused as a whole.
	bool invalid = src.draw(20) == 19;
	if (invalid)
	{
		unsigned int mip = 1 + unsigned(src.draw(s.mips));
		Texture::ImageIndex index(mip, 0);
		custom.erase(index);
		custom.emplace(index, Texture::CustomMipImage(Image(), Texture::MipReplacement::Once));
		src.note << " invalid custom image";
		refuse = true;
	}

	// However the custom images got there, they are the same.
	Image other(IF::RGBAF, 3, 3);
	switch (src.draw(4))
	{
		case 1:
		{
			src.note << " copied map";
			Texture::CustomMipImages copy(custom);
			custom.clear();
			custom.emplace(Texture::ImageIndex(1, 99),
				Texture::CustomMipImage(other, Texture::MipReplacement::Once));
			custom = copy;
			break;
		}
		case 2:
		{
			src.note << " assigned images";
			Texture::CustomMipImages rebuilt;
			for (auto& kv : custom)
			{
				unsigned int how = unsigned(src.draw(32));
				auto rep = how & 1 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
				Texture::CustomMipImage to = how & 2 ? Texture::CustomMipImage(other, rep) :
					Texture::CustomMipImage(Image(other), rep);
				if (how & 4)
				{
					to = kv.second;
					Texture::CustomMipImage& self = to;
					to = self;
				}
				else
					to = std::move(kv.second);
				Texture::CustomMipImage third(other, rep);
				if (how & 8)
					third = std::move(to);
				else
					third = to;
				if (how & 16)
					rebuilt.emplace(kv.first, third);
				else
					rebuilt.emplace(kv.first, std::move(third));
			}
			custom.clear();
			custom = std::move(rebuilt);
			break;
		}
		default:
			break;
	}

	Texture before(t);
	bool ok = t.generateMipmaps(filter, levels, custom);
	CHECK_P(ok == !refuse, "custom-result", "generateMipmaps returned " << ok << " for " <<
		custom.size() << " custom images" << (refuse ? ", which are partial, mixed or invalid" : ""));
	if (refuse)
	{
		src.label("refused");
		src.nontrivial();
		checkShape(t, b.spec, "refused-shape");
		forSurfaces(b.spec, [&](const SurfIdx& i)
			{
				CHECK_P(sameImage(getSurface(t, i), getSurface(before, i)), "refused-changed",
					surfName(i) << " changed by a refused call");
			});
		return;
	}
	checkShape(t, s, "shape");
	CHECK_P(t.imagesComplete(), "complete", "images aren't complete after generating mipmaps");
	Spec first = s;
	first.mips = 1;
	forSurfaces(first, [&](const SurfIdx& i)
		{
			CHECK_P(sameImage(getSurface(t, i), getSurface(before, i)), "base-changed", surfName(i) <<
				" changed when generating mipmaps");
		});

	double tol = 2e-4; // errors accumulate along the model's own chain
	auto expected = [&](const Image& img, unsigned int w, unsigned int h)
	{
		Image r = img.resize(w, h, filter);
		if (!r)
			r = img.convert(IF::RGBAF).resize(w, h, filter);
		r = r.convert(IF::RGBAF);
		r.changeColorSpace(s.cs);
		return r;
	};
	bool replaced = false;
	if (s.dim == TD::Dim3D)
	{
		// Slices of the generated chain as it stands.
		std::vector<Image> chain;
		double extra = 0;
		for (unsigned int d = 0; d < s.layers(0); ++d)
			chain.push_back(t.getImage(0, d));
		for (unsigned int m = 1; m < s.mips; ++m)
		{
			unsigned int w = refLevelSize(s.w, m), h = refLevelSize(s.h, m);
			std::vector<Image> slices;
			for (const Image& img : chain)
				slices.push_back(img.resize(w, h, filter));
			extra = std::max(extra, std::max(cancellation(chain), cancellation(slices)));
			auto found = find(0, m, 0);
			if (found == model.end())
			{
				checkCombined(t, m, slices, filter, tol, "chain-3d", extra);
				chain.clear();
				for (unsigned int d = 0; d < s.layers(m); ++d)
					chain.push_back(t.getImage(m, d));
				continue;
			}
			replaced = true;
			for (unsigned int d = 0; d < s.layers(m); ++d)
			{
				checkClose(t.getImage(m, d), expected(find(0, m, d)->second.first, w, h), tol,
					"custom-3d", surfName(SurfIdx{m, d, 0}));
			}
			std::vector<Image> next;
			for (unsigned int d = 0; d < s.layers(m); ++d)
			{
				std::vector<unsigned int> ties;
				next.push_back(found->second.second == Texture::MipReplacement::Continue ?
					t.getImage(m, d) : combineSlices(slices, s.layers(m), d, filter, s.cs, 0, ties));
				// A tie in an unseen level has no single right answer.
				if (found->second.second == Texture::MipReplacement::Once && filter == RF::Box &&
					!ties.empty() && std::abs(double(chain.size())/s.layers(m) - 1) > 1e-9 &&
					chain.size() != s.layers(m)*2)
				{
					src.label("box-tie");
					return;
				}
			}
			chain = std::move(next);
		}
	}
	else
	{
		for (unsigned int l = 0; l < s.layers(0); ++l)
		{
			for (unsigned int f = 0; f < s.faces(); ++f)
			{
				Image chain = getSurface(t, SurfIdx{0, l, f});
				for (unsigned int m = 1; m < s.mips; ++m)
				{
					unsigned int w = refLevelSize(s.w, m), h = refLevelSize(s.h, m);
					SurfIdx i{m, l, f};
					auto found = find(f, m, l);
					if (found == model.end())
					{
						chain = chain.resize(w, h, filter);
						checkClose(getSurface(t, i), chain, tol, "chain-2d", surfName(i));
						chain = getSurface(t, i);
						continue;
					}
					replaced = true;
					checkClose(getSurface(t, i), expected(found->second.first, w, h), tol,
						"custom-2d", surfName(i));
					chain = found->second.second == Texture::MipReplacement::Continue ?
						getSurface(t, i) : chain.resize(w, h, filter);
				}
			}
		}
	}
	src.checks(s.surfaces());
	if (replaced)
		src.nontrivial();
}

//---------------------------------------------------------------------------------------------
// C04

namespace
{

// What a texture should report and hold.
struct Model
{
	bool valid = false;
	Spec s;
	std::map<std::vector<unsigned int>, Image> images; // missing: not set
	bool converted = false;
	TF format = TF::Unknown;
	TT type = TT::UNorm;
	Texture::Alpha alpha = Texture::Alpha::Standard;
	Texture::ColorMask mask;
	std::map<std::vector<unsigned int>, std::vector<std::uint8_t>> data;
};

std::vector<unsigned int> key(const SurfIdx& i) {return {i.mip, i.layer, i.face};}

bool sameMask(const Texture::ColorMask& a, const Texture::ColorMask& b)
{
	return a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a;
}

// Same content, NaN equal to NaN.
bool sameFloats(const Image& a, const Image& b)
{
	return sameImage(a, b);
}

void checkModel(Src& src, const Texture& t, const Model& m, const std::string& op)
{
	src.checks(1);
	std::string k = "after-" + op;
	if (!m.valid)
	{
		CHECK_P(!t.isValid() && !t, k, "valid without being initialized");
		CHECK_P(t.width() == 0 && t.height() == 0 && t.depth() == 0 && t.mipLevelCount() == 0 &&
			t.faceCount() == 0 && !t.isArray(), k, "an uninitialized texture reports a size");
		CHECK_P(!t.imagesComplete() && !t.converted() && t.format() == TF::Unknown, k,
			"an uninitialized texture reports content");
		CHECK_P(!t.getImage().isValid() && !t.getImage(Texture::CubeFace::NegZ).isValid() &&
			!t.data() && t.dataSize() == 0 && !t.data(Texture::CubeFace::PosX) &&
			t.dataSize(Texture::CubeFace::PosX) == 0, k, "an uninitialized texture holds data");
		return;
	}
	checkShape(t, m.s, k);
	bool complete = true;
	unsigned int real = t.dimension() == TD::Cube ? 6 : 1;
	(void)real;
	for (unsigned int mip = 0; mip <= m.s.mips; ++mip)
	{
		unsigned int layers = mip < m.s.mips ? m.s.layers(mip) : 1;
		for (unsigned int l = 0; l <= layers; ++l)
		{
			for (unsigned int f = 0; f < 6; ++f)
			{
				bool in = mip < m.s.mips && l < layers && f < m.s.faces();
				SurfIdx i{mip, l, f};
				const Image& img = t.getImage(Texture::CubeFace(f), mip, l);
				auto found = m.images.find(key(i));
				bool set = found != m.images.end();
				if (!in)
				{
					CHECK_P(!img.isValid(), k, "out of range " << surfName(i) << " of " << m.s <<
						" has an image");
				}
				else if (!set)
				{
					complete = false;
					CHECK_P(!img.isValid(), k, surfName(i) << " has an image that wasn't set");
				}
				else
				{
					CHECK_P(img.isValid(), k, surfName(i) << " lost its image");
					CHECK_P(sameFloats(img, found->second), k, surfName(i) << " holds another image");
				}
				auto data = m.data.find(key(i));
				const void* p = t.data(Texture::CubeFace(f), mip, l);
				std::size_t size = t.dataSize(Texture::CubeFace(f), mip, l);
				if (!in || data == m.data.end())
					CHECK_P(!p && size == 0, k, surfName(i) << " of " << m.s << " has data");
				else
				{
					CHECK_P(p && size == data->second.size() &&
						std::memcmp(p, data->second.data(), size) == 0, k, surfName(i) <<
						" holds other data");
				}
				// The variants without a face.
				if (f == 0)
				{
					const Image& plain = t.getImage(mip, l);
					const void* pp = t.data(mip, l);
					std::size_t ps = t.dataSize(mip, l);
					if (m.s.dim == TD::Cube)
						CHECK_P(!plain.isValid() && !pp && ps == 0, k,
							"a cube map has images without a face");
					else
						CHECK_P(&plain == &img && pp == p && ps == size, k,
							"accessors with and without a face disagree on " << surfName(i));
				}
			}
		}
	}
	CHECK_P(t.imagesComplete() == complete, k, "imagesComplete() is " << t.imagesComplete());
	CHECK_P(t.converted() == m.converted, k, "converted() is " << t.converted());
	CHECK_P(t.format() == m.format, k, "format() is " << int(t.format()) << ", not " <<
		int(m.format));
	if (m.converted)
	{
		CHECK_P(t.type() == m.type && t.alphaType() == m.alpha && sameMask(t.colorMask(), m.mask), k,
			"type, alpha type or color mask aren't those of the conversion");
	}
}

Image toTextureImage(const Image& img, ColorSpace cs)
{
	Image r = img.convert(IF::RGBAF);
	r.changeColorSpace(cs);
	return r;
}

} // namespace

PROPERTY(C04, 60000, 1200000,
	"Each case runs a random history of up to 25 calls (initialize with valid and invalid arguments, "
	"setImage in its four overloads with right and wrong sizes, levels, layers and faces, any image "
	"format and colour space, generateMipmaps, convert, save, reset, copy, move) on two textures and "
	"compares the result of each call and every query after it with a model. Non-trivial: the history "
	"held at least one accepted image, and a conversion or mip generation succeeded.")
{
	Texture t[2];
	Model m[2];
	unsigned int steps = 4 + unsigned(src.draw(22));
	bool converted = false, images = false;
	TF lastFormat = TF::Unknown;
	TT lastType = TT::UNorm;
	for (unsigned int step = 0; step < steps; ++step)
	{
		unsigned int k = unsigned(src.draw(5)) == 4 ? 1 : 0;
		Texture& x = t[k];
		Model& y = m[k];
		std::string op;
		unsigned int choice = unsigned(src.draw(20));
		if (!y.valid && choice > 3)
			choice = 0;
		src.note << " | " << k << ":";
		// What the texture reports about its conversion, which calls that don't change it must keep.
		auto reported = [](const Texture& tex)
		{
			std::ostringstream os;
			Texture::ColorMask mask = tex.colorMask();
			os << int(tex.format()) << "/" << int(tex.type()) << "/" << int(tex.alphaType()) << "/" <<
				mask.r << mask.g << mask.b << mask.a << "/" << int(tex.colorSpace()) << "/" <<
				int(tex.dimension());
			return os.str();
		};
		const std::string before = reported(x), otherBefore = reported(t[1 - k]);
		bool keeps = choice > 3, keepsOther = choice != 3;
		if (choice <= 1) // initialize
		{
			op = "initialize";
			Spec s = genSpec(src, 200, -1, 1500);
			unsigned int mips = s.mips;
			bool ok = true;
			switch (src.draw(10))
			{
				case 5: mips = 0; break;
				case 6: mips = Texture::allMipLevels; break;
				case 7: mips += 5; break;
				case 8:
					// Invalid sizes.
					switch (src.draw(3))
					{
						case 0: s.w = 0; break;
						case 1: s.h = 0; break;
						default:
							s.dim = TD::Dim3D;
							s.depth = 0;
							break;
					}
					ok = false;
					break;
				case 9:
					if (s.dim == TD::Dim1D)
					{
						s.h = 2 + unsigned(src.draw(5));
						ok = false;
					}
					break;
				default:
					break;
			}
			src.note << "initialize(" << s << " asked " << mips << ")";
			bool r;
			if (src.draw(3) == 2)
			{
				x = Texture(s.dim, s.w, s.h, s.depth, mips, s.cs);
				r = x.isValid();
			}
			else
				r = x.initialize(s.dim, s.w, s.h, s.depth, mips, s.cs);
			CHECK_P(r == ok, "initialize-result", "initialize(" << s << ") returned " << r);
			y = Model();
			y.valid = ok;
			y.s = s;
			if (ok)
				y.s.mips = std::min(std::max(mips, 1u), refMaxMips(s.dim, s.w, s.h, s.depth));
		}
		else if (choice == 2)
		{
			op = "reset";
			src.note << "reset";
			x.reset();
			y = Model();
		}
		else if (choice == 3) // copy, move, swap between the two
		{
			unsigned int how = unsigned(src.draw(6));
			src.note << "assign " << how;
			op = "assign";
			switch (how)
			{
				case 0: t[1 - k] = x; m[1 - k] = y; break;
				case 1: {Texture c(x); t[1 - k] = std::move(c); m[1 - k] = y; break;}
				case 2:
				{
					t[1 - k] = std::move(x);
					m[1 - k] = y;
					// Moved from: any state, so give it a known one.
					x.reset();
					y = Model();
					break;
				}
				case 3: {Texture c(std::move(x)); x = c; break;}
				case 4: {Texture& self = x; x = self; break;}
				default: std::swap(t[0], t[1]); std::swap(m[0], m[1]); break;
			}
		}
		else if (choice <= 9 && choice != 9) // one image
		{
			op = "setImage";
			SurfIdx i;
			i.mip = unsigned(src.draw(y.s.mips));
			i.layer = unsigned(src.draw(y.s.layers(i.mip)));
			i.face = unsigned(src.draw(y.s.faces()));
			unsigned int w = refLevelSize(y.s.w, i.mip), h = refLevelSize(y.s.h, i.mip);
			bool ok = true;
			unsigned int wrong = unsigned(src.draw(12));
			bool null = false;
			bool faceOverload = src.draw(3) ? y.s.dim == TD::Cube : y.s.dim != TD::Cube;
			switch (wrong)
			{
				case 6: w += 1 + unsigned(src.draw(3)); ok = false; break;
				case 7:
					h = h > 1 && src.draw(2) ? h - 1 : h + 1;
					ok = false;
					break;
				case 8:
				{
					// The size of another level.
					unsigned int other = i.mip ? i.mip - 1 : i.mip + 1;
					unsigned int ow = refLevelSize(y.s.w, other), oh = refLevelSize(y.s.h, other);
					ok = ow == w && oh == h;
					w = ow;
					h = oh;
					break;
				}
				case 9:
					i.mip = y.s.mips + unsigned(src.draw(3));
					ok = false;
					break;
				case 10:
					i.layer = y.s.layers(i.mip) + unsigned(src.draw(3));
					ok = false;
					break;
				case 11:
					if (src.draw(2))
						null = true;
					else
					{
						faceOverload = true;
						i.face = unsigned(src.draw(6));
					}
					break;
				default:
					break;
			}
			if (faceOverload ? i.face >= y.s.faces() : y.s.dim == TD::Cube)
				ok = false;
			if (!faceOverload)
				i.face = 0;
			SurfIdx own{i.mip, 0, 0};
			if (wrong == 5)
			{
				// One of the texture's own images, often the one that is replaced.
				own = i;
				if (src.draw(2))
				{
					own.layer = unsigned(src.draw(y.s.layers(i.mip)));
					own.face = unsigned(src.draw(y.s.faces()));
				}
			}
			if (wrong == 5 && ok && y.images.count(key(own)))
			{
				src.label("own image");
				src.note << "setImage(" << surfName(i) << (faceOverload ? " face" : "") << " own " <<
					surfName(own) << ")";
				const Image& img = getSurface(x, own);
				CHECK_P(faceOverload ? x.setImage(img, Texture::CubeFace(i.face), i.mip, i.layer) :
					x.setImage(img, i.mip, i.layer), "setImage-own", "setImage(" << surfName(i) <<
					") refused the texture's own " << surfName(own));
				Image copy = y.images[key(own)];
				y.images[key(i)] = copy;
				checkModel(src, x, y, op);
				continue;
			}
			Image img;
			if (!null)
			{
				ImgOpts o;
				static const std::vector<IF> common = {IF::RGBAF, IF::RGBA8, IF::RGB16};
				if (src.draw(3))
					o.formats = common;
				img = genImage(src, o, w, h);
			}
			else
				ok = false;
			Image original = img;
			bool move = src.draw(2);
			src.note << "setImage(" << surfName(i) << (faceOverload ? " face" : "") <<
				(move ? " move" : "") << ")";
			bool r;
			if (faceOverload)
			{
				auto f = Texture::CubeFace(i.face);
				r = move ? x.setImage(std::move(img), f, i.mip, i.layer) :
					x.setImage(img, f, i.mip, i.layer);
			}
			else
			{
				r = move ? x.setImage(std::move(img), i.mip, i.layer) :
					x.setImage(img, i.mip, i.layer);
			}
			CHECK_P(r == ok, "setImage-result", "setImage(" << surfName(i) << ", " << w << "x" << h <<
				") on " << y.s << " returned " << r);
			if (!move || !ok)
			{
				CHECK_P(sameImage(img, original), "setImage-argument",
					"setImage changed the image it was given");
			}
			if (ok)
			{
				images = true;
				y.images[key(i)] = toTextureImage(original, y.s.cs);
			}
		}
		else if (choice <= 12) // all the missing images at once
		{
			op = "fill";
			bool replace = src.draw(3) == 2;
			src.note << (replace ? "fill all" : "fill");
			std::uint32_t seed = src.seed32();
			forSurfaces(y.s, [&](const SurfIdx& i)
				{
					if (!replace && y.images.count(key(i)))
						return;
					Image img(IF::RGBAF, refLevelSize(y.s.w, i.mip), refLevelSize(y.s.h, i.mip),
						y.s.cs);
					fillSimple(img, seed + i.mip*100 + i.layer*7 + i.face, 0, nullptr);
					CHECK_P(i.face == 0 && y.s.dim != TD::Cube ? x.setImage(img, i.mip, i.layer) :
						x.setImage(img, Texture::CubeFace(i.face), i.mip, i.layer),
						"setImage-result", "setImage(" << surfName(i) << ") refused");
					y.images[key(i)] = img;
				});
			images = true;
		}
		else if (choice <= 14)
		{
			op = "generateMipmaps";
			unsigned int full = refMaxMips(y.s.dim, y.s.w, y.s.h, y.s.depth);
			unsigned int levels = genLevels(src, full);
			auto filter = RF(src.draw(5));
			bool ok = true;
			Spec first = y.s;
			first.mips = 1;
			forSurfaces(first, [&](const SurfIdx& i) {ok = ok && y.images.count(key(i));});
			src.note << "generateMipmaps(" << levels;
			// A 3D level with custom images for only some of its slices is refused as a whole.
			Texture::CustomMipImages custom;
			Image stub;
			if (y.valid && y.s.dim == TD::Dim3D && src.draw(3) == 2)
			{
				unsigned int mip = 1 + unsigned(src.draw(3));
				unsigned int slices = std::max(y.s.depth >> mip, 1u);
				unsigned int slice = unsigned(src.draw(slices));
				stub.initialize(IF::RGBAF, 1, 1);
				stub.setPixel(0, 0, ColorRGBAd{0.25, 0.5, 0.75, 1});
				custom.emplace(Texture::ImageIndex(mip, slice), Texture::CustomMipImage(stub,
					Texture::MipReplacement::Once));
				bool used = mip < std::min(std::max(levels, 1u), full);
				if (used && slices > 1)
					ok = false;
				else
					custom.clear();
				if (!custom.empty())
					src.note << " custom " << mip << "/" << slice;
			}
			src.note << ")";
			bool r = x.generateMipmaps(filter, levels, custom);
			CHECK_P(r == ok, "generateMipmaps-result", "generateMipmaps on " << y.s << " returned " <<
				r);
			if (ok)
			{
				keeps = false;
				converted = true;
				y.s.mips = std::min(std::max(levels, 1u), full);
				for (auto it = y.images.begin(); it != y.images.end();)
				{
					if (it->first[0] > 0)
						it = y.images.erase(it);
					else
						++it;
				}
				// The content of the new levels is C05's subject.
				forSurfaces(y.s, [&](const SurfIdx& i)
					{
						if (i.mip == 0)
							return;
						const Image& img = getSurface(x, i);
						CHECK_P(img.isValid() && img.format() == IF::RGBAF &&
							img.colorSpace() == y.s.cs && img.width() == refLevelSize(y.s.w, i.mip) &&
							img.height() == refLevelSize(y.s.h, i.mip), "generateMipmaps-image",
							surfName(i) << " of " << y.s << " isn't a fitting image");
						y.images[key(i)] = img;
					});
				y.converted = false;
				y.format = TF::Unknown;
				y.data.clear();
			}
		}
		else if (choice <= 17)
		{
			op = "convert";
			TF f;
			TT type;
			if (lastFormat != TF::Unknown && src.draw(3) == 2)
			{
				// Once more to the same format.
				f = lastFormat;
				type = lastType;
			}
			else if (src.draw(5) == 4)
			{
				f = TF(src.draw(unsigned(TF::PVRTC2_RGBA_4BPP) + 1));
				type = TT(src.draw(6));
			}
			else
			{
				static const std::vector<FmtType> pairs = validPairs();
				static const std::vector<FmtType> srgb = validPairs([](const TexFmt& i, TT ty)
					{
						return i.srgb && ty == TT::UNorm;
					});
				const FmtType& p = src.pick(y.s.cs == ColorSpace::sRGB && src.draw(4) ? srgb : pairs);
				f = p.f->f;
				type = p.t;
			}
			const TexFmt* info = nullptr;
			for (const TexFmt& i : texFormats())
			{
				if (i.f == f)
					info = &i;
			}
			bool complete = true;
			forSurfaces(y.s, [&](const SurfIdx& i) {complete = complete && y.images.count(key(i));});
			bool formatOk = info ? refValid(*info, type) : Texture::isFormatValid(f, type);
			bool srgbOk = y.s.cs == ColorSpace::Linear || (info && info->srgb && type == TT::UNorm);
			bool ok = complete && formatOk && srgbOk;
			src.note << "convert(" << int(f) << " " << typeName(type);
			ConvertArgs args = genConvertArgs(src);
			src.note << ")";
			bool r = convertWith(x, f, type, args);
			if (!info && formatOk)
				throw pbt::Discard(); // a compressed format, when compiled in
			CHECK_P(r == ok, "convert-result", "convert to " << int(f) << " " << typeName(type) <<
				" on " << y.s << " returned " << r << " (complete " << complete << ", format " <<
				formatOk << ", sRGB " << srgbOk << ")");
			if (ok)
			{
				keeps = false;
				converted = true;
				y.converted = true;
				y.format = f;
				y.type = type;
				y.alpha = args.alpha;
				y.mask = args.mask;
				y.data.clear();
				lastFormat = f;
				lastType = type;
				// A texture without a history.
				Texture fresh;
				CHECK_P(fresh.initialize(y.s.dim, y.s.w, y.s.h, y.s.depth, y.s.mips, y.s.cs),
					"initialize-result", "initialize(" << y.s << ") refused");
				forSurfaces(y.s, [&](const SurfIdx& i)
					{
						CHECK_P(setSurface(fresh, i, Image(y.images.at(key(i)))), "setImage-result", "setImage(" << surfName(i) << ") refused");
					});
				ConvertArgs single = args;
				single.threads = 1;
				CHECK_P(convertWith(fresh, f, type, single), "convert-result", "convert to " << int(f) <<
					" " << typeName(type) << " on a new " << y.s << " failed");
				forSurfaces(y.s, [&](const SurfIdx& i)
					{
						y.data[key(i)] = surfBytes(x, i);
						CHECK_P(y.data[key(i)] == surfBytes(fresh, i), "convert-data", surfName(i) <<
							" isn't what a new texture with the same images has");
						CHECK_P(surfSize(x, i) == std::size_t(refLevelSize(y.s.w, i.mip))*
							refLevelSize(y.s.h, i.mip)*info->bytes, "convert-size", surfName(i) <<
							" has " << surfSize(x, i) << " bytes");
					});
				y.images.clear(); // documented to be destroyed to save memory
			}
		}
		else
		{
			op = "save";
			auto ft = Texture::FileType(src.draw(4));
			src.note << "save " << int(ft);
			std::vector<std::uint8_t> out;
			Texture::SaveResult r = x.save(out, ft);
			if (!y.converted)
				CHECK_P(r == Texture::SaveResult::Invalid, "save-result",
					"saving an unconverted texture returned " << int(r));
			else if (ft == Texture::FileType::Auto)
				CHECK_P(r == Texture::SaveResult::UnknownFormat, "save-result",
					"saving to memory without a file type returned " << int(r));
			else
				CHECK_P(r == (Texture::isFormatValid(y.format, y.type, ft) ?
					Texture::SaveResult::Success : Texture::SaveResult::Unsupported), "save-result",
					"save returned " << int(r));
		}
		src.label("op:" + op);
		if (keeps)
		{
			CHECK_P(reported(x) == before, "reported-kept-" + op, "the format, type, alpha type, color "
				"mask, color space or dimension reported went from " << before << " to " <<
				reported(x) << " though the call doesn't change it or was refused");
		}
		if (keepsOther)
		{
			CHECK_P(reported(t[1 - k]) == otherBefore, "reported-other-" + op,
				"the other texture reports " << reported(t[1 - k]) << ", not " << otherBefore);
		}
		checkModel(src, t[0], m[0], op);
		checkModel(src, t[1], m[1], op);
	}
	if (images && converted)
		src.nontrivial();
}

//---------------------------------------------------------------------------------------------
// C22

namespace
{

std::string describe(const Image& img)
{
	if (!img.isValid())
		return "invalid";
	std::ostringstream os;
	os << int(img.format()) << "/" << int(img.colorSpace()) << "/" << img.bitsPerPixel() << "/" <<
		img.width() << "x" << img.height() << "/" << img.redMask() << "," << img.redShift() << "," <<
		img.greenMask() << "," << img.greenShift() << "," << img.blueMask() << "," <<
		img.blueShift() << "," << img.alphaMask() << "," << img.alphaShift() << "/";
	std::vector<std::uint8_t> b = rawBytes(img);
	os.write(reinterpret_cast<const char*>(b.data()), b.size());
	return os.str();
}

std::string describe(const Texture& t)
{
	if (!t.isValid())
		return "invalid";
	std::ostringstream os;
	os << int(t.dimension()) << "/" << int(t.colorSpace()) << "/" << t.isArray() << "/" <<
		t.mipLevelCount() << "/" << t.faceCount() << "/" << t.imagesComplete() << "/" <<
		t.converted() << "/" << int(t.format());
	if (t.converted())
	{
		os << "/" << int(t.type()) << "/" << int(t.alphaType()) << "/" << t.colorMask().r <<
			t.colorMask().g << t.colorMask().b << t.colorMask().a;
	}
	for (unsigned int m = 0; m < t.mipLevelCount(); ++m)
	{
		os << "|" << t.width(m) << "x" << t.height(m) << "x" << t.depth(m);
		for (unsigned int d = 0; d < t.depth(m); ++d)
		{
			for (unsigned int f = 0; f < t.faceCount(); ++f)
			{
				os << describe(t.getImage(Texture::CubeFace(f), m, d)) << ";";
				const char* p = static_cast<const char*>(t.data(Texture::CubeFace(f), m, d));
				if (p)
					os.write(p, t.dataSize(Texture::CubeFace(f), m, d));
			}
		}
	}
	return os.str();
}

// Modifies an image in place. The same op and seed act the same on equal images.
void mutate(Image& img, unsigned int op, std::uint32_t seed)
{
	Rng r(seed);
	switch (op%9)
	{
		case 0:
			if (img.isValid())
			{
				img.setPixel(unsigned(r.below(img.width())), unsigned(r.below(img.height())),
					ColorRGBAd(r.unit(), r.unit(), r.unit(), r.unit()));
			}
			break;
		case 1: img.flipHorizontal(); break;
		case 2: img.flipVertical(); break;
		case 3: img.preMultiplyAlpha(); break;
		case 4: img.changeColorSpace(ColorSpace(r.below(2))); break;
		case 5: img.grayscale(); break;
		case 6:
			img.swizzle(Image::Channel::Green, Image::Channel::Blue, Image::Channel::Red,
				Image::Channel::None);
			break;
		case 7:
			if (img.isValid())
			{
				// Straight through the scanline.
				unsigned int y = unsigned(r.below(img.height()));
				auto p = static_cast<std::uint8_t*>(img.scanline(y));
				unsigned int n = img.width()*img.bitsPerPixel()/8;
				const FmtInfo& f = fmt(img.format());
				if (f.kind == Kind::Float)
				{
					if (f.f == IF::Double || f.f == IF::Complex)
						reinterpret_cast<double*>(p)[r.below(n/8)] = r.unit();
					else
						reinterpret_cast<float*>(p)[r.below(n/4)] = float(r.unit());
				}
				else
					p[r.below(n)] ^= std::uint8_t(1 + r.below(127));
			}
			break;
		default: Texture::adjustImageValueRange(img, TT(r.below(6)), IF::RGBA8); break;
	}
}

} // namespace

PROPERTY(C22, 375000, 6000000,
	"Each case runs a random history of copy and move construction and assignment, self-assignment, "
	"container growth and modification over a pool of images, textures or custom mip images, and "
	"after every call compares the full observable state of every object with its own record; equal "
	"objects given the same later operation must stay equal. Non-trivial: an object was modified or "
	"converted after being copied.")
{
	unsigned int what = unsigned(src.strat(3));
	const unsigned int slots = 4;
	bool copied = false, modified = false;
	unsigned int steps = 5 + unsigned(src.draw(20));
	if (what == 0)
	{
		src.label("images");
		std::vector<Image> v(slots);
		std::vector<std::string> d(slots, "invalid");
		std::vector<bool> known(slots, true);
		for (unsigned int step = 0; step < steps; ++step)
		{
			unsigned int i = unsigned(src.draw(slots)), j = unsigned(src.draw(slots));
			unsigned int op = unsigned(src.draw(12));
			src.note << " " << op << ":" << i << "," << j;
			switch (op)
			{
				case 0: case 1:
				{
					ImgOpts o;
					o.maxDim = 9;
					v[i] = genImage(src, o);
					d[i] = describe(v[i]);
					known[i] = true;
					break;
				}
				case 2: case 3:
					v[i] = v[j];
					d[i] = d[j];
					known[i] = known[j];
					copied = true;
					break;
				case 4: {Image c(v[j]); v[i] = c; d[i] = d[j]; known[i] = known[j]; copied = true; break;}
				case 5:
					if (i != j)
					{
						v[i] = std::move(v[j]);
						d[i] = d[j];
						known[i] = known[j];
						known[j] = false;
					}
					break;
				case 6: {Image c(std::move(v[i])); v[i] = std::move(c); break;}
				case 7: std::swap(v[i], v[j]); std::swap(d[i], d[j]); {bool k = known[i]; known[i] = known[j]; known[j] = k;} break;
				case 8: v[i].reset(); d[i] = "invalid"; known[i] = true; break;
				default:
				{
					unsigned int how = unsigned(src.draw(9));
					std::uint32_t seed = src.seed32();
					if (!known[i])
						break;
					Image twin = v[i];
					mutate(v[i], how, seed);
					std::string after = describe(v[i]);
					CHECK_P(describe(twin) == d[i], "image-copy-shares", "modifying an image (" <<
						how << ") changed a copy of it");
					mutate(twin, how, seed);
					CHECK_P(describe(twin) == after, "image-copy-differs",
						"a copy of an image behaves differently in operation " << how);
					modified = modified || after != d[i];
					d[i] = after;
					break;
				}
			}
			for (unsigned int k = 0; k < slots; ++k)
			{
				src.checks(1);
				if (known[k])
				{
					CHECK_P(describe(v[k]) == d[k], "image-state", "image " << k << " changed in step " <<
						step << " (" << op << " on " << i << "," << j << ")");
				}
			}
		}
	}
	else if (what == 1)
	{
		src.label("textures");
		std::vector<Texture> v(slots);
		bool shared = src.draw(3) == 2;
		Spec sharedSpec;
		static const std::vector<FmtType> allPairs = validPairs();
		static const std::vector<FmtType> srgbPairs = validPairs([](const TexFmt& f, TT ty)
			{
				return f.srgb && ty == TT::UNorm;
			});
		FmtType sharedFormat = srgbPairs[0];
		if (shared)
		{
			src.label("textures of one shape");
			sharedSpec = genSpec(src, 150, -1);
			if (src.draw(2))
			{
				sharedSpec.mips = refMaxMips(sharedSpec.dim, sharedSpec.w, sharedSpec.h,
					sharedSpec.depth);
			}
			sharedFormat = src.pick(sharedSpec.cs == ColorSpace::sRGB ? srgbPairs : allPairs);
			src.note << " shared " << sharedSpec << " " << int(sharedFormat.f->f) << " " <<
				typeName(sharedFormat.t);
		}
		std::vector<std::string> d(slots, "invalid");
		std::vector<bool> known(slots, true);
		for (unsigned int step = 0; step < steps; ++step)
		{
			unsigned int i = unsigned(src.draw(slots)), j = unsigned(src.draw(slots));
			unsigned int op = unsigned(src.draw(14));
			src.note << " " << op << ":" << i << "," << j;
			switch (op)
			{
				case 0: case 1: case 2:
				{
					if (shared)
					{
						// Textures that differ in nothing but their content.
						Texture t = makeTexture(sharedSpec);
						std::uint32_t seed = src.seed32(), id = 0;
						forSurfaces(sharedSpec, [&](const SurfIdx& s)
							{
								Image img(IF::RGBAF, refLevelSize(sharedSpec.w, s.mip),
									refLevelSize(sharedSpec.h, s.mip), sharedSpec.cs);
								fillSimple(img, std::uint32_t(pbt::hash2(seed, ++id)), 0, nullptr);
								CHECK_P(setSurface(t, s, std::move(img)), "set-image", "setImage(" <<
									surfName(s) << ") refused for " << sharedSpec);
							});
						if (src.draw(4))
						{
							CHECK_P(t.convert(sharedFormat.f->f, sharedFormat.t,
								Texture::Quality::Normal, Texture::Alpha::Standard,
								Texture::ColorMask(), 1), "convert-result", "convert to " <<
								int(sharedFormat.f->f) << " failed");
						}
						if (src.draw(2))
							v[i] = t;
						else
							v[i] = std::move(t);
					}
					else
					{
						Base b;
						v[i] = genBase(src, b, 60);
					}
					d[i] = describe(v[i]);
					known[i] = true;
					break;
				}
				case 3: case 4:
					v[i] = v[j];
					d[i] = d[j];
					known[i] = known[j];
					copied = true;
					break;
				case 5: {Texture c(v[j]); v[i] = c; d[i] = d[j]; known[i] = known[j]; copied = true; break;}
				case 6:
					if (i != j)
					{
						v[i] = std::move(v[j]);
						d[i] = d[j];
						known[i] = known[j];
						known[j] = false;
					}
					break;
				case 7: {Texture c(std::move(v[i])); v[i] = std::move(c); break;}
				case 8: std::swap(v[i], v[j]); std::swap(d[i], d[j]); {bool k = known[i]; known[i] = known[j]; known[j] = k;} break;
				default:
				{
					unsigned int how = unsigned(src.draw(4));
					std::uint32_t seed = src.seed32();
					if (!known[i])
						break;
					Texture twin = v[i];
					auto apply = [&, how, seed](Texture& t)
					{
						Rng r(seed);
						switch (how)
						{
							case 0: return t.generateMipmaps(RF(r.below(5)), unsigned(r.below(5)));
							case 1:
							{
								const std::vector<FmtType>& pairs = t.isValid() && t.colorSpace() ==
									ColorSpace::Linear ? allPairs : srgbPairs;
								FmtType p = pairs[r.below(pairs.size())];
								if (shared && r.below(2))
									p = sharedFormat;
								return t.convert(p.f->f, p.t, Texture::Quality::Normal,
									Texture::Alpha(r.below(4)), Texture::ColorMask(r.below(2), true,
									r.below(2), true), 1);
							}
							case 2:
							{
								if (!t.isValid())
									return false;
								Image img(IF::RGBAF, t.width(), t.height(), t.colorSpace());
								fillSimple(img, seed, 0, nullptr);
								return t.setImage(img, Texture::CubeFace::PosX);
							}
							default:
								t.reset();
								return true;
						}
					};
					bool a = apply(v[i]);
					std::string after = describe(v[i]);
					CHECK_P(describe(twin) == d[i], "texture-copy-shares", "operation " << how <<
						" on a texture changed a copy of it");
					bool c = apply(twin);
					CHECK_P(a == c && describe(twin) == after, "texture-copy-differs",
						"a copy of a texture behaves differently in operation " << how);
					if (twin.converted())
					{
						std::vector<std::uint8_t> s1, s2;
						twin.save(s1, Texture::FileType::PVR);
						v[i].save(s2, Texture::FileType::PVR);
						CHECK_P(s1 == s2 && !s1.empty(), "texture-copy-saves",
							"a copy of a texture saves differently");
					}
					modified = modified || after != d[i];
					d[i] = after;
					break;
				}
			}
			for (unsigned int k = 0; k < slots; ++k)
			{
				src.checks(1);
				if (known[k])
				{
					CHECK_P(describe(v[k]) == d[k], "texture-state", "texture " << k <<
						" changed in step " << step << " (" << op << " on " << i << "," << j << ")");
				}
			}
		}
	}
	else
	{
		src.label("custom-mip-images");
		typedef Texture::CustomMipImage CMI;
		ImgOpts o;
		o.maxDim = 6;
		std::vector<std::unique_ptr<Image>> external;
		for (int e = 0; e < 2; ++e)
			external.emplace_back(new Image(genImage(src, o)));
		struct State {int ext; std::string content; Texture::MipReplacement r; bool known;};
		std::vector<std::unique_ptr<CMI>> v;
		std::vector<State> d;
		auto fresh = [&](State& s)
		{
			s.known = true;
			s.r = Texture::MipReplacement(src.draw(2));
			s.ext = int(src.draw(4)) - 2;
			if (s.ext >= 0)
			{
				s.content = describe(*external[s.ext]);
				return std::unique_ptr<CMI>(new CMI(*external[s.ext], s.r));
			}
			Image img = genImage(src, o);
			s.content = describe(img);
			return std::unique_ptr<CMI>(new CMI(std::move(img), s.r));
		};
		for (unsigned int k = 0; k < slots; ++k)
		{
			State s;
			v.push_back(fresh(s));
			d.push_back(s);
		}
		for (unsigned int step = 0; step < steps; ++step)
		{
			unsigned int i = unsigned(src.draw(slots)), j = unsigned(src.draw(slots));
			unsigned int op = unsigned(src.draw(11));
			src.note << " " << op << ":" << i << "," << j;
			switch (op)
			{
				case 0: v[i] = fresh(d[i]); break;
				case 1: case 2: *v[i] = *v[j]; d[i] = d[j]; copied = true; break;
				case 3: v[i].reset(new CMI(CMI(*v[j]))); d[i] = d[j]; copied = true; break;
				case 4:
					if (i != j)
					{
						*v[i] = std::move(*v[j]);
						d[i] = d[j];
						d[j].known = false;
					}
					break;
				case 5: {CMI c(std::move(*v[i])); *v[i] = std::move(c); break;}
				case 6: std::swap(*v[i], *v[j]); std::swap(d[i], d[j]); break;
				case 10:
				{
					// An object that refers to the image of the one it's then assigned from.
					if (!d[i].known)
						break;
					bool move = src.draw(2);
					CMI c(*v[i]->image, Texture::MipReplacement(src.draw(2)));
					if (move)
					{
						CMI from(*v[i]);
						CMI to(*from.image, Texture::MipReplacement(src.draw(2)));
						to = std::move(from);
						c = to;
					}
					else
						c = *v[i];
					CHECK_P(c.image != &v[i]->imageStorage, "custom-storage", "an object that referred "
						"to the image of object " << i << " still does after the assignment");
					v[i].reset(new CMI(Image(), Texture::MipReplacement::Once));
					*v[i] = move ? CMI(c) : c;
					copied = true;
					break;
				}
				case 7:
				{
					// Through containers that grow.
					std::vector<CMI> list;
					for (unsigned int k = 0; k < 5; ++k)
						list.push_back(*v[i]);
					Texture::CustomMipImages map;
					for (unsigned int k = 0; k < 5; ++k)
						map.emplace(Texture::ImageIndex(k), std::move(list[k]));
					Texture::CustomMipImages map2 = map;
					map.clear();
					list.clear();
					*v[i] = map2.at(Texture::ImageIndex(unsigned(src.draw(5))));
					copied = true;
					break;
				}
				default:
					if (d[i].known && d[i].ext < 0 && v[i]->image == &v[i]->imageStorage)
					{
						unsigned int how = unsigned(src.draw(9));
						mutate(v[i]->imageStorage, how, src.seed32());
						std::string after = describe(v[i]->imageStorage);
						modified = modified || after != d[i].content;
						d[i].content = after;
					}
					break;
			}
			for (unsigned int k = 0; k < slots; ++k)
			{
				if (!d[k].known)
					continue;
				src.checks(1);
				const CMI& c = *v[k];
				CHECK_P(c.replacement == d[k].r, "custom-replacement", "replacement of object " << k <<
					" changed in step " << step << " (" << op << ")");
				if (d[k].ext >= 0)
					CHECK_P(c.image == external[d[k].ext].get(), "custom-reference",
						"object " << k << " no longer refers to the image it was given (" << op << ")");
				else
					CHECK_P(c.image == &c.imageStorage, "custom-storage", "object " << k <<
						" doesn't refer to its own image (" << op << ")");
				CHECK_P(describe(*c.image) == d[k].content, "custom-content", "content of object " <<
					k << " changed in step " << step << " (" << op << ")");
			}
		}
	}
	if (copied && modified)
		src.nontrivial();
}

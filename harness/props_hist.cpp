// C26: random API histories with arbitrary arguments.
#include "consistency.h"
#include <map>

namespace
{

typedef Image::ResizeFilter RF;

double wildDouble(Rng& r)
{
	switch (r.below(12))
	{
		case 0: return std::numeric_limits<double>::quiet_NaN();
		case 1: return INFINITY;
		case 2: return -INFINITY;
		case 3: return 1e300*(r.unit()*2 - 1);
		case 4: return (r.unit()*2 - 1)*1e10;
		case 5: return (r.unit()*2 - 1)*70000;
		case 6: return (r.unit()*2 - 1)*300;
		case 7: return 1e-310;
		case 8: return -r.unit();
		default: return r.unit();
	}
}

unsigned int wildIndex(Src& src, unsigned int n)
{
	switch (src.draw(8))
	{
		case 0: return n;
		case 1: return unsigned(src.draw(1ull << 32));
		case 2: return 0xffffffffu - unsigned(src.draw(3));
		case 3: return n ? n - 1 : 0;
		default: return unsigned(src.draw(std::max(n, 1u)));
	}
}

unsigned int wildSize(Src& src)
{
	switch (src.draw(16))
	{
		case 0: return 0;
		case 1: return 0x80000000u + unsigned(src.draw(3));
		case 2: return 0xffffffffu - unsigned(src.draw(3));
		case 3: return 100 + unsigned(src.draw(900));
		default: return 1 + unsigned(src.draw(20));
	}
}

} // namespace

PROPERTY(C26, 150000, 2000000,
	"Each case runs a random history of up to 30 public calls on three images and two textures with "
	"arbitrary arguments (coordinates and indices out of range, zero and huge sizes, NaN, infinite and "
	"huge colours and heights, any format, filter, type, file type and thread count, aliased objects) "
	"under AddressSanitizer and UndefinedBehaviorSanitizer, and after each call compares every object's "
	"reported state with its storage. Non-trivial: at least 8 calls acted on valid objects.")
{
	Image img[3];
	Texture tex[2];
	unsigned int steps = 6 + unsigned(src.draw(25));
	unsigned int acted = 0;
	for (unsigned int step = 0; step < steps; ++step)
	{
		unsigned int a = unsigned(src.draw(3)), b = unsigned(src.draw(3)), k = unsigned(src.draw(2));
		Image& x = img[a];
		Texture& t = tex[k];
		unsigned int choice = unsigned(src.draw(34));
		// Most calls need an image; make one when there is none.
		if (!x.isValid() && choice < 18 && src.draw(4))
			choice = 0;
		if (!t.isValid() && choice >= 22 && src.draw(4))
			choice = 22;
		std::uint32_t seed = src.seed32();
		Rng r(seed);
		std::string op;
		src.note << " | " << choice << ":" << a << "," << b << "," << k << "#" << seed;
		if (choice < 18 ? x.isValid() : choice >= 22 && t.isValid())
			++acted;
		switch (choice)
		{
			case 0: case 1:
			{
				op = "initialize";
				auto f = IF(src.draw(unsigned(IF::Complex) + 1));
				unsigned int w = wildSize(src), h = wildSize(src);
				bool ok = x.initialize(f, w, h, ColorSpace(src.draw(2)));
				src.note << "=" << int(f) << " " << w << "x" << h;
				CHECK_P(ok == x.isValid(), "initialize", "initialize returned " << ok);
				CHECK_P(!ok || (x.width() == w && x.height() == h && x.format() == f), "initialize",
					"a new image isn't as requested");
				CHECK_P(ok || w == 0 || h == 0 || w > 100000 || h > 100000 || f == IF::Invalid,
					"initialize", "a sane image was refused: " << w << "x" << h);
				if (ok)
				{
					// Contents of new images are unspecified for some formats, so give them some.
					for (unsigned int y = 0; y < h; ++y)
						std::memset(x.scanline(y), 0, std::size_t(w)*x.bitsPerPixel()/8);
				}
				break;
			}
			case 2: case 3:
				op = "setPixel";
				for (int n = 0; n < 20; ++n)
				{
					unsigned int px = unsigned(r.below(x.width() + 2)),
						py = unsigned(r.below(x.height() + 2));
					bool ok = x.setPixel(px, py, ColorRGBAd(wildDouble(r), wildDouble(r), wildDouble(r),
						wildDouble(r)), r.below(2));
					CHECK_P(ok == (px < x.width() && py < x.height()), "setPixel-result",
						"setPixel(" << px << "," << py << ") returned " << ok);
				}
				break;
			case 4:
			{
				op = "random-bytes";
				for (unsigned int y = 0; y < x.height(); ++y)
				{
					auto p = static_cast<std::uint8_t*>(x.scanline(y));
					for (std::size_t i = 0; i < std::size_t(x.width())*x.bitsPerPixel()/8; ++i)
						p[i] = std::uint8_t(r.next());
				}
				break;
			}
			case 5: case 6:
			{
				op = "convert";
				Image c = x.convert(IF(src.draw(unsigned(IF::Complex) + 1)), src.draw(2));
				img[b] = std::move(c);
				break;
			}
			case 7:
			{
				op = "resize";
				unsigned int w = wildSize(src), h = wildSize(src);
				auto f = RF(src.draw(5));
				src.note << "=" << w << "x" << h << " " << int(f);
				Image c = x.resize(w, h, f);
				CHECK_P(!c.isValid() || (c.width() == w && c.height() == h), "resize-size",
					"resize gave " << c.width() << "x" << c.height());
				img[b] = std::move(c);
				break;
			}
			case 8: op = "rotate"; img[b] = x.rotate(Image::RotateAngle(src.draw(6))); break;
			case 9:
			{
				op = "flip";
				bool v = x.isValid();
				CHECK_P((src.draw(2) ? x.flipHorizontal() : x.flipVertical()) == v, "flip-result",
					"a flip of an image returned the wrong result");
				break;
			}
			case 10: op = "preMultiply"; x.preMultiplyAlpha(); break;
			case 11: op = "changeColorSpace"; x.changeColorSpace(ColorSpace(src.draw(2))); break;
			case 12: op = "grayscale"; x.grayscale(); break;
			case 13:
				op = "swizzle";
				x.swizzle(Image::Channel(src.draw(5)), Image::Channel(src.draw(5)),
					Image::Channel(src.draw(5)), Image::Channel(src.draw(5)));
				break;
			case 14:
			{
				op = "createNormalMap";
				Image c = x.createNormalMap(Image::NormalOptions(src.draw(8)), wildDouble(r),
					IF(src.draw(unsigned(IF::Complex) + 1)));
				img[b] = std::move(c);
				break;
			}
			case 15:
				op = "adjustImageValueRange";
				Texture::adjustImageValueRange(x, TT(src.draw(6)),
					IF(src.draw(unsigned(IF::Complex) + 1)));
				break;
			case 16:
			{
				op = "save-load";
				static const std::vector<const char*> ext = {"png", "tif", "bmp", "tga", "PNG", "jpg",
					"exr", "hdr", "gif", "xyz", "", "dds"};
				std::vector<std::uint8_t> data(3, 1);
				const char* e = src.pick(ext);
				// Encoders of the system's FreeImage aren't the subject for images with odd numbers.
				bool ok = x.width() <= 1000 && x.save(data, e);
				src.note << "=" << e << (ok ? " ok" : "");
				if (ok)
					img[b].load(data.data(), data.size(), ColorSpace(src.draw(2)));
				break;
			}
			case 17:
				op = "scanline";
				x.scanline(wildIndex(src, x.height()));
				break;
			case 18: op = "copy"; img[b] = x; break;
			case 19: op = "move"; img[b] = std::move(x); if (a != b) x.reset(); break;
			case 20: op = "reset"; x.reset(); break;
			case 21:
				op = "load";
				x.load(seed & 1 ? "" : "/nonexistent/x.png");
				x.load(&seed, sizeof(seed));
				break;
			case 22: case 23:
			{
				op = "texture-initialize";
				Spec s = genSpec(src, 120, -1);
				unsigned int mips = src.draw(3) ? s.mips : wildIndex(src, s.mips);
				if (src.draw(8) == 7)
					s.w = wildSize(src);
				if (src.draw(8) == 7)
					s.h = wildSize(src);
				src.note << "=" << s << " mips " << mips;
				t.initialize(s.dim, s.w, s.h, s.depth, mips, s.cs);
				break;
			}
			case 24: case 25:
			{
				op = "setImage";
				unsigned int mip = wildIndex(src, t.mipLevelCount()),
					d = wildIndex(src, t.depth(mip));
				auto f = Texture::CubeFace(src.draw(6));
				switch (src.draw(4))
				{
					case 0: t.setImage(x, mip, d); break;
					case 1: t.setImage(x, f, mip, d); break;
					case 2:
					{
						// A fitting image.
						Image fit(IF::RGBAF, std::max(t.width(mip), 1u), std::max(t.height(mip), 1u));
						for (unsigned int y = 0; y < fit.height(); ++y)
						{
							auto p = static_cast<float*>(fit.scanline(y));
							for (unsigned int i = 0; i < fit.width()*4; ++i)
								p[i] = float(clampd(wildDouble(r), -1e30, 1e30));
						}
						t.setImage(std::move(fit), f, mip, d);
						break;
					}
					default: t.setImage(Image(x), mip, d); break;
				}
				break;
			}
			case 26:
				op = "fill";
				for (unsigned int m = 0; m < t.mipLevelCount() && t.width() <= 4000; ++m)
				{
					for (unsigned int d = 0; d < t.depth(m); ++d)
					{
						for (unsigned int f = 0; f < t.faceCount(); ++f)
						{
							if (t.width(m)*t.height(m) > 4000)
								continue;
							Image fit(IF::RGBAF, t.width(m), t.height(m), t.colorSpace());
							for (unsigned int y = 0; y < fit.height(); ++y)
							{
								auto p = static_cast<float*>(fit.scanline(y));
								for (unsigned int i = 0; i < fit.width()*4; ++i)
									p[i] = float(wildDouble(r));
							}
							t.setImage(std::move(fit), Texture::CubeFace(f), m, d);
						}
					}
				}
				break;
			case 27: case 28:
			{
				op = "generateMipmaps";
				Texture::CustomMipImages custom;
				unsigned int n = unsigned(src.draw(4));
				for (unsigned int i = 0; i < n; ++i)
				{
					Texture::ImageIndex index(Texture::CubeFace(src.draw(6)), wildIndex(src, 4),
						wildIndex(src, t.depth()));
					auto rep = Texture::MipReplacement(src.draw(2));
					switch (src.draw(3))
					{
						case 0: custom.emplace(index, Texture::CustomMipImage(x, rep)); break;
						case 1: custom.emplace(index, Texture::CustomMipImage(Image(x), rep)); break;
						default:
							// The texture's own images.
							custom.emplace(index, Texture::CustomMipImage(t.getImage(
								Texture::CubeFace(t.faceCount() == 6 ? src.draw(6) : 0),
								unsigned(src.draw(std::max(t.mipLevelCount(), 2u))),
								unsigned(src.draw(std::max(t.depth(), 1u)))), rep));
							break;
					}
				}
				if (t.width() <= 2000 && t.height() <= 2000)
					t.generateMipmaps(RF(src.draw(5)), wildIndex(src, 5), custom);
				break;
			}
			case 29: case 30:
			{
				op = "texture-convert";
				ConvertArgs args = genConvertArgs(src);
				if (src.draw(4) == 3)
					args.threads = wildIndex(src, 10);
				TF f;
				TT ty;
				if (src.draw(3))
				{
					static const std::vector<FmtType> pairs = validPairs();
					const FmtType& p = src.pick(pairs);
					f = p.f->f;
					ty = p.t;
				}
				else
				{
					f = TF(src.draw(unsigned(TF::PVRTC2_RGBA_4BPP) + 1));
					ty = TT(src.draw(6));
				}
				src.note << "=" << int(f) << "/" << int(ty);
				convertWith(t, f, ty, args);
				break;
			}
			case 31:
			{
				op = "texture-save";
				std::vector<std::uint8_t> out;
				t.save(out, Texture::FileType(src.draw(4)));
				std::ostringstream os;
				t.save(os, Texture::FileType(src.draw(4)));
				t.save(static_cast<const char*>(nullptr));
				t.save("/nonexistent-dir/x.dds");
				break;
			}
			case 32:
				op = "texture-query";
				for (int n = 0; n < 6; ++n)
				{
					unsigned int m = wildIndex(src, t.mipLevelCount()), d = wildIndex(src, t.depth());
					auto f = Texture::CubeFace(src.draw(6));
					const Image& i1 = t.getImage(m, d);
					const Image& i2 = t.getImage(f, m, d);
					(void)i1.isValid();
					(void)i2.isValid();
					std::size_t s = t.dataSize(f, m, d);
					CHECK_P((t.data(f, m, d) != nullptr) == (s > 0), "texture-query",
						"data and size disagree");
					CHECK_P((t.data(m, d) != nullptr) == (t.dataSize(m, d) > 0), "texture-query",
						"data and size disagree");
					t.width(m);
					t.height(m);
					t.depth(m);
				}
				break;
			default:
				op = "texture-copy";
				switch (src.draw(4))
				{
					case 0: tex[1 - k] = t; break;
					case 1: tex[1 - k] = std::move(t); t.reset(); break;
					case 2: t.reset(); break;
					default:
					{
						Image c = t.getImage();
						x = c;
						break;
					}
				}
				break;
		}
		src.label("op:" + op);
		for (Image& i : img)
			checkImage(src, i, seed, op);
		for (const Texture& i : tex)
			checkTexture(src, i, op);
	}
	if (acted >= 8)
		src.nontrivial();
}

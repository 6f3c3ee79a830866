// Deterministic histories of public calls: drawn once, run as often as a property needs.
#pragma once
#include "texcommon.h"
#include <cstdio>
#include <fstream>
#include <memory>

// A well-formed image file of any format, made by the encoders of C27.
std::string drawImageFile(Src& src, std::string& ext, std::string& name);

namespace script
{

// Faults are injected into the library's own allocations, not into those made here.
struct Pause
{
	Pause() {++depth();}
	~Pause() {--depth();}
	static int& depth()
	{
		static thread_local int d = 0;
		return d;
	}
};

enum Kind
{
	Init, Convert, Resize, Rotate, Flip, Ops, Normal, SaveLoad, BadLoad, Copy, Range, TexInit, TexSet,
	TexMips, TexConvert, TexSave, TexCopy, TexRefuse, FileRound, Decode, KindCount
};

inline const char* kindName(int k)
{
	static const char* n[] = {"init", "convert", "resize", "rotate", "flip", "ops", "normal-map",
		"save-load", "bad-load", "copy", "value-range", "tex-init", "tex-set", "tex-mips",
		"tex-convert", "tex-save", "tex-copy", "tex-refuse", "file-round", "decode"};
	return n[k];
}

struct Op
{
	int kind;
	unsigned int a, b, k; // objects
	std::uint32_t seed;
	unsigned int p[6];
	std::shared_ptr<std::string> file; // for Decode
	std::string ext, fileName;
};

struct State
{
	Image img[3];
	Texture tex[2];
	std::uint64_t hash = 1;
	void add(std::uint64_t v) {hash = pbt::hash2(hash, v);}
	void add(const void* p, std::size_t n)
	{
		auto b = static_cast<const std::uint8_t*>(p);
		std::uint64_t v = 14695981039346656037ull;
		for (std::size_t i = 0; i < n; ++i)
			v = (v ^ b[i])*1099511628211ull;
		add(v);
	}
	void add(const Image& i)
	{
		add(std::uint64_t(i.format()) << 40 | std::uint64_t(i.colorSpace()) << 38 |
			std::uint64_t(i.width()) << 16 | i.height());
		std::size_t row = std::size_t(i.width())*i.bitsPerPixel()/8;
		for (unsigned int y = 0; y < i.height(); ++y)
			add(i.scanline(y), row);
	}
	void add(const Texture& t)
	{
		add(std::uint64_t(t.format()) << 40 | std::uint64_t(t.type()) << 32 |
			std::uint64_t(t.mipLevelCount()) << 24 | std::uint64_t(t.width()) << 12 | t.height());
		for (unsigned int m = 0; m < t.mipLevelCount(); ++m)
		{
			for (unsigned int d = 0; d < t.depth(m); ++d)
			{
				for (unsigned int f = 0; f < t.faceCount(); ++f)
				{
					auto face = Texture::CubeFace(f);
					add(t.getImage(face, m, d));
					add(t.data(face, m, d), t.dataSize(face, m, d));
				}
			}
		}
	}
};

typedef std::vector<Op> Script;

// texShare: percentage of texture calls. The first calls make something to work on.
inline Script draw(Src& src, unsigned int maxSteps, unsigned int texShare)
{
	Script s;
	unsigned int steps = 3 + unsigned(src.draw(maxSteps - 2));
	for (unsigned int i = 0; i < steps; ++i)
	{
		Op o;
		if (i == 0)
			o.kind = src.chance(texShare) ? TexInit : Init;
		else if (src.chance(texShare))
			o.kind = TexInit + int(src.draw(TexRefuse - TexInit + 1));
		else
		{
			unsigned int k = unsigned(src.draw(TexInit + 2));
			o.kind = k == TexInit ? int(FileRound) : k == TexInit + 1 ? int(Decode) : int(k);
		}
		o.a = unsigned(src.draw(3));
		o.b = unsigned(src.draw(3));
		o.k = unsigned(src.draw(2));
		o.seed = src.seed32();
		for (unsigned int& p : o.p)
			p = unsigned(src.draw(1u << 16));
		if (o.kind == Decode)
			o.file = std::make_shared<std::string>(drawImageFile(src, o.ext, o.fileName));
		s.push_back(o);
	}
	return s;
}

inline void describe(std::ostream& os, const Script& s)
{
	for (const Op& o : s)
	{
		os << " | " << kindName(o.kind) << ":" << o.a << "," << o.b << "," << o.k << "#" << o.seed << "(" <<
			o.p[0] << "," << o.p[1] << "," << o.p[2] << "," << o.p[3] << ")" << o.fileName;
	}
}

inline void fill(Image& img, Rng& r)
{
	Pause pause;
	const FmtInfo& f = fmt(img.format());
	for (unsigned int y = 0; y < img.height(); ++y)
	{
		// Padding bits must not differ between runs.
		std::memset(img.scanline(y), 0, std::size_t(img.width())*img.bitsPerPixel()/8);
		for (unsigned int x = 0; x < img.width(); ++x)
		{
			double v[4];
			for (double& c : v)
				c = f.kind == ::Kind::Raw ? std::floor(r.unit()*100) : r.unit();
			img.setPixel(x, y, ColorRGBAd(v[0], v[1], v[2], v[3]), false);
		}
	}
}

inline void fillTex(Texture& t, Rng& r, bool leaveHole)
{
	Pause pause;
	for (unsigned int m = 0; m < t.mipLevelCount(); ++m)
	{
		for (unsigned int d = 0; d < t.depth(m); ++d)
		{
			for (unsigned int f = 0; f < t.faceCount(); ++f)
			{
				if (leaveHole && r.below(8) == 0)
					continue;
				Image img(IF::RGBAF, t.width(m), t.height(m), t.colorSpace());
				if (!img)
					continue;
				for (unsigned int y = 0; y < img.height(); ++y)
				{
					auto p = static_cast<float*>(img.scanline(y));
					for (unsigned int i = 0; i < img.width()*4; ++i)
						p[i] = float(r.unit());
				}
				t.setImage(std::move(img), Texture::CubeFace(f), m, d);
			}
		}
	}
}

// What a call reported, for callers that need to know.
struct Outcome
{
	bool reports = false; // the call has a way to report failure
	bool ok = false;
};

// Runs one call. dir is a folder for this history's files.
inline Outcome run(const Op& o, State& s, const std::string& dir)
{
	Outcome r;
	Image& x = s.img[o.a];
	Image& y = s.img[o.b];
	Texture& t = s.tex[o.k];
	Rng rng(o.seed);
	auto result = [&](bool ok)
	{
		r.reports = true;
		r.ok = ok;
		s.add(ok);
	};
	switch (o.kind)
	{
		case Init:
			result(x.initialize(IF(1 + o.p[0]%17), 1 + o.p[1]%12, 1 + o.p[2]%12,
				ColorSpace(o.p[3]%2)));
			if (x)
				fill(x, rng);
			s.add(x);
			break;
		case Convert:
		{
			Image c = x.convert(IF(1 + o.p[0]%17), o.p[1]%2 != 0);
			result(c.isValid());
			y = std::move(c);
			s.add(y);
			break;
		}
		case Resize:
		{
			Image c = x.resize(1 + o.p[0]%16, 1 + o.p[1]%16, Image::ResizeFilter(o.p[2]%5));
			result(c.isValid());
			y = std::move(c);
			s.add(y);
			break;
		}
		case Rotate:
		{
			Image c = x.rotate(Image::RotateAngle(o.p[0]%6));
			result(c.isValid());
			y = std::move(c);
			s.add(y);
			break;
		}
		case Flip:
			result(o.p[0]%2 ? x.flipHorizontal() : x.flipVertical());
			s.add(x);
			break;
		case Ops:
			switch (o.p[0]%4)
			{
				case 0: result(x.preMultiplyAlpha()); break;
				case 1: result(x.grayscale()); break;
				case 2: result(x.changeColorSpace(ColorSpace(o.p[1]%2))); break;
				default:
					result(x.swizzle(Image::Channel(o.p[1]%5), Image::Channel(o.p[2]%5),
						Image::Channel(o.p[3]%5), Image::Channel(o.p[4]%5)));
					break;
			}
			s.add(x);
			break;
		case Normal:
		{
			Image c = x.createNormalMap(Image::NormalOptions(o.p[0]%8), 0.5 + o.p[1]%4, IF(1 +
				o.p[2]%17));
			result(c.isValid());
			y = std::move(c);
			s.add(y);
			break;
		}
		case SaveLoad:
		{
			static const char* ext[] = {"png", "bmp", "tga", "ppm", "tif", "pfm", "PNG", "xyz"};
			const char* e = ext[o.p[0]%8];
			std::vector<std::uint8_t> data;
			std::ostringstream os;
			bool ok;
			if (o.p[1]%2)
				ok = x.save(data, e);
			else
			{
				ok = x.save(os, e);
				std::string str = os.str();
				data.assign(str.begin(), str.end());
			}
			s.add(ok);
			if (ok)
			{
				if (o.p[2]%4 == 0 && data.size() > 20)
					data.resize(data.size()/2); // cut short
				bool loaded;
				if (o.p[3]%2)
					loaded = y.load(data.data(), data.size(), ColorSpace(o.p[4]%2));
				else
				{
					std::istringstream is(std::string(data.begin(), data.end()));
					loaded = y.load(is, ColorSpace(o.p[4]%2));
				}
				// What a codec makes of half a file isn't repeatable.
				if (o.p[2]%4 == 0 && data.size() > 20 && loaded)
				{
					y.reset();
					loaded = false;
				}
				result(loaded);
			}
			else
				result(false);
			s.add(y);
			break;
		}
		case BadLoad:
			switch (o.p[0]%4)
			{
				case 0: s.add(x.load((dir + "/none.png").c_str())); break;
				case 1: s.add(x.load(&o.seed, sizeof(o.seed))); break;
				case 2:
				{
					static const char bad[] = "\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR\0\0\0\x01";
					s.add(x.load(bad, sizeof(bad) - 1));
					break;
				}
				default:
				{
					std::istringstream is("BM garbage");
					s.add(x.load(is));
					break;
				}
			}
			s.add(x);
			break;
		case Copy:
			switch (o.p[0]%6)
			{
				case 0: y = x; result(y.isValid()); break;
				case 1: {Image c(x); result(c.isValid()); y = std::move(c); break;}
				case 2: {Image c(std::move(x)); x = std::move(c); break;}
				case 3: if (o.a != o.b) y = std::move(x); break;
				case 4: std::swap(x, y); break;
				default: x.reset(); break;
			}
			s.add(x);
			s.add(y);
			break;
		case Range:
			Texture::adjustImageValueRange(x, TT(o.p[0]%6), IF(o.p[1]%18));
			s.add(x);
			break;
		case TexInit:
		{
			static const TD dims[] = {TD::Dim1D, TD::Dim2D, TD::Dim2D, TD::Dim3D, TD::Cube};
			TD dim = dims[o.p[0]%5];
			unsigned int w = 1 + o.p[1]%9, h = dim == TD::Dim1D ? 1 : dim == TD::Cube ? w : 1 + o.p[2]%9;
			unsigned int depth = dim == TD::Dim3D ? 1 + o.p[3]%5 : o.p[3]%3;
			unsigned int mips = o.p[4]%3 == 0 ? 1 : o.p[4]%3 == 1 ? Texture::allMipLevels : 1 + o.p[5]%4;
			result(t.initialize(dim, w, h, depth, mips, ColorSpace(o.p[5]%2)));
			if (o.p[2]%8)
				fillTex(t, rng, o.p[2]%8 == 1);
			s.add(t);
			break;
		}
		case TexSet:
		{
			unsigned int mip = t.isValid() ? o.p[0]%t.mipLevelCount() : 0,
				d = t.isValid() && t.depth(mip) ? o.p[1]%t.depth(mip) : 0;
			auto face = Texture::CubeFace(o.p[2]%6);
			if (o.p[3]%2)
			{
				Image img;
				{
					Pause pause;
					img.initialize(IF(1 + o.p[4]%17), std::max(t.width(mip), 1u), std::max(t.height(mip),
						1u), ColorSpace(o.p[5]%2));
					fill(img, rng);
				}
				if (o.p[3]%4 == 1)
					result(t.setImage(img, face, mip, d));
				else
					result(t.setImage(std::move(img), face, mip, d));
			}
			else
				result(t.setImage(x, face, mip, d));
			s.add(t);
			break;
		}
		case TexMips:
		{
			// Custom mips made from an image left with the caller refer to it.
			Image kept[2];
			Texture::CustomMipImages custom;
			for (unsigned int i = 0; i < o.p[2]%3; ++i)
			{
				unsigned int mip = 1 + i;
				Image& img = kept[i];
				{
					Pause pause;
					img = Image(IF(1 + (o.p[3] + i)%17), std::max(t.width(mip), 1u), std::max(t.height(mip),
						1u), t.colorSpace());
					fill(img, rng);
				}
				auto rep = Texture::MipReplacement(o.p[4]%2);
				Texture::ImageIndex index(Texture::CubeFace(o.p[5]%6), mip, 0);
				if (o.p[5]%2)
					custom.emplace(index, Texture::CustomMipImage(img, rep));
				else
					custom.emplace(index, Texture::CustomMipImage(std::move(img), rep));
			}
			result(t.generateMipmaps(Image::ResizeFilter(o.p[0]%5), o.p[1]%2 ? Texture::allMipLevels :
				1 + o.p[1]%5, custom));
			s.add(t);
			break;
		}
		case TexConvert:
		{
			static const std::vector<FmtType> pairs = validPairs();
			const FmtType& p = pairs[o.p[0]%pairs.size()];
			result(t.convert(p.f->f, p.t, Texture::Quality(o.p[1]%5), Texture::Alpha(o.p[2]%4),
				Texture::ColorMask(o.p[3]%4 != 0, true, o.p[3]%3 != 0, true), 1 + o.p[4]%3));
			s.add(t);
			break;
		}
		case TexSave:
		{
			auto type = Texture::FileType(1 + o.p[0]%3);
			std::vector<std::uint8_t> data;
			if (o.p[1]%2)
				s.add(unsigned(t.save(data, type)));
			else
			{
				std::ostringstream os;
				s.add(unsigned(t.save(os, type)));
				std::string str = os.str();
				data.assign(str.begin(), str.end());
			}
			s.add(data.data(), data.size());
			break;
		}
		case TexCopy:
			switch (o.p[0]%5)
			{
				case 0: s.tex[1 - o.k] = t; break;
				case 1: {Texture c(t); s.tex[1 - o.k] = std::move(c); break;}
				case 2: s.tex[1 - o.k] = std::move(t); break;
				case 3: t.reset(); break;
				default: x = t.getImage(); s.add(x); break;
			}
			s.add(s.tex[0]);
			s.add(s.tex[1]);
			break;
		case TexRefuse:
			switch (o.p[0]%5)
			{
				case 0: s.add(t.initialize(TD::Cube, 3, 4)); break;
				case 1:
				{
					Image wrong;
					{
						Pause pause;
						wrong.initialize(IF::RGB8, 30, 31);
						fill(wrong, rng);
					}
					s.add(t.setImage(wrong));
					break;
				}
				case 2: s.add(t.convert(TF::E5B9G9R9_UFloat, TT::Int)); break;
				case 3: s.add(unsigned(t.save((dir + "/no/such/folder.ktx").c_str()))); break;
				default: s.add(unsigned(t.save((dir + "/name.unknown").c_str()))); break;
			}
			s.add(t);
			break;
		case Decode:
		{
			const std::string& f = *o.file;
			bool loaded;
			switch (o.p[0]%3)
			{
				case 0: loaded = x.load(f.data(), f.size(), ColorSpace(o.p[1]%2)); break;
				case 1:
				{
					std::istringstream is(f);
					loaded = x.load(is, ColorSpace(o.p[1]%2));
					break;
				}
				default:
				{
					std::string path = dir + "/in." + o.ext;
					std::ofstream(path, std::ios_base::binary).write(f.data(), std::streamsize(f.size()));
					loaded = x.load(path.c_str(), ColorSpace(o.p[1]%2));
					std::remove(path.c_str());
					break;
				}
			}
			result(loaded);
			s.add(x);
			break;
		}
		case FileRound:
		{
			static const char* names[] = {"/x.png", "/x.bmp", "/x.tga", "/x.ppm", "/x.tif"};
			std::string path = dir + names[o.p[0]%5];
			bool ok = x.save(path.c_str());
			s.add(ok);
			if (ok)
				result(y.load(path.c_str(), ColorSpace(o.p[1]%2)));
			std::remove(path.c_str());
			s.add(y);
			static const char* tnames[] = {"/x.dds", "/x.ktx", "/x.pvr"};
			path = dir + tnames[o.p[2]%3];
			auto saved = t.save(path.c_str());
			s.add(unsigned(saved));
			if (saved == Texture::SaveResult::Success)
			{
				std::ifstream in(path, std::ios_base::binary);
				std::ostringstream content;
				content << in.rdbuf();
				s.add(content.str().data(), content.str().size());
			}
			std::remove(path.c_str());
			break;
		}
	}
	return r;
}

// The value of the whole history.
inline std::uint64_t runAll(const Script& script, const std::string& dir,
	std::vector<std::uint64_t>* trace = nullptr)
{
	State s;
	for (const Op& o : script)
	{
		run(o, s, dir);
		if (trace)
			trace->push_back(s.hash);
	}
	for (const Image& i : s.img)
		s.add(i);
	for (const Texture& t : s.tex)
		s.add(t);
	return s.hash;
}

} // namespace script

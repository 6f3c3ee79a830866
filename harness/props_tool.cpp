// C23 the command line tool against the library, C24 its behaviour for any arguments, C25 equivalent
// command lines. The tool's main() runs in this process, with its streams captured.
#include "texcommon.h"
#include "fault.h"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int cuttlefish_tool_entry(int argc, const char** argv);

namespace
{

typedef Image::ResizeFilter RF;
typedef std::vector<std::string> Words;

std::string readFile(const std::string& path)
{
	std::ifstream in(path, std::ios_base::binary);
	std::ostringstream out;
	out << in.rdbuf();
	return out.str();
}

void writeFile(const std::string& path, const std::string& data)
{
	std::ofstream out(path, std::ios_base::binary);
	out.write(data.data(), std::streamsize(data.size()));
}

bool exists(const std::string& path)
{
	struct stat st;
	return lstat(path.c_str(), &st) == 0;
}

// Removes a folder inside of the scratch folder.
void removeTree(const std::string& path)
{
	struct stat st;
	if (path.compare(0, pbt::scratchDir().size(), pbt::scratchDir()) != 0 ||
		lstat(path.c_str(), &st) != 0)
	{
		return;
	}
	if (!S_ISDIR(st.st_mode))
	{
		unlink(path.c_str());
		return;
	}
	if (DIR* d = opendir(path.c_str()))
	{
		while (dirent* e = readdir(d))
		{
			std::string n = e->d_name;
			if (n != "." && n != "..")
				removeTree(path + "/" + n);
		}
		closedir(d);
	}
	rmdir(path.c_str());
}

// A folder for one case. The tool runs with it as its working directory.
struct CaseDir
{
	CaseDir() : path(pbt::scratchDir() + "/case")
	{
		removeTree(path);
		mkdir(path.c_str(), 0777);
		char old[4096];
		m_old = getcwd(old, sizeof(old)) ? old : "/";
		if (chdir(path.c_str()) != 0)
			throw pbt::Discard();
	}
	~CaseDir()
	{
		if (chdir(m_old.c_str()) != 0)
			std::abort();
		removeTree(path);
	}
	std::string path;
private:
	std::string m_old;
};

struct Run {int status; std::string out, err;};

Run runTool(const Words& words)
{
	std::vector<const char*> argv = {"/usr/bin/cuttlefish"};
	for (const std::string& w : words)
		argv.push_back(w.c_str());
	std::ostringstream out, err;
	std::streambuf* o = std::cout.rdbuf(out.rdbuf());
	std::streambuf* e = std::cerr.rdbuf(err.rdbuf());
	int argc = int(argv.size());
	argv.push_back(nullptr);
	int status = cuttlefish_tool_entry(argc, argv.data());
	std::cout.rdbuf(o);
	std::cerr.rdbuf(e);
	std::cout.clear();
	std::cerr.clear();
	return Run{status, out.str(), err.str()};
}

std::string join(const Words& w)
{
	std::string r;
	for (const std::string& i : w)
		r += (r.empty() ? "" : " ") + (i.empty() || i.find(' ') != std::string::npos ? "'" + i + "'" : i);
	return r;
}

//---------------------------------------------------------------------------------------------
// A conversion, apart from how it's written on a command line.

enum class Kind4 {Single, Array, Cube, CubeArray};

struct Custom
{
	unsigned int level, depth, face;
	bool hasDepth, hasFace, hasReplace, once;
	std::string path;
};

struct Job
{
	Kind4 kind = Kind4::Single;
	int dim = 2;
	Words images; // in order: layer by layer, face by face
	std::string width, height; // empty: not resized
	int resizeFilter = -1;
	bool mips = false;
	int levels = -1; // all
	int mipFilter = -1;
	std::vector<Custom> custom;
	bool flipX = false, flipY = false, gray = false, srgb = false, preMultiply = false;
	bool rotate = false;
	int angle = 0; // quarter turns
	bool normal = false;
	int wrap = 0; // bit 0 x, bit 1 y
	bool hasHeight = false;
	double normalHeight = 1;
	std::string swizzle;
	const TexFmt* format = nullptr;
	TT type = TT::UNorm;
	bool hasType = false;
	int alpha = -1;
	int quality = -1;
	unsigned int jobs = 1;
	bool hasJobs = false;
	Texture::FileType file = Texture::FileType::DDS;
	std::string outName;
	bool hasFile = false;
	int log = 0;
	bool createDir = false;
};

const char* filterNames[] = {"box", "linear", "cubic", "catmull-rom", "b-spline"};
const char* faceNames[] = {"+x", "-x", "+y", "-y", "+z", "-z"};
const char* typeNames[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"};
const char* alphaNames[] = {"none", "standard", "pre-multiplied", "encoded"};
const char* qualityNames[] = {"lowest", "low", "normal", "high", "highest"};
const char* fileNames[] = {"", "dds", "ktx", "pvr"};

std::string someCase(Src& src, std::string s)
{
	if (src.draw(4) != 3)
		return s;
	for (char& c : s)
	{
		if (src.draw(2))
			c = char(std::toupper(c));
	}
	return s;
}

TT defaultType(const TexFmt& f)
{
	return f.f == TF::B10G11R11_UFloat || f.f == TF::E5B9G9R9_UFloat ? TT::UFloat : TT::UNorm;
}

// Writes an input image.
std::string makeInput(Src& src, const std::string& stem, unsigned int w, unsigned int h)
{
	struct In {IF f; const char* ext;};
	static const std::vector<In> v = {{IF::RGBA8, "png"}, {IF::RGB8, "png"}, {IF::Gray8, "png"},
		{IF::RGBA16, "png"}, {IF::RGB16, "png"}, {IF::Gray16, "png"}, {IF::RGB5, "bmp"},
		{IF::RGB565, "bmp"}, {IF::RGB8, "tga"}, {IF::RGBF, "tif"}, {IF::RGBAF, "tif"},
		{IF::RGBA8, "tif"}};
	const In& in = src.pick(v);
	ImgOpts o;
	o.formats = {in.f};
	o.hdr = false;
	o.colorSpace = 0;
	Image img = genImage(src, o, w, h);
	std::string path = stem + "." + in.ext;
	CHECK_P(img.save(path.c_str()), "input-save", "saving " << path << " failed");
	return path;
}

std::string sizeWord(Src& src)
{
	static const std::vector<std::string> words = {"nextpo2", "nearestpo2", "width", "width-nextpo2",
		"width-nearestpo2", "height", "height-nextpo2", "height-nearestpo2", "min", "min-nextpo2",
		"min-nearestpo2", "max", "max-nextpo2", "max-nearestpo2"};
	if (src.draw(2))
		return std::to_string(1 + src.draw(24));
	return src.pick(words);
}

std::string squareWord(Src& src)
{
	static const std::vector<std::string> words = {"min", "max", "min-nextpo2", "max-nextpo2",
		"min-nearestpo2", "max-nearestpo2", "width", "height-nextpo2"};
	if (src.draw(2))
		return std::to_string(1 + src.draw(24));
	return src.pick(words);
}

Job makeJob(Src& src)
{
	Job j;
	j.kind = Kind4(src.draw(4));
	if (j.kind == Kind4::Single || j.kind == Kind4::Array)
		j.dim = src.draw(3) ? j.kind == Kind4::Array && src.draw(2) ? 3 : 2 : 1;
	if (j.kind == Kind4::Single && src.draw(40) == 39)
		j.dim = 3;
	bool cube = j.kind == Kind4::Cube || j.kind == Kind4::CubeArray;
	unsigned int count = 1;
	if (j.kind == Kind4::Array)
		count = 1 + unsigned(src.draw(6));
	else if (j.kind == Kind4::Cube)
		count = 6;
	else if (j.kind == Kind4::CubeArray)
		count = 6*(1 + unsigned(src.draw(3)));
	bool many = (j.kind == Kind4::Array || j.kind == Kind4::CubeArray) && src.draw(150) == 149;
	if (many)
	{
		count = cube ? 6*(43 + unsigned(src.draw(30))) : 250 + unsigned(src.draw(120));
		src.label("many-images");
	}
	unsigned int max = many ? 3 : count > 6 ? 8 : 20;
	bool resize = src.draw(2);
	if (resize)
	{
		if (cube)
		{
			// The first image determines the size of all.
			j.width = squareWord(src);
			j.height = j.width;
		}
		else
		{
			j.width = sizeWord(src);
			j.height = j.dim == 1 && src.draw(16) ? "1" : sizeWord(src);
			if (count == 1 && src.draw(40) == 39)
			{
				j.width = std::to_string(1 + src.draw(src.draw(3) ? 700 : 70000));
				if (j.height.find_first_of("mwn") != std::string::npos)
					j.height = "1";
				if (src.draw(2) && j.dim != 1)
					std::swap(j.width, j.height);
			}
		}
		if (src.draw(2))
			j.resizeFilter = int(src.draw(5));
	}
	static const std::vector<std::string> stems = {"img", "with space ", "dots.in.name.", "\xe5\x9c\xb0",
		"UPPER", "x-y", "in#", "+z", "-lead"};
	std::string stem = src.pick(stems);
	unsigned long longest = std::max(std::strtoul(j.width.c_str(), nullptr, 10),
		std::strtoul(j.height.c_str(), nullptr, 10));
	for (unsigned int i = 0; i < count; ++i)
	{
		if (i >= 4 && many)
		{
			j.images.push_back(j.images[src.draw(4)]);
			continue;
		}
		unsigned int w = genDim(src, max), h = cube && !resize ? w : genDim(src, max);
		bool po2 = j.width.find("po2") != std::string::npos || j.height.find("po2") != std::string::npos;
		if (j.kind == Kind4::Single && src.draw(po2 ? 4 : 10) == (po2 ? 3 : 9))
		{
			// Larger, but thin.
			w = 1 + unsigned(src.draw(src.draw(6) == 5 ? 1500 : 300));
			if (src.draw(3) == 2)
				w = (2u << src.draw(11)) + unsigned(src.draw(4)) - 1;
			h = 1 + unsigned(src.draw(3));
			if (src.draw(2))
				std::swap(w, h);
		}
		if (j.dim == 1 && !resize)
			h = src.draw(30) ? 1 : h;
		longest = std::max<unsigned long>(longest, std::max(w, h));
		std::string name = stem + std::to_string(i);
		// Options mustn't look like file names.
		if (name[0] == '-' || name[0] == '+')
			name = "./" + name;
		j.images.push_back(makeInput(src, name, w, h));
		if (src.draw(6) == 5 && i > 0)
			j.images.back() = j.images[src.draw(i)];
	}
	j.flipX = src.draw(4) == 3;
	j.flipY = src.draw(4) == 3;
	j.gray = src.draw(6) == 5;
	j.srgb = src.draw(3) == 2;
	j.preMultiply = src.draw(5) == 4;
	if (src.draw(3) == 2)
	{
		j.rotate = true;
		j.angle = j.dim == 1 ? int(src.draw(6))*2 - 6 : int(src.range(-9, 9));
	}
	if (src.draw(6) == 5)
	{
		j.normal = true;
		j.wrap = int(src.draw(4));
		j.hasHeight = src.draw(2);
		if (j.hasHeight)
		{
			static const std::vector<double> odd = {0.001, 100, 250, 1000.5, -300, 12345, 1e6, 1e-9, -0.0625};
			j.normalHeight = src.draw(4) ? double(src.range(-16, 40))/4 : src.pick(odd);
		}
	}
	if (src.draw(5) == 4)
	{
		for (int c = 0; c < 4; ++c)
			j.swizzle += src.draw(5) ? "rgba"[src.draw(4)] : 'x';
	}
	// Format, type and file type, nearly always ones that go together.
	bool any = src.draw(30) == 29;
	if (any)
	{
		j.format = &src.pick(texFormats());
		j.type = TT(src.draw(6));
		j.hasType = true;
		j.file = Texture::FileType(1 + src.draw(3));
	}
	else
	{
		static const std::vector<FmtType> pairs = validPairs();
		const FmtType& p = src.draw(3) ? src.pick(pairs) : pairs[src.strat(pairs.size())];
		j.format = p.f;
		j.type = p.t;
		j.hasType = p.t != defaultType(*p.f) || src.draw(3) == 2;
		std::vector<int> can = {3};
		if (ddsSupports(*p.f, p.t))
			can.push_back(1);
		if (ktxSupports(*p.f, p.t))
			can.push_back(2);
		j.file = Texture::FileType(src.pick(can));
	}
	if (src.draw(4) == 3)
		j.alpha = int(src.draw(4));
	if (src.draw(4) == 3)
		j.quality = int(src.draw(5));
	j.hasJobs = src.draw(3) == 2;
	if (j.hasJobs)
	{
		static const std::vector<unsigned int> n = {1, 2, 3, 5, 8, 0, 64, Texture::allCores, 1000000, 4294967294u};
		j.jobs = src.pick(n);
		// There is a thread for every 32 pixels, so keep to what the system can start in good time.
		if (j.jobs != Texture::allCores && j.jobs > 64 && longest > 128)
			j.jobs = 64;
	}
	j.log = int(src.draw(3));
	j.hasFile = src.draw(3) == 2;
	static const std::vector<std::string> outs = {"out.", "out put.", "a.b.", "dds.", "\xe5\x9c\xb0."};
	j.outName = src.pick(outs);
	j.outName += j.hasFile ? (src.draw(2) ? "bin" : fileNames[1 + src.draw(3)]) :
		someCase(src, fileNames[int(j.file)]);
	if (src.draw(8) == 7)
	{
		j.createDir = true;
		j.outName = (src.draw(2) ? "new/folder/" : "new dir/") + j.outName;
	}
	j.mips = src.draw(2);
	if (j.mips)
	{
		if (src.draw(2))
			j.levels = int(src.draw(src.draw(5) ? 8 : 16));
		if (src.draw(2))
			j.mipFilter = int(src.draw(5));
		if (src.draw(3) == 2 && j.levels != 0 && j.levels != 1)
		{
			unsigned int top = j.levels < 0 ? 11 : unsigned(std::max(j.levels - 1, 1));
			unsigned int n = 1 + unsigned(src.draw(3));
			for (unsigned int i = 0; i < n; ++i)
			{
				unsigned int level = 1 + unsigned(src.draw(src.draw(4) ? std::min(top, 3u) : top));
				unsigned int layers = cube ? count/6 : count;
				unsigned int face = cube ? unsigned(src.draw(6)) : 0;
				auto add = [&](unsigned int depth)
				{
					for (const Custom& c : j.custom)
					{
						if (c.level == level && c.depth == depth && c.face == face)
							return;
					}
					Custom c;
					c.level = level;
					c.depth = depth;
					c.face = face;
					c.hasDepth = depth > 0 || src.draw(2);
					c.hasFace = face > 0 || src.draw(2);
					c.once = src.draw(2);
					c.hasReplace = c.once || src.draw(2);
					c.path = src.draw(3) ? makeInput(src, "custom" + std::to_string(j.custom.size()),
						genDim(src, 16), j.dim == 1 ? 1 : genDim(src, 16)) : j.images[src.draw(count)];
					j.custom.push_back(c);
				};
				if (j.dim == 3)
				{
					unsigned int slices = std::max(count >> level, 1u);
					for (unsigned int d = 0; d < slices; ++d)
						add(d);
				}
				else
					add(unsigned(src.draw(layers)));
			}
		}
	}
	return j;
}

//---------------------------------------------------------------------------------------------
// Ways to write a job on a command line

std::string number(double v)
{
	std::ostringstream os;
	os << v;
	return os.str();
}

// How to write the equivalent forms: 0 the plainest one, otherwise any.
Words writeJob(Src& src, const Job& j, bool vary, const std::string& tag)
{
	std::vector<Words> groups;
	auto pick = [&](const char* s, const char* l) {return std::string(vary && src.draw(2) ? l : s);};
	auto word = [&](const std::string& s) {return vary ? someCase(src, s) : s;};
	auto flip = [&] {return vary && src.draw(2);};
	static const char* kinds[] = {"image", "array", "cube", "cube-array"};
	// Other names of the same file, up to long ones.
	auto spell = [&](const std::string& path)
	{
		if (!vary || path.empty() || path[0] == '/' || src.draw(5) != 4)
			return path;
		std::string r;
		for (unsigned int n = src.draw(6) == 5 ? 100 + unsigned(src.draw(900)) : 1 + unsigned(src.draw(3)); n; --n)
			r += "./";
		return r + path;
	};

	bool list = flip();
	bool keepOrder = false;
	if (list)
	{
		std::string text, eol = src.draw(3) ? "\n" : "\r\n";
		for (std::size_t i = 0; i < j.images.size(); ++i)
		{
			text += spell(j.images[i]);
			if (i + 1 < j.images.size() || src.draw(2))
				text += eol;
			if (src.draw(6) == 5 && text.back() == '\n')
				text += eol; // empty lines don't count
		}
		std::string file = "list" + tag + ".txt";
		writeFile(file, text);
		groups.push_back({pick("-I", "--input-list"), word(kinds[int(j.kind)]), file});
	}
	else
	{
		switch (j.kind)
		{
			case Kind4::Single: groups.push_back({pick("-i", "--input"), spell(j.images[0])}); break;
			case Kind4::Array:
			{
				bool indexed = !flip();
				keepOrder = !indexed;
				for (std::size_t i = 0; i < j.images.size(); ++i)
				{
					Words w = {pick("-a", "--array")};
					if (indexed)
						w.push_back(std::to_string(i));
					w.push_back(spell(j.images[i]));
					groups.push_back(w);
				}
				break;
			}
			case Kind4::Cube:
				for (std::size_t i = 0; i < j.images.size(); ++i)
					groups.push_back({pick("-c", "--cube"), word(faceNames[i]), spell(j.images[i])});
				break;
			case Kind4::CubeArray:
				for (std::size_t i = 0; i < j.images.size(); ++i)
				{
					groups.push_back({pick("-C", "--cube-array"), std::to_string(i/6),
						word(faceNames[i%6]), spell(j.images[i])});
				}
				break;
		}
	}
	const std::size_t inputs = groups.size();

	if (!j.width.empty())
	{
		Words w = {pick("-r", "--resize"), word(j.width), word(j.height)};
		if (j.resizeFilter >= 0)
			w.push_back(word(filterNames[j.resizeFilter]));
		else if (flip())
			w.push_back(word("catmull-rom"));
		groups.push_back(w);
	}
	else if (flip() && src.draw(3) == 2)
		groups.push_back({pick("-r", "--resize"), "width", "height"});
	if (j.mips)
	{
		Words w = {pick("-m", "--mipmap")};
		if (j.levels >= 0)
			w.push_back(std::to_string(j.levels));
		if (j.mipFilter >= 0)
			w.push_back(word(filterNames[j.mipFilter]));
		else if (flip())
			w.push_back(word("Catmull-Rom"));
		groups.push_back(w);
	}
	else if (flip() && src.draw(2))
		groups.push_back({pick("-m", "--mipmap"), "1"});
	std::string mipList;
	for (const Custom& c : j.custom)
	{
		Words w = {std::to_string(c.level)};
		if (c.hasDepth || flip())
			w.push_back(std::to_string(c.depth));
		if (c.hasFace || flip())
			w.push_back(word(faceNames[c.face]));
		if (c.hasReplace || flip())
			w.push_back(word(c.once ? "once" : "continue"));
		w.push_back(spell(c.path));
		if (flip())
		{
			for (std::size_t i = 0; i < w.size(); ++i)
			{
				if (i)
					mipList += src.draw(3) ? " " : src.draw(2) ? "\t" : "  ";
				mipList += w[i];
			}
			mipList += src.draw(3) ? "\n" : "\r\n";
			if (src.draw(6) == 5)
				mipList += "\n";
		}
		else
		{
			w.insert(w.begin(), pick("-M", "--custom-mip"));
			groups.push_back(w);
		}
	}
	if (!mipList.empty())
	{
		if (src.draw(2))
		{
			while (mipList.back() == '\n' || mipList.back() == '\r')
				mipList.pop_back();
		}
		std::string file = "mips" + tag + ".txt";
		writeFile(file, mipList);
		groups.push_back({"--custom-mip-list", file});
	}
	if (j.flipX)
		groups.push_back({"--flipx"});
	if (j.flipY)
		groups.push_back({"--flipy"});
	if (j.rotate)
	{
		int a = j.angle*90;
		if (flip())
			a += 360*int(src.range(-3, 3));
		groups.push_back({"--rotate", std::to_string(a)});
	}
	else if (flip() && src.draw(3) == 2)
		groups.push_back({"--rotate", src.draw(2) ? "0" : "-360"});
	if (j.normal)
	{
		Words w = {pick("-n", "--normalmap")};
		static const char* wraps[] = {"", "wrapx", "wrapy", "wrap"};
		if (j.wrap)
			w.push_back(word(wraps[j.wrap]));
		if (j.hasHeight)
			w.push_back(number(j.normalHeight));
		else if (flip())
			w.push_back(src.draw(2) ? "1.0" : "1");
		groups.push_back(w);
	}
	if (j.gray)
		groups.push_back({pick("-g", "--grayscale")});
	if (!j.swizzle.empty())
		groups.push_back({pick("-s", "--swizzle"), word(j.swizzle)});
	else if (flip() && src.draw(3) == 2)
		groups.push_back({pick("-s", "--swizzle"), "rgba"});
	if (j.srgb)
		groups.push_back({"--srgb"});
	if (j.preMultiply)
		groups.push_back({"--pre-multiply"});
	if (j.dim != 2 || flip())
		groups.push_back({pick("-d", "--dimension"), std::to_string(j.dim)});
	groups.push_back({pick("-f", "--format"), word(j.format->name)});
	if (j.hasType || (flip() && j.type == defaultType(*j.format)))
		groups.push_back({pick("-t", "--type"), word(typeNames[int(j.type)])});
	if (j.alpha >= 0)
		groups.push_back({"--alpha", word(alphaNames[j.alpha])});
	if (j.quality >= 0)
		groups.push_back({pick("-Q", "--quality"), word(qualityNames[j.quality])});
	else if (flip())
		groups.push_back({pick("-Q", "--quality"), word("normal")});
	if (vary ? src.draw(2) : j.hasJobs)
	{
		static const std::vector<unsigned int> n = {1, 2, 3, 7, 0, 33, Texture::allCores};
		unsigned int k = vary ? src.pick(n) : j.jobs;
		Words w = {pick("-j", "--jobs")};
		if (k != Texture::allCores)
			w.push_back(std::to_string(k));
		groups.push_back(w);
	}
	groups.push_back({pick("-o", "--output"), j.outName});
	if (j.hasFile || flip())
		groups.push_back({"--file-format", word(fileNames[int(j.file)])});
	switch (vary ? int(src.draw(3)) : j.log)
	{
		case 1: groups.push_back({pick("-q", "--quiet")}); break;
		case 2: groups.push_back({pick("-v", "--verbose")}); break;
	}
	if (j.createDir || flip())
		groups.push_back({"--create-dir"});

	if (vary)
	{
		// Any order, except that images without an index keep theirs.
		std::vector<std::size_t> order(groups.size());
		for (std::size_t i = 0; i < order.size(); ++i)
			order[i] = i;
		Rng rng(src.seed32());
		for (std::size_t i = order.size(); i > 1; --i)
			std::swap(order[i - 1], order[rng.below(i)]);
		if (keepOrder)
		{
			std::vector<std::size_t> at;
			for (std::size_t i = 0; i < order.size(); ++i)
			{
				if (order[i] < inputs)
					at.push_back(i);
			}
			for (std::size_t k = 0; k < at.size(); ++k)
				order[at[k]] = k;
		}
		std::vector<Words> g;
		for (std::size_t i : order)
			g.push_back(groups[i]);
		groups.swap(g);
	}
	Words r;
	for (const Words& g : groups)
		r.insert(r.end(), g.begin(), g.end());
	return r;
}

//---------------------------------------------------------------------------------------------
// What the documentation says the job does, with library calls.

unsigned int refNextPO2(unsigned int v)
{
	unsigned int p = 1;
	while (p < v)
		p *= 2;
	return p;
}

unsigned int refNearestPO2(unsigned int v)
{
	unsigned int next = refNextPO2(v), prev = next/2;
	// Ties go to the smaller one.
	return prev == 0 || next - v < v - prev ? next : prev;
}

unsigned int refSize(const std::string& word, unsigned int own, unsigned int w, unsigned int h)
{
	if (word.empty())
		return own;
	if (std::isdigit(static_cast<unsigned char>(word[0])))
		return unsigned(std::stoul(word));
	std::string base = word, po2;
	std::size_t dash = word.find('-');
	if (dash != std::string::npos)
	{
		base = word.substr(0, dash);
		po2 = word.substr(dash + 1);
	}
	else if (word == "nextpo2" || word == "nearestpo2")
	{
		base = "";
		po2 = word;
	}
	unsigned int v = base == "width" ? w : base == "height" ? h : base == "min" ? std::min(w, h) :
		base == "max" ? std::max(w, h) : own;
	return po2 == "nextpo2" ? refNextPO2(v) : po2 == "nearestpo2" ? refNearestPO2(v) : v;
}

RF filterOf(int f) {return f < 0 ? RF::CatmullRom : RF(f);}

struct Expected
{
	int status;
	Texture::SaveResult save = Texture::SaveResult::Invalid;
	std::vector<std::uint8_t> data;
	unsigned int w = 0, h = 0, mips = 0;
};

Image::Channel channelOf(char c)
{
	switch (c)
	{
		case 'r': return Image::Channel::Red;
		case 'g': return Image::Channel::Green;
		case 'b': return Image::Channel::Blue;
		case 'a': return Image::Channel::Alpha;
		default: return Image::Channel::None;
	}
}

Expected reference(const Job& j)
{
	Expected r;
	r.status = 1;
	if (!refValid(*j.format, j.type) || (j.file == Texture::FileType::DDS && !ddsSupports(*j.format,
		j.type)) || (j.file == Texture::FileType::KTX && !ktxSupports(*j.format, j.type)))
	{
		return r;
	}
	bool cube = j.kind == Kind4::Cube || j.kind == Kind4::CubeArray;
	auto imageSpace = j.srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	bool native = j.format->srgb && j.type == TT::UNorm;
	auto space = j.srgb && native ? ColorSpace::sRGB : ColorSpace::Linear;
	bool sgn = j.type == TT::SNorm || j.type == TT::Int || j.type == TT::Float;
	bool sized = false;
	unsigned int w = 0, h = 0;

	auto process = [&](Image& img, const std::string& path, unsigned int level)
	{
		if (!img.load(path.c_str(), imageSpace))
			return false;
		if (!sized)
		{
			w = refSize(j.width, img.width(), img.width(), img.height());
			h = refSize(j.height, img.height(), img.width(), img.height());
			sized = true;
		}
		IF orig = img.format();
		img = img.convert(IF::RGBAF);
		img.changeColorSpace(space);
		unsigned int lw = std::max(w >> level, 1u), lh = std::max(h >> level, 1u);
		// Normal maps are made at full size, so that heights mean the same on every level.
		img = j.normal ? img.resize(w, h, filterOf(j.resizeFilter)) : img.resize(lw, lh,
			filterOf(j.resizeFilter));
		int turns = j.rotate ? ((j.angle%4) + 4)%4 : 0;
		if (turns)
			img = img.rotate(turns == 1 ? Image::RotateAngle::CW90 : turns == 2 ?
				Image::RotateAngle::CW180 : Image::RotateAngle::CW270);
		if (j.gray)
			img.grayscale();
		if (j.normal)
		{
			auto o = Image::NormalOptions(0);
			if (j.wrap & 1)
				o |= Image::NormalOptions::WrapX;
			if (j.wrap & 2)
				o |= Image::NormalOptions::WrapY;
			if (sgn)
				o |= Image::NormalOptions::KeepSign;
			img = img.createNormalMap(o, j.normalHeight);
			if (level)
				img = img.resize(std::max(img.width() >> level, 1u), std::max(img.height() >> level, 1u),
					filterOf(j.resizeFilter));
			orig = img.format();
		}
		if (j.flipX)
			img.flipHorizontal();
		if (j.flipY)
			img.flipVertical();
		if (!j.swizzle.empty())
			img.swizzle(channelOf(j.swizzle[0]), channelOf(j.swizzle[1]), channelOf(j.swizzle[2]),
				channelOf(j.swizzle[3]));
		if (j.preMultiply)
			img.preMultiplyAlpha();
		Texture::adjustImageValueRange(img, j.type, orig);
		return true;
	};

	r.status = 2;
	std::vector<Image> images(j.images.size());
	for (std::size_t i = 0; i < images.size(); ++i)
	{
		if (!process(images[i], j.images[i], 0))
			return r;
	}
	unsigned int count = unsigned(images.size());
	unsigned int depth = j.kind == Kind4::Array ? count : j.kind == Kind4::CubeArray ? count/6 : 0;
	TD dim = cube ? TD::Cube : j.dim == 1 ? TD::Dim1D : j.dim == 3 ? TD::Dim3D : TD::Dim2D;
	unsigned int mips = j.mips ? j.levels < 0 ? Texture::allMipLevels : unsigned(j.levels) : 1;
	if (mips <= 1 && !j.custom.empty())
	{
		r.status = 1;
		return r;
	}
	Texture::CustomMipImages custom;
	for (const Custom& c : j.custom)
	{
		if (c.level >= std::min(mips, refMaxMips(dim, w, h, count)))
			return r;
		Image img;
		if (!process(img, c.path, c.level))
			return r;
		custom.emplace(Texture::ImageIndex(Texture::CubeFace(c.face), c.level, c.depth),
			Texture::CustomMipImage(std::move(img), c.once ? Texture::MipReplacement::Once :
			Texture::MipReplacement::Continue));
	}
	r.status = 3;
	Texture t;
	if (!t.initialize(dim, images[0].width(), images[0].height(), depth, 1, space))
		return r;
	for (unsigned int i = 0; i < count; ++i)
	{
		bool ok = cube ? t.setImage(images[i], Texture::CubeFace(i%6), 0, i/6) :
			t.setImage(images[i], 0, i);
		if (!ok)
			return r;
	}
	if (mips > 1 && !t.generateMipmaps(filterOf(j.mipFilter), mips, custom))
		return r;
	Texture::ColorMask mask;
	bool alphaMask = true;
	if (!j.swizzle.empty())
	{
		mask = Texture::ColorMask(j.swizzle[0] != 'x', j.swizzle[1] != 'x', j.swizzle[2] != 'x',
			j.swizzle[3] != 'x');
		alphaMask = j.swizzle[3] != 'x';
	}
	auto alpha = j.alpha >= 0 ? Texture::Alpha(j.alpha) : !alphaMask ? Texture::Alpha::None :
		j.preMultiply ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard;
	auto quality = j.quality >= 0 ? Texture::Quality(j.quality) : Texture::Quality::Normal;
	if (!t.convert(j.format->f, j.type, quality, alpha, mask, 1))
		return r;
	r.w = t.width();
	r.h = t.height();
	r.mips = t.mipLevelCount();
	if (t.save(r.data, j.file) != Texture::SaveResult::Success)
		return r;
	r.status = 0;
	return r;
}

std::string describeDiff(const std::string& a, const std::string& b)
{
	std::size_t n = std::min(a.size(), b.size());
	std::size_t k = std::mismatch(a.begin(), a.begin() + long(n), b.begin()).first - a.begin();
	std::ostringstream os;
	os << a.size() << " and " << b.size() << " bytes, first difference at " << k;
	return os.str();
}

} // namespace

PROPERTY(C23, 22500, 360000,
	"Each case makes input image files (several formats and codecs) and a random conversion: input "
	"kind, dimension, resize words and filter, mip levels and filter, custom mips for levels, layers "
	"and faces, rotation, flips, grayscale, normal map, swizzle, sRGB, pre-multiplication, format, "
	"type, alpha, quality, threads and file type. It runs the tool on one way of writing it and "
	"compares exit status and output file with the documented stages done through the library. "
	"Non-trivial: the conversion succeeds and at least two optional stages take part.")
{
	CaseDir dir;
	Job j = makeJob(src);
	Words words = writeJob(src, j, true, "");
	src.note << " | " << join(words);
	Expected want = reference(j);
	Run r = runTool(words);
	bool there = exists(j.outName);
	std::string got = readFile(j.outName);
	src.checks(2);
	CHECK_P((r.status == 0) == (want.status == 0), "tool-status", "the tool exited with " << r.status <<
		", expected " << want.status << ": " << r.err.substr(0, 300));
	if (want.status != 0)
	{
		src.label("refused:" + std::to_string(want.status));
		CHECK_P(r.status == want.status, "tool-status-code", "the tool exited with " << r.status <<
			", expected " << want.status << ": " << r.err.substr(0, 300));
		CHECK_P(!there, "tool-output-on-failure", "the tool failed but left an output file");
		CHECK_P(!r.err.empty(), "tool-silent-failure", "the tool failed without saying why");
		return;
	}
	std::string expected(want.data.begin(), want.data.end());
	CHECK_P(got == expected, "tool-output", "the output of the tool differs from the library: " <<
		describeDiff(got, expected) << " (" << want.w << "x" << want.h << ", " << want.mips <<
		" mip levels)");
	int stages = (!j.width.empty()) + j.mips + (!j.custom.empty()) + j.flipX + j.flipY + j.gray + j.srgb +
		j.preMultiply + j.rotate + j.normal + (!j.swizzle.empty()) + (j.alpha >= 0);
	if (stages >= 2)
		src.nontrivial();
	static const char* kinds[] = {"single", "array", "cube", "cube-array"};
	src.label(kinds[int(j.kind)]);
	if (!j.custom.empty())
		src.label("custom-mips");
}

PROPERTY(C25, 15000, 200000,
	"Each case makes a random conversion as in C23 and runs the tool on its plainest command line and "
	"on two equivalent ones: options in another order, long and short names, other letter case, list "
	"files with either line ending and empty lines, indices or none, default values spelled out or "
	"omitted, full turns added to the rotation, other thread counts and verbosity. Exit status and "
	"output must be identical. Non-trivial: the conversion succeeds.")
{
	CaseDir dir;
	Job j = makeJob(src);
	if (j.kind == Kind4::Array && src.draw(2))
		src.label("array");
	Words plain = writeJob(src, j, false, "0");
	Run base = runTool(plain);
	std::string baseOut = readFile(j.outName);
	bool baseThere = exists(j.outName);
	src.note << " | " << join(plain);
	std::remove(j.outName.c_str());
	if (j.createDir)
		removeTree(dir.path + "/" + j.outName.substr(0, j.outName.find('/')));
	for (int i = 0; i < 2; ++i)
	{
		Words other = writeJob(src, j, true, std::to_string(i + 1));
		Run r = runTool(other);
		std::string out = readFile(j.outName);
		bool there = exists(j.outName);
		std::remove(j.outName.c_str());
		if (j.createDir)
			removeTree(dir.path + "/" + j.outName.substr(0, j.outName.find('/')));
		src.checks(2);
		CHECK_P(r.status == base.status, "equivalent-status", "exit status " << base.status <<
			" but " << r.status << " with: " << join(other) << ": " << r.err.substr(0, 300));
		CHECK_P(there == baseThere && out == baseOut, "equivalent-output", "the output differs (" <<
			describeDiff(baseOut, out) << ") with: " << join(other));
	}
	if (base.status == 0)
		src.nontrivial();
}

//---------------------------------------------------------------------------------------------
// C24

namespace
{

// Checks that a file is complete, from its header alone.
bool completeFile(const std::string& f)
{
	auto u32 = [&](std::size_t at)
	{
		std::uint32_t v = 0;
		if (at + 4 <= f.size())
			std::memcpy(&v, f.data() + at, 4);
		return v;
	};
	if (f.size() > 148 && f.compare(0, 4, "DDS ") == 0)
		return u32(4) == 124 && u32(12) > 0 && u32(16) > 0 && u32(28) > 0;
	if (f.size() > 68 && f.compare(1, 6, "KTX 11") == 0)
	{
		// Walk the levels.
		std::size_t at = 64 + u32(60);
		std::uint32_t levels = u32(56), faces = u32(52), array = u32(48);
		for (std::uint32_t i = 0; i < levels; ++i)
		{
			if (at + 4 > f.size())
				return false;
			std::size_t n = u32(at);
			at += 4 + n*(faces == 6 && array == 0 ? 6 : 1);
		}
		return at == f.size();
	}
	if (f.size() > 52 && f.compare(0, 3, "PVR") == 0)
		return u32(24) > 0 && u32(28) > 0 && u32(44) > 0;
	return false;
}

std::string kindsWord(Src& src)
{
	static const std::vector<std::string> v = {"image", "array", "cube", "cube-array"};
	return src.pick(v);
}

// Makes a valid command line invalid in one way. Returns false when it doesn't apply. The words are
// in their plainest form.
bool spoil(Src& src, const Job& j, Words& w, std::string& name, int& status)
{
	auto find = [&](const std::string& s)
	{
		for (std::size_t i = 0; i < w.size(); ++i)
		{
			if (w[i] == s)
				return i;
		}
		return w.size();
	};
	auto erase = [&](std::size_t at, std::size_t n) {w.erase(w.begin() + long(at), w.begin() +
		long(at + n));};
	auto append = [&](const Words& more) {w.insert(w.end(), more.begin(), more.end());};
	static const std::vector<std::string> junk = {"", "bogus", "-", "--", "1x", "0x10", "rgbaa", "=", "9z"};
	status = 1;
	switch (src.draw(35))
	{
		case 0:
			name = "no output";
			erase(find("-o"), 2);
			return true;
		case 1:
			name = "no format";
			erase(find("-f"), 2);
			return true;
		case 2:
			name = "no input";
			w.clear();
			append({"-f", j.format->name, "-o", j.outName});
			return true;
		case 3:
		{
			name = "unknown option";
			static const std::vector<std::string> o = {"--bogus", "-Z", "stray", "", "--Output", "-ii",
				"--flipX", "--resize=4", "-"};
			std::string opt = src.pick(o);
			// At the end, so that it's nobody's argument; the option before has to be one without
			// optional arguments.
			append({"--flipx", opt});
			return true;
		}
		case 4:
			name = "unknown format";
			w[find("-f") + 1] = src.pick(junk);
			return true;
		case 5:
			name = "unknown type";
			append({"-t", src.pick(junk)});
			return true;
		case 6:
			name = "unknown alpha";
			append({"--alpha", src.pick(junk)});
			return true;
		case 7:
			name = "unknown quality";
			append({"-Q", src.pick(junk)});
			return true;
		case 8:
			name = "unknown file format";
			append({"--file-format", src.pick(junk)});
			return true;
		case 9:
		{
			name = "unknown dimension";
			static const std::vector<std::string> d = {"0", "4", "-1", "2d", "", "two", "1.0"};
			append({"-d", src.pick(d)});
			return true;
		}
		case 10:
		{
			name = "bad rotation";
			static const std::vector<std::string> d = {"45", "1", "-91", "", "ninety", "90x", "90.5"};
			std::string a = src.pick(d);
			append({"--rotate", a});
			return a != "";
		}
		case 11:
		{
			name = "bad swizzle";
			static const std::vector<std::string> d = {"", "rgb", "rgbaa", "rgbq", "qgba", "rxyz", "r", "1111",
				"rg a"};
			append({"-s", src.pick(d)});
			return true;
		}
		case 12:
		{
			name = "bad size";
			static const std::vector<std::string> d = {"0", "-1", "-5", "wide", "4x", "2147483648",
				"4294967300", "99999999999999999999", "-99999999999999999999", "1.5", "nextpo3", "-3"};
			Words r = {"-r", "8", "8"};
			r[1 + src.draw(2)] = src.pick(d);
			append(r);
			return true;
		}
		case 13:
		{
			name = "second output";
			append({"-o", "second.dds"});
			return true;
		}
		case 14:
			name = "mixed inputs";
			switch (src.draw(4))
			{
				case 0: append({"-i", j.images[0]}); return true;
				case 1:
					if (j.kind == Kind4::Array)
						return false;
					append({"-a", j.images[0]});
					return true;
				case 2:
					if (j.kind == Kind4::Cube)
						return false;
					append({"-c", "+x", j.images[0]});
					return true;
				default:
					if (j.kind == Kind4::CubeArray)
						return false;
					append({"-C", "0", "+x", j.images[0]});
					return true;
			}
		case 15:
			name = "list and inputs";
			writeFile("l.txt", j.images[0] + "\n");
			append({"-I", "image", "l.txt"});
			return true;
		case 16:
		{
			name = "missing arguments";
			static const std::vector<std::string> o = {"-i", "-a", "-I", "-r", "-M", "--rotate", "-s", "-d",
				"-f", "-t", "--alpha", "-Q", "-o", "--file-format", "--custom-mip-list", "-c", "-C"};
			if (src.draw(3) == 2)
			{
				// One more image of the kind there already is, but its name is missing.
				switch (j.kind)
				{
					case Kind4::Array: append({"-a"}); break;
					case Kind4::Cube: append({"-c", faceNames[src.draw(6)]}); break;
					case Kind4::CubeArray:
						append({"-C", std::to_string(src.draw(8)), faceNames[src.draw(6)]});
						break;
					default: append({"-M", std::to_string(src.draw(3))}); break;
				}
				return true;
			}
			if (src.draw(2))
			{
				append({src.pick(o)});
				return true;
			}
			// One of the options goes to the end, where it ends too early.
			static const std::map<std::string, std::size_t> sizes = {{"-i", 1}, {"--input", 1}, {"-I", 2},
				{"--input-list", 2}, {"-r", 2}, {"--resize", 2}, {"-c", 2}, {"--cube", 2}, {"-C", 3},
				{"--cube-array", 3}, {"-f", 1}, {"--format", 1}, {"-o", 1}, {"--output", 1}, {"-t", 1},
				{"--type", 1}, {"-s", 1}, {"--swizzle", 1}, {"-d", 1}, {"--dimension", 1},
				{"-Q", 1}, {"--quality", 1}, {"--alpha", 1}, {"--file-format", 1},
				{"--rotate", 1}, {"--custom-mip-list", 1}};
			std::vector<std::size_t> at;
			for (std::size_t i = 0; i < w.size(); ++i)
			{
				if (sizes.count(w[i]))
					at.push_back(i);
			}
			if (at.empty())
				return false;
			std::size_t k = src.pick(at), n = sizes.at(w[k]);
			if (k + n >= w.size())
				return false;
			Words last(w.begin() + long(k), w.begin() + long(k + 1 + src.draw(n)));
			// All of the words up to the next option.
			std::size_t end = k + n + 1;
			if (last[0] == "-r" || last[0] == "--resize")
			{
				while (end < w.size() && w[end][0] != '-')
					++end;
			}
			w.erase(w.begin() + long(k), w.begin() + long(end));
			w.insert(w.end(), last.begin(), last.end());
			status = 1;
			return true;
		}
		case 17:
		{
			name = "missing image";
			std::size_t k = std::size_t(std::find(w.begin(), w.end(), j.images[0]) - w.begin());
			w[k] = src.draw(2) ? "missing.png" : ".";
			status = 2;
			return true;
		}
		case 18:
		{
			name = "broken image";
			std::size_t k = std::size_t(std::find(w.begin(), w.end(), j.images[0]) - w.begin());
			// FreeImage takes some codecs' files that lack all of the pixels, but not a part of PNG's header.
			bool png = j.images[0].compare(j.images[0].size() - 4, 4, ".png") == 0;
			std::string data = src.draw(2) || !png ? std::string(src.draw(100), 'b') :
				readFile(j.images[0]).substr(0, src.draw(20));
			writeFile("broken.png", data);
			w[k] = "broken.png";
			status = 2;
			return true;
		}
		case 19:
			name = "repeated image";
			if (j.kind == Kind4::Single)
				return false;
			if (j.kind == Kind4::Array)
				append({"-a", std::to_string(src.draw(j.images.size())), j.images[0]});
			else if (j.kind == Kind4::Cube)
				append({"-c", faceNames[src.draw(6)], j.images[0]});
			else
				append({"-C", std::to_string(src.draw(j.images.size()/6)), faceNames[src.draw(6)],
					j.images[0]});
			return true;
		case 20:
		{
			// An index far away, so that the ones before it are missing.
			name = "gap in the images";
			static const std::vector<std::string> n = {"50", "1000000", "4294967295", "4294967296",
				"18446744073709551615", "-1", "99999999999999999999"};
			std::string k = src.pick(n);
			if (j.kind == Kind4::Array)
			{
				// Values that aren't an index are taken as the file name, which leaves a stray word.
				append({"-a", k, j.images[0]});
			}
			else if (j.kind == Kind4::CubeArray)
				append({"-C", k, "+x", j.images[0]});
			else
				return false;
			return true;
		}
		case 21:
			name = "unknown face";
			if (j.kind == Kind4::Cube)
				append({"-c", src.draw(2) ? "+w" : "x", j.images[0]});
			else if (j.kind == Kind4::CubeArray)
				append({"-C", "9", src.draw(2) ? "+w" : "", j.images[0]});
			else
				return false;
			return true;
		case 22:
		{
			name = "missing face";
			std::size_t k = find(j.kind == Kind4::Cube ? "-c" : "-C");
			if (k == w.size())
				return false;
			erase(k, j.kind == Kind4::Cube ? 3 : 4);
			return true;
		}
		case 23:
			name = "cube of another dimension";
			if (j.kind != Kind4::Cube && j.kind != Kind4::CubeArray)
				return false;
			append({"-d", src.draw(2) ? "1" : "3"});
			return true;
		case 24:
			name = "custom mip without mips";
			if (j.mips)
				return false;
			append({"-M", "1", j.images[0]});
			return true;
		case 25:
		{
			name = "custom mip for a bad level";
			if (!j.mips || j.levels == 0 || j.levels == 1 || j.dim == 3)
				return false;
			static const std::vector<std::string> n = {"0", "-1", "x", "40", "4294967295", "4294967296", "25"};
			std::string k = src.pick(n);
			bool loads = k == "25";
			if (loads && j.levels > 1 && src.draw(2))
				k = std::to_string(j.levels);
			append({"-M", k, j.images[0]});
			status = loads ? 2 : 1;
			return true;
		}
		case 26:
		{
			name = "custom mip for a bad layer";
			if (!j.mips || j.levels == 0 || j.levels == 1)
				return false;
			bool cube = j.kind == Kind4::Cube || j.kind == Kind4::CubeArray;
			std::size_t n = cube ? j.images.size()/6 : j.images.size();
			append({"-M", "1", std::to_string(n + src.draw(3)), j.images[0]});
			return true;
		}
		case 27:
		{
			name = "bad list";
			static const std::vector<std::string> t = {"", "\n\n", "\r\n \n", "x"};
			std::string text = src.pick(t);
			writeFile("l.txt", text);
			Words r = {"-I", kindsWord(src), src.draw(4) ? "l.txt" : "missing.txt", "-f", j.format->name,
				"-o", j.outName};
			w = r;
			status = -1; // refused or not loaded
			return true;
		}
		case 28:
		{
			name = "bad custom mip list";
			if (!j.mips || j.levels == 0 || j.levels == 1)
				return false;
			static const std::vector<std::string> t = {"1", "one x.png", "1 0", "1 0 +x", "1 0 +x once",
				"1 0 +x once   \n", "-1 x.png", "1 a.png\n1 b.png", "+x 1 a.png", "0 a.png", "1 999999 a.png"};
			writeFile("m.txt", src.pick(t));
			append({"--custom-mip-list", src.draw(4) ? "m.txt" : "missing.txt"});
			return true;
		}
		case 29:
		{
			// The images come from a list, then there are more of the same kind.
			name = "inputs after a list";
			std::string text;
			for (const std::string& i : j.images)
				text += i + "\n";
			writeFile("l.txt", text);
			Words extra;
			std::string n = std::to_string(src.draw(2) ? j.images.size() : src.draw(j.images.size()));
			switch (j.kind)
			{
				case Kind4::Single: extra = {"-i", j.images[0]}; break;
				case Kind4::Array: extra = {"-a", n, j.images[0]}; break;
				case Kind4::Cube: extra = {"-c", "+x", j.images[0]}; break;
				case Kind4::CubeArray: extra = {"-C", n, "+x", j.images[0]}; break;
			}
			static const char* kinds[] = {"image", "array", "cube", "cube-array"};
			Words list = {"-I", kinds[int(j.kind)], src.draw(4) ? "l.txt" : "empty.txt"};
			if (list[2] == "empty.txt")
				writeFile("empty.txt", "");
			bool before = src.draw(4) == 3;
			w = before ? extra : list;
			append(before ? list : extra);
			append({"-f", j.format->name, "-o", j.outName});
			return true;
		}
		case 30:
		{
			name = "partial custom mips of a 3D texture";
			unsigned int n = unsigned(j.images.size());
			if (j.dim != 3 || !j.mips || (j.levels >= 0 && j.levels < 2) || !j.custom.empty() || n < 4 ||
				find("-r") != w.size())
			{
				return false;
			}
			append({"-M", "1", std::to_string(src.draw(n/2)), j.images[0]});
			return true;
		}
		case 31:
		{
			// Fits the largest size, but not memory.
			name = "too large";
			if (j.kind == Kind4::Cube || j.kind == Kind4::CubeArray || j.dim == 1)
				return false;
			Words r = {"-r", "2147483647", "2147483647"};
			append(r);
			status = -1;
			return true;
		}
		case 32:
		{
			// No folder can be made there.
			name = "output below a file";
			std::string ext = j.outName.substr(j.outName.rfind('.'));
			w[find("-o") + 1] = j.images[0] + (src.draw(2) ? "/" : "/sub/") + "out" + ext;
			if (src.draw(2))
				append({"--create-dir"});
			status = 3;
			return true;
		}
		case 33:
		{
			name = "output in the place of a folder";
			std::string ext = j.outName.substr(j.outName.rfind('.'));
			std::string folder = "folder" + ext;
			mkdir(folder.c_str(), 0777);
			w[find("-o") + 1] = folder;
			if (src.draw(2))
				append({"--create-dir"});
			status = 3;
			return true;
		}
		default:
			name = "unknown file type";
			if (j.hasFile)
				return false;
			w[find("-o") + 1] = src.draw(2) ? "out.png" : "out";
			return true;
	}
}

} // namespace

namespace
{

// Any words: options, values, file names.
Words garbage(Src& src, const Words& files)
{
	static const std::vector<std::string> options = {"-h", "--help", "-j", "--jobs", "-q", "--quiet",
		"-v", "--verbose", "-i", "--input", "-I", "--input-list", "-a", "--array", "-c", "--cube", "-C",
		"--cube-array", "-r", "--resize", "-m", "--mipmap", "-M", "--custom-mip", "--custom-mip-list",
		"--flipx", "--flipy", "--rotate", "-n", "--normalmap", "-g", "--grayscale", "-s", "--swizzle",
		"--srgb", "--pre-multiply", "-d", "--dimension", "-f", "--format", "-t", "--type", "--alpha",
		"-Q", "--quality", "-o", "--output", "--file-format", "--create-dir", "--bogus"};
	static const std::vector<std::string> values = {"0", "1", "2", "3", "4", "7", "16", "-1", "-90", "90",
		"180", "+x", "-x", "+y", "-y", "+z", "-z", "box", "linear", "cubic", "catmull-rom", "b-spline",
		"width", "height", "min", "max-nextpo2", "nearestpo2", "wrap", "wrapx", "wrapy", "once",
		"continue", "rgba", "abgr", "xxxx", "rrrg", "R8G8B8A8", "r5g6b5", "R16G16", "BC1_RGB", "E5B9G9R9_UFloat",
		"unorm", "snorm", "uint", "int", "float", "ufloat", "none", "standard", "pre-multiplied",
		"encoded", "lowest", "highest", "dds", "ktx", "pvr", "image", "array", "cube", "cube-array", "all",
		"4294967295", "4294967296", "2147483648", "99999999999999999999", "1e9", "0.5", "nan", "inf",
		"", " ", "-", "--", "out.dds", "out.ktx", "out.pvr", "out", "sub/out.dds"};
	Words w;
	std::size_t n = src.draw(24);
	for (std::size_t i = 0; i < n; ++i)
	{
		switch (src.draw(8))
		{
			case 0: case 1: case 2: w.push_back(src.pick(options)); break;
			case 3: case 4: case 5: w.push_back(src.pick(values)); break;
			case 6: w.push_back(src.pick(files)); break;
			default:
			{
				std::string s;
				for (std::size_t k = src.draw(6); k > 0; --k)
					s += char(src.draw(3) ? 32 + src.draw(95) : 1 + src.draw(255));
				// Stay inside of the folder.
				std::replace(s.begin(), s.end(), '/', '_');
				w.push_back(s);
			}
		}
	}
	return w;
}

std::string listText(Src& src, const Words& files)
{
	std::string s;
	static const std::vector<std::string> bits = {"\n", "\r\n", "\r", " ", "\t", "0", "1", "2", "-1",
		"+x", "-z", "once", "continue", "4294967296", "\"", "#"};
	for (std::size_t k = src.draw(20); k > 0; --k)
	{
		switch (src.draw(4))
		{
			case 0: s += src.pick(files) + "\n"; break;
			case 1: s += src.pick(files); break;
			case 2: s += src.pick(bits); break;
			default: s += src.draw(8) ? ' ' : char(src.draw(256)); break;
		}
	}
	std::replace(s.begin(), s.end(), '/', '_');
	return s;
}

// A relative path without empty or "." parts.
std::string plainPath(const std::string& path)
{
	std::string result;
	for (std::size_t at = 0; at <= path.size();)
	{
		std::size_t end = std::min(path.find('/', at), path.size());
		std::string part = path.substr(at, end - at);
		bool last = end == path.size();
		if (last || (!part.empty() && part != "."))
			result += last ? part : part + "/";
		at = end + 1;
	}
	return result;
}

// Everything inside of a folder, with contents.
void snapshot(const std::string& dir, std::map<std::string, std::string>& out,
	std::set<std::string>* folders = nullptr)
{
	if (DIR* d = opendir(dir.c_str()))
	{
		while (dirent* e = readdir(d))
		{
			std::string n = e->d_name;
			if (n == "." || n == "..")
				continue;
			std::string p = dir == "." ? n : dir + "/" + n;
			struct stat st;
			if (lstat(p.c_str(), &st) != 0)
				continue;
			if (S_ISDIR(st.st_mode))
			{
				if (folders)
					folders->insert(p);
				snapshot(p, out, folders);
			}
			else
				out[p] = readFile(p);
		}
		closedir(d);
	}
}

// A valid conversion while image storage can't be allocated at some point.
void faultCase(Src& src, const Job& j, const Words& w)
{
	src.label("failed allocation");
	src.nontrivial();
	src.note << " | failed allocation: " << join(w);
	fault::arm(0, false);
	Run clean = runTool(w);
	fault::disarm();
	long calls = fault::plan().seen;
	CHECK_P(clean.status == 0, "refused-valid", "the tool exited with " << clean.status << ": " <<
		clean.err.substr(0, 300));
	std::string expected = readFile(j.outName);
	std::remove(j.outName.c_str());
	if (calls == 0)
		throw pbt::Discard();
	for (unsigned int i = 0; i < 3; ++i)
	{
		if (src.draw(2))
			writeFile(j.outName, "an earlier output");
		std::map<std::string, std::string> before, after;
		snapshot(".", before);
		fault::arm(1 + long(src.draw(std::size_t(calls))), src.draw(3) == 2);
		long at = fault::plan().at;
		Run r = runTool(w);
		fault::disarm();
		snapshot(".", after);
		src.note << " at=" << at;
		src.checks(2);
		CHECK_P(r.status >= 0 && r.status <= 3 && r.status != 1, "exit-status", "the tool exited with " <<
			r.status << " when image allocation " << at << " failed");
		if (r.status == 0)
		{
			src.label("allocation-replaced");
			std::string got = readFile(j.outName);
			CHECK_P(got.size() == expected.size(), "fault-output", "the tool succeeded with " <<
				got.size() << " instead of " << expected.size() << " bytes when image allocation " << at <<
				" failed");
			// R8G8B8A8, so that another way of computing it may be one or two codes off. Pixels exactly on
			// the edge of a box may count or not, which needn't be close.
			bool box = (j.resizeFilter == 0 && (!j.width.empty() || !j.height.empty())) ||
				((j.mips || !j.custom.empty()) && j.mipFilter == 0);
			if (box)
				src.label("allocation-replaced-box");
			for (std::size_t b = 0; b < got.size() && !box; ++b)
			{
				CHECK_P(std::abs(int(std::uint8_t(got[b])) - int(std::uint8_t(expected[b]))) <= 2,
					"fault-output", "the tool succeeded with other contents at byte " << b <<
					" when image allocation " << at << " failed");
			}
			std::remove(j.outName.c_str());
		}
		else
		{
			CHECK_P(!r.err.empty(), "silent-failure", "the tool exited with " << r.status <<
				" without saying why when image allocation " << at << " failed");
			CHECK_P(after == before, "files-changed", "the tool exited with " << r.status <<
				" but changed files when image allocation " << at << " failed");
			std::remove(j.outName.c_str());
		}
	}
}

} // namespace

PROPERTY(C24, 60000, 800000,
	"Each case is one of: a valid conversion made invalid in one of 35 ways (missing, repeated, unknown "
	"or out of range options and arguments, mixed inputs, gaps and repeats in arrays and cubes, missing "
	"or broken images, bad list files), which has to be refused with the documented exit status; any "
	"sequence of options, values, file names and bytes; list and custom mip list files with any "
	"contents; command lines with words removed, repeated, exchanged or replaced; and valid conversions "
	"in which an image allocation fails. Exit status 0 needs "
	"a complete output file; any other one needs a message and leaves all files alone, including "
	"an output file of an earlier run. Non-trivial: the command line has an input, a format and an output.")
{
	CaseDir dir;
	std::size_t mode = src.draw(4);
	Job j;
	int status = -1;
	std::string name;
	Words w;
	if (mode <= 1)
	{
		j = makeJob(src);
		if (j.createDir)
		{
			j.createDir = false;
			j.outName = j.outName.substr(j.outName.rfind('/') + 1);
		}
		j.format = &texFormats()[0];
		for (const TexFmt& f : texFormats())
		{
			if (f.f == TF::R8G8B8A8)
				j.format = &f;
		}
		j.type = TT::UNorm;
		w = writeJob(src, j, mode == 1 && src.draw(2), "");
	}
	if (mode == 0)
	{
		Expected want = reference(j);
		if (want.status != 0)
			throw pbt::Discard();
		if (src.draw(12) == 11)
		{
			faultCase(src, j, w);
			return;
		}
		if (!spoil(src, j, w, name, status))
			throw pbt::Discard();
		src.label(name);
		src.nontrivial();
	}
	else
	{
		Words files = {"missing.png", "list.txt", "mips.txt", "."};
		if (mode == 1)
		{
			// Mutate the words.
			name = "mutated";
			files.insert(files.end(), j.images.begin(), j.images.end());
			std::size_t n = 1 + src.draw(3);
			for (std::size_t i = 0; i < n && !w.empty(); ++i)
			{
				std::size_t at = src.draw(w.size());
				Words some = garbage(src, files);
				switch (src.draw(6))
				{
					case 0: w.erase(w.begin() + long(at)); break;
					case 1: w.insert(w.begin() + long(at), w[src.draw(w.size())]); break;
					case 2: std::swap(w[at], w[src.draw(w.size())]); break;
					case 3: w.resize(at); break;
					case 4:
						if (!some.empty())
							w[at] = some[0];
						break;
					default:
						if (some.size() > 3)
							some.resize(3);
						w.insert(w.begin() + long(at), some.begin(), some.end());
						break;
				}
			}
		}
		else
		{
			std::size_t n = 1 + src.draw(3);
			for (std::size_t i = 0; i < n; ++i)
				files.push_back(makeInput(src, "g" + std::to_string(i), genDim(src, 9), genDim(src, 9)));
			if (mode == 2)
			{
				name = "garbage";
				w = garbage(src, files);
				if (src.draw(2))
				{
					static const std::vector<std::string> outs = {"out.dds", "out.ktx", "out.pvr"};
					Words more = {"-i", src.pick(files), "-f", "R8G8B8A8", "-o", src.pick(outs)};
					w.insert(src.draw(2) ? w.begin() : w.end(), more.begin(), more.end());
				}
			}
			else
			{
				name = "list";
				w = {"-f", "R8G8B8A8", "-o", "out.dds", "-I", kindsWord(src), "list.txt"};
				if (src.draw(2))
				{
					w = {"-f", "R8G8B8A8", "-o", "out.ktx", "-i", files.back(), "-m", "--custom-mip-list",
						"mips.txt"};
				}
			}
		}
		if (src.draw(8))
		{
			writeFile("list.txt", listText(src, files));
			writeFile("mips.txt", listText(src, files));
		}
		src.label(name);
		auto has = [&](const char* s, const char* l)
		{
			return std::find_if(w.begin(), w.end(), [&](const std::string& x) {return x == s || x == l;}) !=
				w.end();
		};
		if (has("-f", "--format") && has("-o", "--output"))
			src.nontrivial();
	}

	// An output from before, nearly always at the place where the tool would write.
	std::string out;
	for (std::size_t i = 0; i + 1 < w.size(); ++i)
	{
		if (w[i] == "-o" || w[i] == "--output")
			out = w[i + 1];
	}
	bool safe = !out.empty() && out.find('/') == std::string::npos && !exists(out);
	if (safe && src.draw(2))
		writeFile(out, "an earlier output");
	for (const std::string& word : w)
	{
		// Nothing outside of the folder.
		if (word.size() > 0 && (word[0] == '/' || word.find("..") != std::string::npos))
			throw pbt::Discard();
	}
	std::map<std::string, std::string> before, after;
	std::set<std::string> foldersBefore, foldersAfter;
	snapshot(".", before, &foldersBefore);
	src.note << " | " << name << ": " << join(w);
	Run r = runTool(w);
	snapshot(".", after, &foldersAfter);
	src.checks(3);
	CHECK_P(std::includes(foldersAfter.begin(), foldersAfter.end(), foldersBefore.begin(),
		foldersBefore.end()), "folder-removed", "the tool exited with " << r.status <<
		" and removed a folder");
	if (foldersAfter != foldersBefore)
	{
		CHECK_P(std::find(w.begin(), w.end(), "--create-dir") != w.end(), "folder-made",
			"the tool made a folder without --create-dir");
		for (const std::string& folder : foldersAfter)
		{
			if (foldersBefore.count(folder))
				continue;
			// Only the folders of the output, and ones that their owner can use.
			CHECK_P(std::any_of(w.begin(), w.end(), [&](const std::string& x)
				{return plainPath(x).compare(0, folder.size() + 1, folder + "/") == 0;}),
				"other-folder-made", "the tool made the folder " << folder);
			struct stat info;
			CHECK_P(stat(folder.c_str(), &info) == 0 && (info.st_mode & 0700) == 0700,
				"folder-unusable", "the folder " << folder << " has the mode " << std::oct <<
				(info.st_mode & 07777));
		}
	}
	CHECK_P(r.status >= 0 && r.status <= 3, "exit-status", "the tool exited with " << r.status);
	if (mode == 0)
	{
		CHECK_P(r.status != 0, "accepted-invalid", "accepted a command line with: " << name);
		CHECK_P(status < 0 || r.status == status, "wrong-status", name << ": the tool exited with " <<
			r.status << ", expected " << status << ": " << r.err.substr(0, 300));
	}
	if (r.status == 0)
	{
		src.label("succeeded");
		std::size_t written = 0;
		for (const auto& f : after)
		{
			auto was = before.find(f.first);
			if (was != before.end() && was->second == f.second)
				continue;
			++written;
			CHECK_P(completeFile(f.second), "incomplete-output", "the tool succeeded but " << f.first <<
				" isn't a complete file: " << f.second.size() << " bytes");
		}
		CHECK_P(written == 1, "no-output", "the tool succeeded but wrote " << written << " files");
	}
	else
	{
		src.label("refused");
		CHECK_P(!r.err.empty() || !r.out.empty(), "silent-failure", "the tool exited with " << r.status <<
			" without saying why");
		CHECK_P(after == before, "files-changed", "the tool exited with " << r.status <<
			" but changed files: " << r.err.substr(0, 300));
	}
}

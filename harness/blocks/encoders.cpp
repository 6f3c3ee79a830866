#include "standin.h"
#include "astcenc.h"
#include "bc7enc.h"
#include "cmp_core.h"
#include "Etc.h"
#include "PVRTexLib.hpp"
#include "rgbcx.h"
#include "squish.h"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <mutex>

namespace standin
{

static std::mutex g_mutex;
static std::string g_misuse;
static bool g_keepCalls = false;
static std::vector<Call> g_calls;
static std::atomic<long> g_options(0), g_contexts(0);
static std::atomic<bool> g_rgbcx(false), g_bc7enc(false);

void digest(void* out, std::size_t size, const char* tag, const void* payload, std::size_t length)
{
	std::uint64_t h = 0xcbf29ce484222325ull;
	auto add = [&](std::uint8_t b)
	{
		h = (h ^ b)*0x100000001b3ull;
		h ^= h >> 29;
	};
	for (; *tag; ++tag)
		add(std::uint8_t(*tag));
	for (std::size_t i = 0; i < length; ++i)
		add(static_cast<const std::uint8_t*>(payload)[i]);
	for (std::size_t i = 0; i < size; ++i)
	{
		add(std::uint8_t(i));
		static_cast<std::uint8_t*>(out)[i] = std::uint8_t(h >> 40);
	}
}

std::string misuse()
{
	std::lock_guard<std::mutex> lock(g_mutex);
	return g_misuse;
}

void report(const char* what)
{
	std::lock_guard<std::mutex> lock(g_mutex);
	if (g_misuse.empty())
		g_misuse = what;
}

void reset(bool keepCalls)
{
	std::lock_guard<std::mutex> lock(g_mutex);
	g_misuse.clear();
	g_calls.clear();
	g_keepCalls = keepCalls;
}

std::vector<Call> calls()
{
	std::lock_guard<std::mutex> lock(g_mutex);
	return g_calls;
}

void called(const char* tag, double effort, bool perceptual, bool alphaWeight)
{
	std::lock_guard<std::mutex> lock(g_mutex);
	if (g_keepCalls)
		g_calls.push_back(Call{tag, effort, perceptual, alphaWeight});
}

long liveOptions() {return g_options;}
long liveContexts() {return g_contexts;}

// Values as the real encoders see them: no difference between the zeros.
static void floats(std::vector<float>& v)
{
	for (float& f : v)
	{
		if (f == 0)
			f = 0;
	}
}

} // namespace standin

using namespace standin;

void squish::Compress(u8 const* rgba, void* block, int flags, float* metric)
{
	bool perceptual = metric && (metric[0] != metric[1] || metric[1] != metric[2]) && metric[0] &&
		metric[1] && metric[2];
	std::uint8_t p[64];
	std::memcpy(p, rgba, 64);
	for (int i = 0; i < 16; ++i)
	{
		bool clear = p[i*4 + 3] < 128;
		for (int c = 0; c < 3; ++c)
		{
			if (clear || (metric && metric[c] == 0))
				p[i*4 + c] = 0;
		}
		p[i*4 + 3] = clear ? 0 : 255;
	}
	if (!(flags & kDxt1) || (flags & (kDxt3 | kDxt5)))
		report("squish: not DXT1");
	digest(block, 8, "bc1-punch-through", p, sizeof(p));
	called("bc1-punch-through", flags & kColourIterativeClusterFit ? 2 : flags & kColourRangeFit ? 0 : 1,
		perceptual);
}

void rgbcx::init(bc1_approx_mode)
{
	g_rgbcx = true;
}

static void needRgbcx(std::uint32_t level = rgbcx::MAX_LEVEL)
{
	if (!g_rgbcx)
		report("rgbcx: not initialized");
	if (level < rgbcx::MIN_LEVEL || level > rgbcx::MAX_LEVEL)
		report("rgbcx: level");
}

void rgbcx::encode_bc1(std::uint32_t level, void* out, const std::uint8_t* pixels, bool threeColor,
	bool transparentBlack, const std::uint8_t*)
{
	needRgbcx(level);
	std::uint8_t p[48];
	for (int i = 0; i < 16; ++i)
		std::memcpy(p + i*3, pixels + i*4, 3);
	const char* tag = !threeColor ? "bc1-4-color" : transparentBlack ? "bc1-any" : "bc1-opaque";
	digest(out, 8, tag, p, sizeof(p));
	called(tag, level);
}

void rgbcx::encode_bc3(std::uint32_t level, void* out, const std::uint8_t* pixels)
{
	needRgbcx(level);
	digest(out, 16, "bc3", pixels, 64);
	called("bc3", level);
}

void rgbcx::encode_bc3_hq(std::uint32_t level, void* out, const std::uint8_t* pixels,
	std::uint32_t radius, std::uint32_t)
{
	needRgbcx(level);
	digest(out, 16, "bc3", pixels, 64);
	called("bc3", level + 0.001*radius);
}

static void bc4(void* out, const std::uint8_t* pixels, std::uint32_t stride, double effort)
{
	needRgbcx();
	std::uint8_t p[16];
	for (int i = 0; i < 16; ++i)
		p[i] = pixels[i*stride];
	digest(out, 8, "bc4", p, sizeof(p));
	called("bc4", effort);
}

static void bc5(void* out, const std::uint8_t* pixels, std::uint32_t c0, std::uint32_t c1,
	std::uint32_t stride, double effort)
{
	needRgbcx();
	std::uint8_t p[32];
	for (int i = 0; i < 16; ++i)
	{
		p[i] = pixels[i*stride + c0];
		p[16 + i] = pixels[i*stride + c1];
	}
	digest(out, 16, "bc5", p, sizeof(p));
	called("bc5", effort);
}

void rgbcx::encode_bc4(void* out, const std::uint8_t* pixels, std::uint32_t stride)
{
	bc4(out, pixels, stride, 0);
}

void rgbcx::encode_bc4_hq(void* out, const std::uint8_t* pixels, std::uint32_t stride,
	std::uint32_t radius, std::uint32_t)
{
	bc4(out, pixels, stride, 1.0 + radius);
}

void rgbcx::encode_bc5(void* out, const std::uint8_t* pixels, std::uint32_t c0, std::uint32_t c1,
	std::uint32_t stride)
{
	bc5(out, pixels, c0, c1, stride, 0);
}

void rgbcx::encode_bc5_hq(void* out, const std::uint8_t* pixels, std::uint32_t c0, std::uint32_t c1,
	std::uint32_t stride, std::uint32_t radius, std::uint32_t)
{
	bc5(out, pixels, c0, c1, stride, 1.0 + radius);
}

namespace
{

struct Options
{
	int kind;
	float quality;
	bool isSigned;
};

int create(void** out, int kind)
{
	*out = new Options{kind, 0.05f, false};
	++g_options;
	return 0;
}

Options* get(const void* options, int kind)
{
	auto o = static_cast<Options*>(const_cast<void*>(options));
	if (!o || o->kind != kind)
		report("compressonator: options of another format");
	return o;
}

int setQuality(void* options, int kind, float quality)
{
	if (!(quality >= 0 && quality <= 1))
		report("compressonator: quality");
	get(options, kind)->quality = quality;
	return 0;
}

int destroy(void* options, int)
{
	// The real functions only free the memory, whatever the format.
	delete static_cast<Options*>(options);
	--g_options;
	return 0;
}

}

int CreateOptionsBC4(void** options) {return create(options, 4);}
int CreateOptionsBC5(void** options) {return create(options, 5);}
int CreateOptionsBC6(void** options) {return create(options, 6);}
int SetQualityBC4(void* options, float quality) {return setQuality(options, 4, quality);}
int SetQualityBC5(void* options, float quality) {return setQuality(options, 5, quality);}
int SetQualityBC6(void* options, float quality) {return setQuality(options, 6, quality);}
int SetSignedBC6(void* options, bool isSigned) {get(options, 6)->isSigned = isSigned; return 0;}
int DestroyOptionsBC4(void* options) {return destroy(options, 4);}
int DestroyOptionsBC5(void* options) {return destroy(options, 5);}
int DestroyOptionsBC6(void* options) {return destroy(options, 6);}

int CompressBlockBC4S(const char* block, unsigned int stride, unsigned char out[8], const void* options)
{
	char p[16];
	for (int i = 0; i < 16; ++i)
		p[i] = block[i/4*stride + i%4];
	digest(out, 8, "bc4-signed", p, sizeof(p));
	called("bc4-signed", get(options, 4)->quality);
	return 0;
}

int CompressBlockBC5S(const char* a, unsigned int strideA, const char* b, unsigned int strideB,
	unsigned char out[16], const void* options)
{
	char p[32];
	for (int i = 0; i < 16; ++i)
	{
		p[i] = a[i/4*strideA + i%4];
		p[16 + i] = b[i/4*strideB + i%4];
	}
	digest(out, 16, "bc5-signed", p, sizeof(p));
	called("bc5-signed", get(options, 5)->quality);
	return 0;
}

int CompressBlockBC6(const unsigned short* block, unsigned int stride, unsigned char out[16],
	const void* options)
{
	unsigned short p[48];
	for (int i = 0; i < 48; ++i)
	{
		p[i] = block[i/12*stride + i%12];
		if (p[i] == 0x8000)
			p[i] = 0;
	}
	const Options* o = get(options, 6);
	const char* tag = o->isSigned ? "bc6-signed" : "bc6";
	digest(out, 16, tag, p, sizeof(p));
	called(tag, o->quality);
	return 0;
}

void bc7enc_compress_block_init()
{
	g_bc7enc = true;
}

bc7enc_bool bc7enc_compress_block(void* out, const void* pixels,
	const bc7enc_compress_block_params* params)
{
	if (!g_bc7enc)
		report("bc7enc: not initialized");
	if (params->m_max_partitions > BC7ENC_MAX_PARTITIONS || params->m_uber_level > BC7ENC_MAX_UBER_LEVEL)
		report("bc7enc: parameters");
	std::uint8_t p[64];
	std::memcpy(p, pixels, 64);
	for (int i = 0; i < 64; ++i)
	{
		if (params->m_weights[i%4] == 0)
			p[i] = 0;
	}
	digest(out, 16, "bc7", p, sizeof(p));
	called("bc7", params->m_max_partitions + 0.01*params->m_uber_level +
		0.001*params->m_try_least_squares, params->m_perceptual);
	return 1;
}

struct astcenc_context
{
	astcenc_config config;
	std::atomic<bool> busy;
	bool needsReset;
};

astcenc_error astcenc_config_init(astcenc_profile profile, unsigned int x, unsigned int y,
	unsigned int z, float quality, unsigned int flags, astcenc_config* config)
{
	config->profile = profile;
	config->flags = flags;
	config->block_x = x;
	config->block_y = y;
	config->block_z = z;
	config->cw_r_weight = config->cw_g_weight = config->cw_b_weight = config->cw_a_weight = 1;
	config->tune_partition_count_limit = unsigned(quality);
	config->tune_db_limit = quality;
	return ASTCENC_SUCCESS;
}

astcenc_error astcenc_context_alloc(const astcenc_config* config, unsigned int threads,
	astcenc_context** context)
{
	*context = new astcenc_context{*config, {false}, false};
	++g_contexts;
	if (threads != 1)
		report("astcenc: context of several threads");
	return ASTCENC_SUCCESS;
}

astcenc_error astcenc_compress_image(astcenc_context* context, astcenc_image* image,
	const astcenc_swizzle* swizzle, std::uint8_t* out, std::size_t length, unsigned int thread)
{
	if (context->busy.exchange(true))
		report("astcenc: a context is used by two threads");
	if (context->needsReset)
		report("astcenc: a context is used again without a reset");
	if (thread != 0)
		report("astcenc: thread index");
	context->needsReset = true;
	const astcenc_config& c = context->config;
	if (image->data_type != ASTCENC_TYPE_F32 || image->dim_z != 1)
		report("astcenc: image");
	else if ((image->dim_x + c.block_x - 1)/c.block_x*((image->dim_y + c.block_y - 1)/c.block_y)*16 >
		length)
	{
		report("astcenc: output too small");
	}
	else
	{
		// As in the original, texels outside of the image repeat its edge.
		auto texels = static_cast<const float*>(image->data[0]);
		unsigned int columns = (image->dim_x + c.block_x - 1)/c.block_x;
		unsigned int rows = (image->dim_y + c.block_y - 1)/c.block_y;
		for (unsigned int row = 0; row < rows; ++row)
		{
			for (unsigned int column = 0; column < columns; ++column)
			{
				std::vector<float> p;
				for (unsigned int j = 0; j < c.block_y; ++j)
				{
					unsigned int y = std::min(row*c.block_y + j, image->dim_y - 1);
					for (unsigned int i = 0; i < c.block_x; ++i)
					{
						unsigned int x = std::min(column*c.block_x + i, image->dim_x - 1);
						const float* t = texels + (std::size_t(y)*image->dim_x + x)*4;
						float in[7] = {t[0], t[1], t[2], t[3], 0, 1, 0};
						for (astcenc_swz s : {swizzle->r, swizzle->g, swizzle->b, swizzle->a})
							p.push_back(in[s]);
					}
				}
				floats(p);
				std::string tag = "astc" + std::to_string(c.block_x) + "x" + std::to_string(c.block_y) +
					(c.profile == ASTCENC_PRF_LDR || c.profile == ASTCENC_PRF_LDR_SRGB ? "ldr" : "hdr");
				digest(out + (std::size_t(row)*columns + column)*16, 16, tag.c_str(), p.data(),
					p.size()*sizeof(float));
			}
		}
		called(c.profile == ASTCENC_PRF_HDR ? "astc-hdr" : "astc", c.tune_db_limit, (c.flags & ASTCENC_FLG_USE_PERCEPTUAL) != 0,
			(c.flags & ASTCENC_FLG_USE_ALPHA_WEIGHT) != 0);
	}
	context->busy = false;
	return ASTCENC_SUCCESS;
}

astcenc_error astcenc_compress_reset(astcenc_context* context)
{
	if (context->busy)
		report("astcenc: reset of a context in use");
	context->needsReset = false;
	return ASTCENC_SUCCESS;
}

void astcenc_context_free(astcenc_context* context)
{
	if (context && context->busy)
		report("astcenc: a context in use is freed");
	if (context)
		--g_contexts;
	delete context;
}

Etc::Image::Image(float* source, unsigned int width, unsigned int height, ErrorMetric)
	: m_source(source), m_width(width), m_height(height) {}

Etc::Image::~Image()
{
	delete[] m_bits;
}

Etc::Image::EncodingStatus Etc::Image::Encode(Format format, ErrorMetric metric, float effort,
	unsigned int, unsigned int)
{
	static const char* tags[] = {"?", "etc1", "etc-rgb", "etc-rgb", "etc-rgba", "etc-rgba", "eac-r",
		"eac-r-signed", "eac-rg", "eac-rg-signed", "etc-rgba1", "etc-rgba1"};
	static const int channels[] = {0, 3, 3, 3, 4, 4, 1, 1, 2, 2, 4, 4};
	static const unsigned int sizes[] = {0, 8, 8, 8, 16, 16, 8, 8, 16, 16, 8, 8};
	int f = int(format);
	if (!(effort >= ETCCOMP_MIN_EFFORT_LEVEL && effort <= ETCCOMP_MAX_EFFORT_LEVEL))
		report("EtcLib: effort");
	unsigned int columns = (m_width + 3)/4, rows = (m_height + 3)/4;
	m_size = columns*rows*sizes[f];
	delete[] m_bits;
	m_bits = new unsigned char[m_size];
	for (unsigned int b = 0; b < columns*rows; ++b)
	{
		// Texels outside of the image don't count.
		std::vector<float> p;
		for (unsigned int j = 0; j < 4; ++j)
		{
			for (unsigned int i = 0; i < 4; ++i)
			{
				unsigned int x = b%columns*4 + i, y = b/columns*4 + j;
				for (int c = 0; c < channels[f]; ++c)
				{
					float v = x < m_width && y < m_height ? m_source[(y*m_width + x)*4 + c] : -1000;
					p.push_back(v);
				}
			}
		}
		floats(p);
		digest(m_bits + b*sizes[f], sizes[f], tags[f], p.data(), p.size()*sizeof(float));
	}
	called(tags[f], effort, metric == REC709);
	return SUCCESS;
}

pvrtexlib::PVRTextureHeader::PVRTextureHeader(PVRTuint64 _pixelFormat, PVRTuint32 _width,
	PVRTuint32 _height, PVRTuint32 _depth, PVRTuint32 _mips, PVRTuint32 _layers, PVRTuint32 _faces,
	PVRTexLibColourSpace _colourSpace, PVRTexLibVariableType _channelType, bool _preMultiplied)
	: pixelFormat(_pixelFormat), width(_width), height(_height), depth(_depth), mips(_mips),
	layers(_layers), faces(_faces), colourSpace(_colourSpace), channelType(_channelType),
	preMultiplied(_preMultiplied) {}

pvrtexlib::PVRTexture::PVRTexture(const PVRTextureHeader& header, const void* data)
	: m_header(header), m_data(std::size_t(header.width)*header.height*4)
{
	if (header.pixelFormat != PVRTGENPIXELID4('r', 'g', 'b', 'a', 8, 8, 8, 8) || header.depth != 1 ||
		header.mips != 1 || header.layers != 1 || header.faces != 1)
	{
		report("PVRTexLib: input");
	}
	if (data)
		std::memcpy(m_data.data(), data, m_data.size());
}

bool pvrtexlib::PVRTexture::Transcode(PVRTuint64 pixelFormat, PVRTexLibVariableType,
	PVRTexLibColourSpace space, PVRTexLibCompressorQuality quality, bool, float, PVRTuint32)
{
	if (pixelFormat > PVRTLPF_PVRTCII_4bpp)
		report("PVRTexLib: output");
	if (quality < PVRTLCQ_PVRTCFastest || quality > PVRTLCQ_PVRTCBest)
		report("PVRTexLib: quality");
	if (space != m_header.colourSpace)
		report("PVRTexLib: change of color space");
	static const char* tags[] = {"pvrtc-2-rgb", "pvrtc-2-rgba", "pvrtc-4-rgb", "pvrtc-4-rgba",
		"pvrtc2-2", "pvrtc2-4"};
	static const bool alpha[] = {false, true, false, true, true, true};
	static const unsigned int bits[] = {2, 2, 4, 4, 2, 4};
	int f = int(pixelFormat%6);
	unsigned int blockW = bits[f] == 2 ? 8 : 4;
	unsigned int minBlocks = f < 4 ? 2 : 1;
	unsigned int columns = std::max((m_header.width + blockW - 1)/blockW, minBlocks);
	unsigned int rows = std::max((m_header.height + 3)/4, minBlocks);
	std::vector<std::uint8_t> p;
	for (PVRTuint32 v : {m_header.width, m_header.height})
	{
		for (int i = 0; i < 4; ++i)
			p.push_back(std::uint8_t(v >> i*8));
	}
	for (std::size_t i = 0; i < m_data.size(); ++i)
	{
		if (i%4 != 3 || alpha[f])
			p.push_back(m_data[i]);
	}
	std::vector<std::uint8_t> out(std::size_t(columns)*rows*8);
	digest(out.data(), out.size(), tags[f], p.data(), p.size());
	m_data = out;
	called(tags[f], quality);
	return true;
}

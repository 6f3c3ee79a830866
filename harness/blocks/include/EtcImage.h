#pragma once
#define ETCCOMP_MIN_EFFORT_LEVEL (0.0f)
#define ETCCOMP_DEFAULT_EFFORT_LEVEL (40.0f)
#define ETCCOMP_MAX_EFFORT_LEVEL (100.0f)
namespace Etc
{
enum ErrorMetric {RGBA, RGBX, REC709, NUMERIC, NORMALXYZ, ERROR_METRICS};
class Image
{
public:
	enum EncodingStatus {SUCCESS = 0};
	enum class Format {UNKNOWN, ETC1, RGB8, SRGB8, RGBA8, SRGBA8, R11, SIGNED_R11, RG11, SIGNED_RG11,
		RGB8A1, SRGB8A1, FORMATS, DEFAULT = SRGB8};
	Image(float* sourceRGBA, unsigned int width, unsigned int height, ErrorMetric metric);
	~Image();
	Image(const Image&) = delete;
	Image& operator=(const Image&) = delete;
	EncodingStatus Encode(Format format, ErrorMetric metric, float effort, unsigned int jobs,
		unsigned int maxJobs);
	unsigned char* GetEncodingBits() {return m_bits;}
	unsigned int GetEncodingBitsBytes() {return m_size;}
private:
	const float* m_source;
	unsigned int m_width, m_height, m_size = 0;
	unsigned char* m_bits = nullptr;
};
}

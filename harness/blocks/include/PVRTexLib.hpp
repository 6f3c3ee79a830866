#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
typedef std::uint64_t PVRTuint64;
typedef std::uint32_t PVRTuint32;
#define PVRTGENPIXELID4(C1, C2, C3, C4, B1, B2, B3, B4) \
	((PVRTuint64)(C1) | ((PVRTuint64)(C2) << 8) | ((PVRTuint64)(C3) << 16) | ((PVRTuint64)(C4) << 24) | \
	((PVRTuint64)(B1) << 32) | ((PVRTuint64)(B2) << 40) | ((PVRTuint64)(B3) << 48) | \
	((PVRTuint64)(B4) << 56))
enum PVRTexLibPixelFormat {PVRTLPF_PVRTCI_2bpp_RGB, PVRTLPF_PVRTCI_2bpp_RGBA, PVRTLPF_PVRTCI_4bpp_RGB,
	PVRTLPF_PVRTCI_4bpp_RGBA, PVRTLPF_PVRTCII_2bpp, PVRTLPF_PVRTCII_4bpp};
enum PVRTexLibVariableType {PVRTLVT_UnsignedByteNorm, PVRTLVT_SignedByteNorm};
enum PVRTexLibColourSpace {PVRTLCS_Linear, PVRTLCS_sRGB};
enum PVRTexLibCompressorQuality {PVRTLCQ_PVRTCFastest = 0, PVRTLCQ_PVRTCFast, PVRTLCQ_PVRTCLow,
	PVRTLCQ_PVRTCNormal, PVRTLCQ_PVRTCHigh, PVRTLCQ_PVRTCVeryHigh, PVRTLCQ_PVRTCThorough,
	PVRTLCQ_PVRTCBest};
namespace pvrtexlib
{
struct PVRTextureHeader
{
	PVRTextureHeader(PVRTuint64 pixelFormat, PVRTuint32 width, PVRTuint32 height, PVRTuint32 depth = 1,
		PVRTuint32 numMipMaps = 1, PVRTuint32 numArrayMembers = 1, PVRTuint32 numFaces = 1,
		PVRTexLibColourSpace colourSpace = PVRTLCS_sRGB,
		PVRTexLibVariableType channelType = PVRTLVT_UnsignedByteNorm, bool preMultiplied = false);
	PVRTuint64 pixelFormat;
	PVRTuint32 width, height, depth, mips, layers, faces;
	PVRTexLibColourSpace colourSpace;
	PVRTexLibVariableType channelType;
	bool preMultiplied;
};
class PVRTexture
{
public:
	PVRTexture(const PVRTextureHeader& header, const void* data);
	void* GetTextureDataPointer() {return m_data.data();}
	PVRTuint64 GetTextureDataSize() const {return m_data.size();}
	bool Transcode(PVRTuint64 pixelFormat, PVRTexLibVariableType channelType,
		PVRTexLibColourSpace colourSpace, PVRTexLibCompressorQuality quality = PVRTLCQ_PVRTCNormal,
		bool doDither = false, float maxRange = 1.0f, PVRTuint32 maxThreads = 0U);
private:
	PVRTextureHeader m_header;
	std::vector<std::uint8_t> m_data;
};
}

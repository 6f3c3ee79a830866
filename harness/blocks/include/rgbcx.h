#pragma once
#include <cstdint>
namespace rgbcx
{
const std::uint32_t MIN_LEVEL = 0, MAX_LEVEL = 18;
enum class bc1_approx_mode {cBC1Ideal = 0, cBC1NVidia = 1, cBC1AMD = 2, cBC1IdealRound4 = 3};
void init(bc1_approx_mode mode = bc1_approx_mode::cBC1Ideal);
void encode_bc1(std::uint32_t level, void* pDst, const std::uint8_t* pPixels, bool allow_3color,
	bool use_transparent_texels_for_black, const std::uint8_t* pForce_selectors = nullptr);
void encode_bc3(std::uint32_t level, void* pDst, const std::uint8_t* pPixels);
void encode_bc3_hq(std::uint32_t level, void* pDst, const std::uint8_t* pPixels,
	std::uint32_t bc4_search_rad = 5, std::uint32_t bc4_modes_flag = 3);
void encode_bc4(void* pDst, const std::uint8_t* pPixels, std::uint32_t stride = 4);
void encode_bc4_hq(void* pDst, const std::uint8_t* pPixels, std::uint32_t stride = 4,
	std::uint32_t search_rad = 5, std::uint32_t modes_flag = 3);
void encode_bc5(void* pDst, const std::uint8_t* pPixels, std::uint32_t chan0 = 0,
	std::uint32_t chan1 = 1, std::uint32_t stride = 4);
void encode_bc5_hq(void* pDst, const std::uint8_t* pPixels, std::uint32_t chan0 = 0,
	std::uint32_t chan1 = 1, std::uint32_t stride = 4, std::uint32_t search_rad = 5,
	std::uint32_t modes_flag = 3);
}

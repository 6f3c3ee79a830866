#pragma once
#include <cstdint>
#define BC7ENC_BLOCK_SIZE 16
#define BC7ENC_MAX_PARTITIONS 64
#define BC7ENC_MAX_PARTITIONS1 64
#define BC7ENC_MAX_UBER_LEVEL 4
typedef uint8_t bc7enc_bool;
#define BC7ENC_TRUE 1
#define BC7ENC_FALSE 0
struct bc7enc_compress_block_params
{
	uint32_t m_mode_mask;
	uint32_t m_max_partitions;
	uint32_t m_weights[4];
	uint32_t m_uber_level;
	bool m_perceptual;
	bool m_try_least_squares;
	bool m_mode17_partition_estimation_filterbank;
};
inline void bc7enc_compress_block_params_init_linear_weights(bc7enc_compress_block_params* p)
{
	p->m_perceptual = false;
	for (int i = 0; i < 4; ++i)
		p->m_weights[i] = 1;
}
inline void bc7enc_compress_block_params_init_perceptual_weights(bc7enc_compress_block_params* p)
{
	p->m_perceptual = true;
	p->m_weights[0] = 128;
	p->m_weights[1] = 64;
	p->m_weights[2] = 16;
	p->m_weights[3] = 32;
}
inline void bc7enc_compress_block_params_init(bc7enc_compress_block_params* p)
{
	p->m_mode_mask = 0xffffffffu;
	p->m_max_partitions = BC7ENC_MAX_PARTITIONS;
	p->m_try_least_squares = true;
	p->m_mode17_partition_estimation_filterbank = true;
	p->m_uber_level = 0;
	bc7enc_compress_block_params_init_perceptual_weights(p);
}
void bc7enc_compress_block_init();
bc7enc_bool bc7enc_compress_block(void* pBlock, const void* pPixelsRGBA,
	const bc7enc_compress_block_params* params);

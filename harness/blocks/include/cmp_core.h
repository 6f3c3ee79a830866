#pragma once
int CreateOptionsBC4(void** options);
int CreateOptionsBC5(void** options);
int CreateOptionsBC6(void** options);
int SetQualityBC4(void* options, float quality);
int SetQualityBC5(void* options, float quality);
int SetQualityBC6(void* options, float quality);
int SetSignedBC6(void* options, bool isSigned);
int DestroyOptionsBC4(void* options);
int DestroyOptionsBC5(void* options);
int DestroyOptionsBC6(void* options);
int CompressBlockBC4S(const char* srcBlock, unsigned int srcStrideInBytes, unsigned char cmpBlock[8],
	const void* options = nullptr);
int CompressBlockBC5S(const char* srcBlock1, unsigned int srcStrideInBytes1, const char* srcBlock2,
	unsigned int srcStrideInBytes2, unsigned char cmpBlock[16], const void* options = nullptr);
int CompressBlockBC6(const unsigned short* srcBlock, unsigned int srcStrideInShorts,
	unsigned char cmpBlock[16], const void* options = nullptr);

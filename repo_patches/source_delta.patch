From 1ff8eb61fec62d2cfe5c2c349d5083e55fb27820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 01/46] fix: keep linear-space grayscale when setting pixels of
 sRGB images

The result computed in linear space was immediately overwritten with the
grayscale value computed directly from the sRGB channels.
---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..ae1b20d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From 1f67b762033e103d56dcb3eb7490f0ac170dcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 02/46] fix: clamp colors before casting to integer image
 pixels

Out of range colors were cast to the integer type before they were clamped,
which is undefined. UInt16 additionally went through a signed 16-bit integer,
mangling the upper half of its range.
---
 lib/src/Image.cpp | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ae1b20d..aab27cf 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -312,13 +312,16 @@ double toDoubleNorm6(unsigned int value)
 
 double clamp(double d)
 {
-	return std::max(std::min(d, 1.0), 0.0);
+	// Order of parameters ensures NaN becomes 0.
+	return std::min(1.0, std::max(0.0, d));
 }
 
 template <typename T>
-T clamp(T v)
+T clampedCast(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	// Clamp before casting, since it's undefined to cast NaN and values that are out of range.
+	return static_cast<T>(std::min(static_cast<double>(std::numeric_limits<T>::max()),
+		std::max(static_cast<double>(std::numeric_limits<T>::lowest()), d)));
 }
 
 template <typename T>
@@ -557,20 +560,20 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				clampedCast<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				clampedCast<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				clampedCast<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				clampedCast<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +676,20 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] =
+				clampedCast<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] =
+				clampedCast<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] =
+				clampedCast<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] =
+				clampedCast<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From 9f59012b804f02b8065b99bcdbdb238f76feb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 03/46] fix: report correct channel masks and shifts for images

The blue mask was taken from green, and the shifts were found by comparing
masks with channel indices, so they were always 0 for 8-bit channels.
---
 lib/src/Image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index aab27cf..4e810f0 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -746,25 +746,25 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From b084a7188bdf67a59a761b8def08d139ed316f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 04/46] fix: keep 16-bit RGB images consistent when resizing

FreeImage rescales 16-BPP images to 24-BPP, but the result was still treated
as having 16-BPP pixels.
---
 lib/src/Image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 4e810f0..690c764 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1368,6 +1368,10 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 
 	switch (m_impl->format)
 	{
+		case Format::RGB5:
+		case Format::RGB565:
+			// FreeImage always rescales 16-BPP images to 24-BPP.
+			return convert(Format::RGBF).resize(width, height, filter).convert(m_impl->format);
 		case Format::Int16:
 		case Format::Int32:
 		case Format::UInt32:
-- 
2.43.0


From 606fb91b08d9051b924d2260670ef172e68709f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 05/46] fix: preserve the full range when converting to 16-bit
 channels

FreeImage converts 8-bit channels to 16-bit by shifting, so white and opaque
alpha became 0xFF00 rather than 0xFFFF.
---
 lib/src/Image.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 690c764..bfa5693 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -206,6 +206,19 @@ bool isRGB16BPPFormat(Image::Format format)
 	}
 }
 
+bool is16BitChannelFormat(Image::Format format)
+{
+	switch (format)
+	{
+		case Image::Format::Gray16:
+		case Image::Format::RGB16:
+		case Image::Format::RGBA16:
+			return true;
+		default:
+			return false;
+	}
+}
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
@@ -1166,7 +1179,10 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				}
 				break;
 			case Format::Gray16:
-				if (convertLinearGrayscale || isGrayscaleFormat(srcFormat))
+				// NOTE: FreeImage only shifts 8-bit channels to 16-bit, which doesn't preserve the
+				// range. The same applies to RGB16 and RGBA16 below.
+				if ((convertLinearGrayscale || isGrayscaleFormat(srcFormat)) &&
+					is16BitChannelFormat(srcFormat))
 				{
 					image.m_impl.reset(Impl::create(
 						FreeImage_ConvertToType(m_impl->image, FIT_UINT16), m_impl->colorSpace,
@@ -1186,8 +1202,11 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 					FreeImage_ConvertTo24Bits(m_impl->image), m_impl->colorSpace, dstFormat));
 				break;
 			case Format::RGB16:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToRGB16(m_impl->image), m_impl->colorSpace, dstFormat));
+				if (is16BitChannelFormat(srcFormat))
+				{
+					image.m_impl.reset(Impl::create(
+						FreeImage_ConvertToRGB16(m_impl->image), m_impl->colorSpace, dstFormat));
+				}
 				break;
 			case Format::RGBF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
@@ -1204,8 +1223,11 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 					FreeImage_ConvertTo32Bits(m_impl->image), m_impl->colorSpace, dstFormat));
 				break;
 			case Format::RGBA16:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToRGBA16(m_impl->image), m_impl->colorSpace, dstFormat));
+				if (is16BitChannelFormat(srcFormat))
+				{
+					image.m_impl.reset(Impl::create(
+						FreeImage_ConvertToRGBA16(m_impl->image), m_impl->colorSpace, dstFormat));
+				}
 				break;
 			case Format::RGBAF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-- 
2.43.0


From 890761753f87641694c3c899480dfa03b91e2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 06/46] fix: convert 16-BPP RGB images to RGBAF precisely

As with RGBF, FreeImage goes through a lossy 8-bit conversion.
---
 lib/src/Image.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index bfa5693..ead1360 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1231,8 +1231,9 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				break;
 			case Format::RGBAF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-				// clamping HDR images.
-				if (!needFloatConvertFallback(srcFormat))
+				// clamping HDR images. FreeImage conversion is also incorrect for 16-BPP RGB
+				// formats.
+				if (!needFloatConvertFallback(srcFormat) && !isRGB16BPPFormat(srcFormat))
 				{
 					image.m_impl.reset(Impl::create(
 						FreeImage_ConvertToRGBAF(m_impl->image), m_impl->colorSpace, dstFormat));
-- 
2.43.0


From a89829d82983dd8b6be30d0805c94fe7dac49fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 07/46] fix: load images correctly from seekable streams

Return the number of items read, recover from reads and seeks past the end,
and treat the initial stream position as the start of the image.
---
 lib/src/Image.cpp | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index ead1360..81a57f0 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -219,11 +219,24 @@ bool is16BitChannelFormat(Image::Format format)
 	}
 }
 
+struct IStreamHandle
+{
+	std::istream* stream;
+	std::streamoff start;
+};
+
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
-	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	if (size == 0)
+		return 0;
+
+	std::istream* stream = reinterpret_cast<IStreamHandle*>(handle)->stream;
+	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
+	auto readCount = static_cast<unsigned int>(stream->gcount()/size);
+	// Reaching the end of the stream mustn't prevent later seeks and reads.
+	if (stream->eof())
+		stream->clear(stream->rdstate() & ~(std::ios_base::eofbit | std::ios_base::failbit));
+	return readCount;
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
@@ -233,12 +246,15 @@ unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
 
 int seekIStream(fi_handle handle, long offset, int origin)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
+	auto streamHandle = reinterpret_cast<IStreamHandle*>(handle);
+	std::istream* stream = streamHandle->stream;
+	std::streamoff streamOffset = offset;
 	std::ios_base::seekdir dir;
 	switch (origin)
 	{
 		case SEEK_SET:
 			dir = std::ios_base::beg;
+			streamOffset += streamHandle->start;
 			break;
 		case SEEK_CUR:
 			dir = std::ios_base::cur;
@@ -249,14 +265,19 @@ int seekIStream(fi_handle handle, long offset, int origin)
 		default:
 			return -1;
 	}
-	stream->seekg(offset, dir);
-	return stream->good() ? 0 : -1;
+	stream->seekg(streamOffset, dir);
+	if (stream->good())
+		return 0;
+
+	// Failing to seek mustn't prevent later seeks and reads.
+	stream->clear();
+	return -1;
 }
 
 long tellIStream(fi_handle handle)
 {
-	auto stream = reinterpret_cast<std::istream*>(handle);
-	return static_cast<long>(stream->tellg());
+	auto streamHandle = reinterpret_cast<IStreamHandle*>(handle);
+	return static_cast<long>(std::streamoff(streamHandle->stream->tellg()) - streamHandle->start);
 }
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
@@ -898,7 +919,8 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 bool Image::load(std::istream& stream, ColorSpace colorSpace)
 {
 	// Seeking is needed to detect the file type.
-	if (stream.tellg() < 0)
+	IStreamHandle handle = {&stream, stream.tellg()};
+	if (handle.start < 0)
 	{
 		std::vector<std::uint8_t> data;
 		readStreamData(data, stream);
@@ -907,11 +929,11 @@ bool Image::load(std::istream& stream, ColorSpace colorSpace)
 
 	reset();
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &stream);
+	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &handle);
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &stream), colorSpace,
+	m_impl.reset(Impl::create(FreeImage_LoadFromHandle(format, &istreamIO, &handle), colorSpace,
 		Format::Invalid));
 	return m_impl != nullptr;
 }
-- 
2.43.0


From 683cdffa0ce31246810a76c9ac42020e0ba19db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 08/46] fix: save images consistently and report failures

Refuse pixel formats the file format can't hold rather than corrupting memory,
write the same contents to files, streams, and memory, and report any failure
to write the full contents.
---
 lib/src/Image.cpp | 97 ++++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 55 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 81a57f0..3eaba48 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -23,10 +23,10 @@
 #include <cassert>
 #include <cmath>
 #include <cstdio>
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <ostream>
-#include <sstream>
 
 namespace cuttlefish
 {
@@ -282,48 +282,18 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
-unsigned int readOStream(void*, unsigned int, unsigned int, fi_handle)
+bool canSave(FREE_IMAGE_FORMAT format, FIBITMAP* image)
 {
-	return 0;
-}
-
-unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
-}
-
-int seekOStream(fi_handle handle, long offset, int origin)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	std::ios_base::seekdir dir;
-	switch (origin)
-	{
-		case SEEK_SET:
-			dir = std::ios_base::beg;
-			break;
-		case SEEK_CUR:
-			dir = std::ios_base::cur;
-			break;
-		case SEEK_END:
-			dir = std::ios_base::end;
-			break;
-		default:
-			return -1;
-	}
-	stream->seekp(offset, dir);
-	return stream->good() ? 0 : -1;
-}
+	// Not all FreeImage plugins check this themselves, and will either write garbage or corrupt
+	// memory when given an image they don't expect.
+	FREE_IMAGE_TYPE type = FreeImage_GetImageType(image);
+	if (!FreeImage_FIFSupportsWriting(format) || !FreeImage_FIFSupportsExportType(format, type))
+		return false;
 
-long tellOStream(fi_handle handle)
-{
-	auto stream = reinterpret_cast<std::ostream*>(handle);
-	return static_cast<long>(stream->tellp());
+	return type != FIT_BITMAP ||
+		FreeImage_FIFSupportsExportBPP(format, static_cast<int>(FreeImage_GetBPP(image)));
 }
 
-FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
-
 double toDoubleNorm(std::uint8_t value)
 {
 	return value/255.0;
@@ -961,38 +931,55 @@ bool Image::load(const void* data, std::size_t size, ColorSpace colorSpace)
 
 bool Image::save(const char* fileName)
 {
-	if (!m_impl)
+	std::vector<std::uint8_t> data;
+	if (!save(data, fileName))
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	std::ofstream stream(fileName, std::ios_base::binary);
+	if (!stream.is_open())
 		return false;
 
-	return FreeImage_Save(format, m_impl->image, fileName) != false;
+	// Must close the stream to ensure that all of the data could be written.
+	stream.write(reinterpret_cast<const char*>(data.data()), data.size());
+	stream.close();
+	return stream.good();
 }
 
 bool Image::save(std::ostream& stream, const char* fileName)
 {
-	if (!m_impl)
-		return false;
-
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	std::vector<std::uint8_t> data;
+	if (!save(data, fileName))
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
+	stream.write(reinterpret_cast<const char*>(data.data()), data.size());
+	stream.flush();
+	return stream.good();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
 {
-	// Implementations of stringstream typically don't differentiate between text and binary, but
-	// the standard doesn't guarantee this.
-	std::stringstream stream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
-	if (!save(stream, fileName))
+	if (!m_impl)
 		return false;
 
-	readStreamData(outData, stream);
-	return true;
+	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
+	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
+		return false;
+
+	// Some formats need to read and seek within the data that's written, so always save to memory
+	// rather than directly to the final destination.
+	FIMEMORY* memoryStream = FreeImage_OpenMemory();
+	if (!memoryStream)
+		return false;
+
+	BYTE* data = nullptr;
+	DWORD size = 0;
+	bool success = FreeImage_SaveToMemory(format, m_impl->image, memoryStream) &&
+		FreeImage_AcquireMemory(memoryStream, &data, &size);
+	if (success)
+		outData.assign(data, data + size);
+
+	FreeImage_CloseMemory(memoryStream);
+	return success;
 }
 
 bool Image::initialize(Format format, unsigned int width, unsigned int height,
-- 
2.43.0


From f383cdc897738b78a872ec899043cf932d0ae5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 09/46] fix: load black and white and 4-bit grayscale images

---
 lib/src/Image.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 3eaba48..fb133a2 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -734,6 +734,16 @@ struct Image::Impl
 			if (!image)
 				return nullptr;
 		}
+		else if (FreeImage_GetImageType(image) == FIT_BITMAP && (FreeImage_GetBPP(image) < 8 ||
+			FreeImage_GetColorType(image) == FIC_MINISWHITE))
+		{
+			// Normalize to 8-bit grayscale where 0 is black.
+			FIBITMAP* newImage = FreeImage_ConvertToGreyscale(image);
+			FreeImage_Unload(image);
+			image = newImage;
+			if (!image)
+				return nullptr;
+		}
 
 		if (format == Format::Invalid)
 			format = getFormat(image);
-- 
2.43.0


From d14155c3b5dd78f9d99e418b29eac9b9d394d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 10/46] fix: match file semantics when loading images from
 streams

---
 lib/src/Image.cpp | 49 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index fb133a2..2130ecf 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -223,20 +223,25 @@ struct IStreamHandle
 {
 	std::istream* stream;
 	std::streamoff start;
+	std::streamoff size;
+	// As with standard files, this may be past the end.
+	std::streamoff position;
 };
 
 unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi_handle handle)
 {
-	if (size == 0)
+	auto streamHandle = reinterpret_cast<IStreamHandle*>(handle);
+	if (size == 0 || streamHandle->position >= streamHandle->size)
 		return 0;
 
-	std::istream* stream = reinterpret_cast<IStreamHandle*>(handle)->stream;
+	std::istream* stream = streamHandle->stream;
 	stream->read(reinterpret_cast<char*>(buffer), static_cast<std::streamsize>(size)*count);
-	auto readCount = static_cast<unsigned int>(stream->gcount()/size);
+	std::streamsize readSize = stream->gcount();
+	streamHandle->position += readSize;
 	// Reaching the end of the stream mustn't prevent later seeks and reads.
 	if (stream->eof())
 		stream->clear(stream->rdstate() & ~(std::ios_base::eofbit | std::ios_base::failbit));
-	return readCount;
+	return static_cast<unsigned int>(readSize/size);
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
@@ -247,37 +252,35 @@ unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
 int seekIStream(fi_handle handle, long offset, int origin)
 {
 	auto streamHandle = reinterpret_cast<IStreamHandle*>(handle);
-	std::istream* stream = streamHandle->stream;
-	std::streamoff streamOffset = offset;
-	std::ios_base::seekdir dir;
+	std::streamoff position = offset;
 	switch (origin)
 	{
 		case SEEK_SET:
-			dir = std::ios_base::beg;
-			streamOffset += streamHandle->start;
 			break;
 		case SEEK_CUR:
-			dir = std::ios_base::cur;
+			position += streamHandle->position;
 			break;
 		case SEEK_END:
-			dir = std::ios_base::end;
+			position += streamHandle->size;
 			break;
 		default:
 			return -1;
 	}
-	stream->seekg(streamOffset, dir);
-	if (stream->good())
-		return 0;
 
-	// Failing to seek mustn't prevent later seeks and reads.
-	stream->clear();
-	return -1;
+	if (position < 0)
+		return -1;
+
+	streamHandle->stream->seekg(streamHandle->start + std::min(position, streamHandle->size));
+	if (!streamHandle->stream->good())
+		return -1;
+
+	streamHandle->position = position;
+	return 0;
 }
 
 long tellIStream(fi_handle handle)
 {
-	auto streamHandle = reinterpret_cast<IStreamHandle*>(handle);
-	return static_cast<long>(std::streamoff(streamHandle->stream->tellg()) - streamHandle->start);
+	return static_cast<long>(reinterpret_cast<IStreamHandle*>(handle)->position);
 }
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
@@ -899,7 +902,7 @@ bool Image::load(const char* fileName, ColorSpace colorSpace)
 bool Image::load(std::istream& stream, ColorSpace colorSpace)
 {
 	// Seeking is needed to detect the file type.
-	IStreamHandle handle = {&stream, stream.tellg()};
+	IStreamHandle handle = {&stream, stream.tellg(), 0, 0};
 	if (handle.start < 0)
 	{
 		std::vector<std::uint8_t> data;
@@ -909,6 +912,12 @@ bool Image::load(std::istream& stream, ColorSpace colorSpace)
 
 	reset();
 
+	stream.seekg(0, std::ios_base::end);
+	handle.size = std::streamoff(stream.tellg()) - handle.start;
+	stream.seekg(handle.start);
+	if (!stream.good())
+		return false;
+
 	FREE_IMAGE_FORMAT format = FreeImage_GetFileTypeFromHandle(&istreamIO, &handle);
 	if (format == FIF_UNKNOWN)
 		return false;
-- 
2.43.0


From 35721504254db2334f82f4b6ffd7c6bfd779e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 11/46] fix: size explicit 3D mip levels by their own depth

---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..b45a3c0 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1152,9 +1152,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(Texture::depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From a9302b4d4512d014b76b38f4feb307fa350545f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 12/46] fix: keep custom mips of one face or layer out of the
 next

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index b45a3c0..eef0746 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1456,11 +1456,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From a266e9ed03901e75d489910090bea716cce48e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 13/46] fix: convert custom mips to the color space of the
 texture

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index eef0746..5a14a65 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1427,6 +1427,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1503,6 +1504,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From ce9a7369b66739d8872443ac1af934e513a9a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 14/46] fix: leave textures unchanged when custom 3D mips are
 rejected

---
 lib/src/Texture.cpp | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 5a14a65..4b09922 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1341,6 +1341,33 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
+
+	if (m_impl->dimension == Dimension::Dim3D)
+	{
+		// Check for custom mips before changing anything. If one depth is provided, all must be,
+		// and have consistent replacement between them.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			for (unsigned int d = 1; d < mipDepth; ++d)
+			{
+				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
+				if ((foundCustomMip == customMipImages.end()) !=
+					(firstCustomMip == customMipImages.end()))
+				{
+					return false;
+				}
+
+				if (foundCustomMip != customMipImages.end() &&
+					foundCustomMip->second.replacement != firstCustomMip->second.replacement)
+				{
+					return false;
+				}
+			}
+		}
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
@@ -1355,26 +1382,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			unsigned int mipHeight = height(mip);
 			unsigned int mipDepth = depth(mip);
 
-			// Check for custom mips. If one depth is provided, all must be, and have consistent
-			// replacement between them.
-			bool customMips = false;
-			MipReplacement replacement = MipReplacement::Once;
-			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
-				if (foundCustomMip == customMipImages.end())
-				{
-					if (customMips)
-						return false;
-				}
-				else if (d == 0)
-				{
-					customMips = true;
-					replacement = foundCustomMip->second.replacement;
-				}
-				else if (!customMips || replacement != foundCustomMip->second.replacement)
-					return false;
-			}
+			// Either all or none of the depths have custom mips, with the same replacement.
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			bool customMips = firstCustomMip != customMipImages.end();
+			MipReplacement replacement = customMips ? firstCustomMip->second.replacement :
+				MipReplacement::Once;
 
 			// Generated mips, either when no replacement is used or to resume previous state when
 			// replacement is set to once.
-- 
2.43.0


From 2768e4b565801ffb7c2c8d1a492bd45a3674fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 15/46] fix: discard converted data when mipmaps are generated
 again

---
 lib/src/Texture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 4b09922..e3cc8b4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1371,6 +1371,10 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
+	// Data from a previous conversion doesn't apply to the new mip levels.
+	m_impl->format = Format::Unknown;
+	m_impl->textures.clear();
+
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
 		// Mipmap along X, Y, and Z.
-- 
2.43.0


From 47987e9cc3d7e4e56150e722f5e0fde6f13125bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 16/46] fix: assign the replacement of custom mip images

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index e3cc8b4..377f1b4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -294,6 +294,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
@@ -312,6 +313,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
-- 
2.43.0


From c5efdfaa73c28bdd5dadc0453659e9903bb259f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 17/46] fix: pack the full range of values to unsigned float
 formats

---
 lib/src/StandardConverter.cpp | 67 +++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index d521474..3343928 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -16,9 +16,72 @@
 
 #include "StandardConverter.h"
 
+#include <cstring>
+
 namespace cuttlefish
 {
 
+namespace
+{
+
+// Packs an unsigned float with 5 exponent bits, rounding towards zero. Unlike the GLM version this
+// handles negative values, values below the smallest normal, and values above the largest finite.
+std::uint32_t packUFloat(float value, unsigned int mantissaBits)
+{
+	const std::uint32_t mantissaMask = (1U << mantissaBits) - 1;
+	const std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | mantissaMask;
+	else if (value <= 0.0f)
+		return 0;
+	else if (std::isinf(value))
+		return infinity;
+	else if (value >= 65536.0f)
+		return infinity - 1;
+	else if (value < 1.0f/16384.0f)
+		return static_cast<std::uint32_t>(std::ldexp(value, 14 + static_cast<int>(mantissaBits)));
+
+	std::uint32_t bits;
+	std::memcpy(&bits, &value, sizeof(bits));
+	return (bits >> (23 - mantissaBits)) - ((127U - 15U) << mantissaBits);
+}
+
+std::uint32_t packB10G11R11(const ColorRGBAf& color)
+{
+	return packUFloat(color.r, 6) | (packUFloat(color.g, 6) << 11) |
+		(packUFloat(color.b, 5) << 22);
+}
+
+// The GLM version limits the values to half of the maximum.
+std::uint32_t packE5B9G9R9(const ColorRGBAf& color)
+{
+	const int mantissaBits = 9;
+	const int bias = 15;
+	const float maxValue = 511.0f/512.0f*65536.0f;
+
+	// This will also treat NaN as 0.
+	float r = color.r > 0.0f ? std::min(color.r, maxValue) : 0.0f;
+	float g = color.g > 0.0f ? std::min(color.g, maxValue) : 0.0f;
+	float b = color.b > 0.0f ? std::min(color.b, maxValue) : 0.0f;
+	float maxColor = std::max(r, std::max(g, b));
+	if (maxColor == 0.0f)
+		return 0;
+
+	int exponent;
+	std::frexp(maxColor, &exponent);
+	exponent = std::max(exponent + bias, 0);
+	if (std::ldexp(maxColor, bias + mantissaBits - exponent) + 0.5f >= float(1 << mantissaBits))
+		++exponent;
+
+	const int scale = bias + mantissaBits - exponent;
+	auto rBits = static_cast<std::uint32_t>(std::ldexp(r, scale) + 0.5f);
+	auto gBits = static_cast<std::uint32_t>(std::ldexp(g, scale) + 0.5f);
+	auto bBits = static_cast<std::uint32_t>(std::ldexp(b, scale) + 0.5f);
+	return rBits | (gBits << 9) | (bBits << 18) | (static_cast<std::uint32_t>(exponent) << 27);
+}
+
+} // namespace
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -439,7 +502,7 @@ void B10R11R11UFloatConverter::process(unsigned int x, unsigned int, ThreadData*
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF2x11_1x10(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packB10G11R11(scanline[col]);
 	}
 }
 
@@ -460,7 +523,7 @@ void E5B9G9R9UFloatConverter::process(unsigned int x, unsigned int, ThreadData*)
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF3x9_E1x5(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packE5B9G9R9(scanline[col]);
 	}
 }
 
-- 
2.43.0


From 0374aecfa6593504f93a794e1b582cddfabb34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 18/46] fix: clamp to the limits of 32-bit integer formats

---
 lib/src/Shared.h            | 9 +++++++++
 lib/src/StandardConverter.h | 7 ++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/Shared.h b/lib/src/Shared.h
index 6d0a7f7..d220afc 100644
--- a/lib/src/Shared.h
+++ b/lib/src/Shared.h
@@ -27,6 +27,15 @@
 namespace cuttlefish
 {
 
+inline double clamp(double v, double minVal, double maxVal)
+{
+	if (v < minVal)
+		return minVal;
+	else if (v > maxVal)
+		return maxVal;
+	return v;
+}
+
 inline float clamp(float v, float minVal, float maxVal)
 {
 	if (v < minVal)
diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..bfe5a33 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -163,8 +163,9 @@ public:
 
 	void process(unsigned int x, unsigned int, ThreadData*) override
 	{
-		const float minVal = static_cast<float>(std::numeric_limits<T>::min());
-		const float maxVal = static_cast<float>(std::numeric_limits<T>::max());
+		// Float can't represent the limits of 32-bit integers.
+		const double minVal = std::numeric_limits<T>::min();
+		const double maxVal = std::numeric_limits<T>::max();
 
 		T* curData = reinterpret_cast<T*>(data().data()) + x*batchSize*C;
 		unsigned int row = x*batchSize/image().width();
@@ -184,7 +185,7 @@ public:
 			for (unsigned int c = 0; c < C; ++c)
 			{
 				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+					std::round(clamp(double(scanline[col*4 + c]), minVal, maxVal)));
 			}
 		}
 	}
-- 
2.43.0


From 22beb2405070e7993b1f545b3faeb85c374b8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 19/46] fix: convert NaN to 0 for integer formats

---
 lib/src/Shared.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/Shared.h b/lib/src/Shared.h
index d220afc..6ed49f0 100644
--- a/lib/src/Shared.h
+++ b/lib/src/Shared.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <iosfwd>
 #include <ostream>
@@ -27,9 +28,12 @@
 namespace cuttlefish
 {
 
+// NaN can't be converted to integers, so is treated as 0.
 inline double clamp(double v, double minVal, double maxVal)
 {
-	if (v < minVal)
+	if (std::isnan(v))
+		return 0;
+	else if (v < minVal)
 		return minVal;
 	else if (v > maxVal)
 		return maxVal;
@@ -38,7 +42,9 @@ inline double clamp(double v, double minVal, double maxVal)
 
 inline float clamp(float v, float minVal, float maxVal)
 {
-	if (v < minVal)
+	if (std::isnan(v))
+		return 0;
+	else if (v < minVal)
 		return minVal;
 	else if (v > maxVal)
 		return maxVal;
-- 
2.43.0


From a8183cad1a9c28888550b6d1d8964958eb8eb697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 20/46] fix: report alpha for A4R4G4B4

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 377f1b4..dca9b1a 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -472,6 +472,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From 61bd51a182a1093e58509901490d8676c5d86032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 21/46] fix: keep opaque alpha when adjusting the range of
 16-bit images

---
 lib/src/Texture.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index dca9b1a..19926cb 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1051,16 +1051,18 @@ void Texture::adjustImageValueRange(Image& image, Type type, Image::Format origI
 							}
 							break;
 						case Image::Format::RGB5:
-							multiply[0] = multiply[1] = multiply[2] = float((1 << 5) - 1);
+							// Use the same range for alpha when converted to a format with alpha.
+							multiply[0] = multiply[1] = multiply[2] = multiply[3] =
+								float((1 << 5) - 1);
 							if (type == Type::Int)
-								offset[0] = offset[1] = offset[2] = -float(1 << 4);
+								offset[0] = offset[1] = offset[2] = offset[3] = -float(1 << 4);
 							break;
 						case Image::Format::RGB565:
-							multiply[0] = multiply[2] = float((1 << 5) - 1);
+							multiply[0] = multiply[2] = multiply[3] = float((1 << 5) - 1);
 							multiply[1] = float((1 << 6) - 1);
 							if (type == Type::Int)
 							{
-								offset[0] = offset[2] = -float(1 << 4);
+								offset[0] = offset[2] = offset[3] = -float(1 << 4);
 								offset[1] = -float(1 << 5);
 							}
 							break;
-- 
2.43.0


From 58a1ea1dbffea087eb2a0a94059387ee854b2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 22/46] fix: report errors when saving textures without losing
 files

---
 lib/src/Texture.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 19926cb..c446c04 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1667,10 +1667,18 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	if (fileType == FileType::Auto)
 		fileType = Texture::fileType(fileName);
 
+	// Save to memory first to avoid overwriting an existing file when the texture can't be saved.
+	std::vector<std::uint8_t> data;
+	SaveResult result = save(data, fileType);
+	if (result != SaveResult::Success)
+		return result;
+
 	std::ofstream stream(fileName, std::ofstream::binary);
-	if (!stream.is_open())
-		return SaveResult::WriteError;
-	return save(stream, fileType);
+	stream.write(reinterpret_cast<const char*>(data.data()),
+		static_cast<std::streamsize>(data.size()));
+	// Buffered data is only written once closed.
+	stream.close();
+	return stream.good() ? SaveResult::Success : SaveResult::WriteError;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
@@ -1678,17 +1686,26 @@ Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileTy
 	if (!converted())
 		return SaveResult::Invalid;
 
+	SaveResult result;
 	switch (fileType)
 	{
 		case FileType::DDS:
-			return saveDds(*this, stream);
+			result = saveDds(*this, stream);
+			break;
 		case FileType::KTX:
-			return saveKtx(*this, stream);
+			result = saveKtx(*this, stream);
+			break;
 		case FileType::PVR:
-			return savePvr(*this, stream);
+			result = savePvr(*this, stream);
+			break;
 		default:
 			return SaveResult::UnknownFormat;
 	}
+
+	// Make sure errors writing buffered data are reported.
+	if (result == SaveResult::Success && !stream.flush())
+		return SaveResult::WriteError;
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::vector<std::uint8_t>& outData, Texture::FileType fileType)
-- 
2.43.0


From 9d366ebc2e9868b43e40bba7a466cfc2369c6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 23/46] fix: write the component order of 32-bit formats to KTX
 files

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..1b4f227 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -378,7 +378,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -405,7 +405,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From 1082045c06c89d50e0f13a8344ee5fd9b74a128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 24/46] fix: write the component type of R8G8 to KTX files

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index 1b4f227..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From 22439f1f9b71b3231ed7435d8ee618251ca5862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 25/46] fix: write integer formats as integers to KTX files

---
 lib/src/SaveKtx.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..353df1f 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -289,10 +289,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_R8UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_R8I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				default:
 					return false;
@@ -314,10 +316,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				default:
 					return false;
@@ -341,10 +345,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RGB8UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RGB8I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				default:
 					return false;
@@ -403,6 +409,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return true;
 				case Texture::Type::Int:
 					info.internalFormat = GL_RGBA8I;
+					info.format = GL_BGRA_INTEGER;
 					return true;
 				default:
 					return false;
@@ -486,10 +493,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_R16UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_R16I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -515,10 +524,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RG16UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RG16I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -543,10 +554,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGB16UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGB16I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -571,10 +584,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGBA16UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGBA16I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -592,10 +607,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_R32UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_R32I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -613,10 +630,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RG32UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RG32I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -633,10 +652,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGB32UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGB32I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -653,10 +674,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGBA32UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGBA32I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
-- 
2.43.0


From b329e2cf18af581d478afd912dc4ab425a85bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 26/46] fix: mark cube maps as complex in DDS files

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From 1b1bd4d0b275a756a5cb6287ec415a91d8ed5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 27/46] fix: reject 1D textures with a height

---
 lib/src/Texture.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index c446c04..602ee5b 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1143,8 +1143,11 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 {
 	reset();
 
-	if (width == 0 || height == 0 || (dimension == Dimension::Dim3D && depth == 0))
+	if (width == 0 || height == 0 || (dimension == Dimension::Dim1D && height != 1) ||
+		(dimension == Dimension::Dim3D && depth == 0))
+	{
 		return false;
+	}
 
 	m_impl.reset(new Impl);
 	m_impl->dimension = dimension;
-- 
2.43.0


From 26494e41cdadbf50a2f46d73261bdbcfc32b2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 28/46] fix: don't override the requested type when the format
 comes later

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..5ef7126 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1318,6 +1318,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			typeSet = true;
 			if (strcasecmp(argv[i], "unorm") == 0)
 				type = Texture::Type::UNorm;
 			else if (strcasecmp(argv[i], "snorm") == 0)
-- 
2.43.0


From 4282547cf8c1a4169d181e3e671e673a6d3e10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 29/46] fix: don't mix image lists with other inputs

---
 tool/CommandLine.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 5ef7126..b9ca267 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -840,7 +840,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			log = Log::Verbose;
 		else if (matches(argv[i], "-i", "--input"))
 		{
-			if (!images.empty())
+			if (!images.empty() || imageFile)
 			{
 				std::cerr << invalidInputsError << std::endl;
 				success = false;
@@ -854,11 +854,12 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			images.push_back(argv[++i]);
 		}
 		else if (matches(argv[i], "-a", "--array"))
 		{
-			if (images.empty())
+			if (images.empty() && !imageFile)
 				imageType = ImageType::Array;
 			else if (imageType != ImageType::Array || imageFile)
 			{
@@ -892,7 +893,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-c", "--cube"))
 		{
-			if (images.empty())
+			if (images.empty() && !imageFile)
 			{
 				imageType = ImageType::Cube;
 				images.resize(6);
@@ -931,7 +932,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-C", "--cube-array"))
 		{
-			if (images.empty())
+			if (images.empty() && !imageFile)
 				imageType = ImageType::CubeArray;
 			else if (imageType != ImageType::CubeArray || imageFile)
 			{
@@ -979,7 +980,7 @@ bool CommandLine::parse(int argc, const char** argv)
 		}
 		else if (matches(argv[i], "-I", "--input-list"))
 		{
-			if (!images.empty())
+			if (!images.empty() || imageFile)
 			{
 				std::cerr << invalidInputsError << std::endl;
 				success = false;
@@ -1009,6 +1010,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			if (!readImageList(images, argv[++i]))
 			{
 				success = false;
-- 
2.43.0


From badfe4b3008faec29212eedbe90dd28a554e8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 30/46] fix: reject indices that are out of range on the
 command line

---
 tool/CommandLine.cpp | 61 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index b9ca267..e990aab 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -20,6 +20,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -276,19 +277,27 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool strToIndex(std::size_t& index, const char* str)
 {
-	if (i >= argc - 1)
+	// strtoul() would wrap around negative values.
+	char* endPtr;
+	long long value = std::strtoll(str, &endPtr, 10);
+	if (endPtr != str + std::strlen(str) || value < 0 ||
+		value > std::numeric_limits<unsigned int>::max())
+	{
 		return false;
+	}
 
-	char* endPtr;
-	const char* str = argv[i + 1];
-	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	index = static_cast<std::size_t>(value);
+	return true;
+}
+
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !strToIndex(index, argv[i + 1]))
 		return false;
 
 	++i;
-	index = value;
 	return true;
 }
 
@@ -567,10 +576,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level;
+		if (!strToIndex(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -579,13 +586,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (strToIndex(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
@@ -760,6 +762,15 @@ bool validate(CommandLine& args)
 			return false;
 		}
 
+		// No texture can have this many mip levels.
+		if (customMip.first.mipLevel >= Texture::maxMipmapLevels(Texture::Dimension::Dim2D,
+				std::numeric_limits<unsigned int>::max(), 1))
+		{
+			std::cerr << "error: level " << customMip.first.mipLevel <<
+				" for custom mip out of range" << std::endl;
+			return false;
+		}
+
 		unsigned int thisDepth = depth;
 		if (args.dimension == Texture::Dimension::Dim3D)
 		{
@@ -880,6 +891,14 @@ bool CommandLine::parse(int argc, const char** argv)
 			if (i < argc - 2)
 				readIndex(index, i, argc, argv);
 
+			// There must be at least as many arguments as images.
+			if (index >= static_cast<std::size_t>(argc))
+			{
+				std::cerr << "error: not all images were provided" << std::endl;
+				success = false;
+				break;
+			}
+
 			if (index >= images.size())
 				images.resize(index + 1);
 
@@ -963,6 +982,14 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			// There must be at least as many arguments as images.
+			if (cubeIndex >= static_cast<std::size_t>(argc))
+			{
+				std::cerr << "error: not all images were provided" << std::endl;
+				success = false;
+				break;
+			}
+
 			assert(i < argc - 1);
 			++i;
 			if (cubeIndex*6 >= images.size())
-- 
2.43.0


From 5a2616d6f1f66777178534d8f234bdccfdeeb210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 31/46] fix: reject sizes that are out of range on the command
 line

---
 tool/CommandLine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index e990aab..4ed5166 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -473,8 +473,9 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 	else
 	{
 		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		long long value = std::strtoll(argv[i], &endPtr, 10);
+		if (endPtr != argv[i] + std::strlen(argv[i]) || value <= 0 ||
+			value > std::numeric_limits<int>::max())
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
-- 
2.43.0


From 9958b1bc39ff3a8599929d227ec37d4062217ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 32/46] fix: limit the depth of custom mips by the number of
 cubes

---
 tool/CommandLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 4ed5166..6078511 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -754,6 +754,8 @@ bool validate(CommandLine& args)
 	}
 
 	auto depth = static_cast<unsigned int>(args.images.size());
+	if (args.dimension == Texture::Dimension::Cube)
+		depth /= 6;
 	std::vector<unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
-- 
2.43.0


From bc5454d929abdd24e94639d4ef58e5373257c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 33/46] fix: report failures to set images and generate mipmaps
 in the tool

---
 tool/main.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..9bc4e97 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -339,38 +339,53 @@ bool saveTexture(
 
 	Texture texture(args.dimension, images[0].width(), images[0].height(), depth, 1,
 		args.textureColorSpace);
+	bool imagesSet = true;
 	switch (args.imageType)
 	{
 		case CommandLine::ImageType::Image:
 			assert(images.size() == 1);
-			texture.setImage(std::move(images[0]));
+			imagesSet = texture.setImage(std::move(images[0]));
 			break;
 		case CommandLine::ImageType::Array:
 			for (unsigned int i = 0; i < images.size(); ++i)
-				texture.setImage(std::move(images[i]), 0, i);
+				imagesSet = texture.setImage(std::move(images[i]), 0, i) && imagesSet;
 			break;
 		case CommandLine::ImageType::Cube:
 			assert(images.size() == 6);
 			for (unsigned int i = 0; i < images.size(); ++i)
-				texture.setImage(std::move(images[i]), static_cast<Texture::CubeFace>(i));
+			{
+				imagesSet = texture.setImage(
+					std::move(images[i]), static_cast<Texture::CubeFace>(i)) && imagesSet;
+			}
 			break;
 		case CommandLine::ImageType::CubeArray:
 			assert(images.size() % 6 == 0);
 			for (unsigned int i = 0; i < images.size(); ++i)
 			{
-				texture.setImage(
-					std::move(images[i]), static_cast<Texture::CubeFace>(i % 6), 0, i/6);
+				imagesSet = texture.setImage(
+					std::move(images[i]), static_cast<Texture::CubeFace>(i % 6), 0, i/6) &&
+					imagesSet;
 			}
 			break;
 		default:
 			break;
 	}
 
+	if (!imagesSet)
+	{
+		std::cerr << "error: failed to set the images of the texture" << std::endl;
+		return false;
+	}
+
 	if (args.mipLevels > 1)
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From b5fb6ee0ab2ff5f68fad03ac367ab1dabc68ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 34/46] fix: keep the orientation of rotated custom mips for
 normal maps

---
 tool/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 9bc4e97..f70e03a 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -228,8 +228,13 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 			options |= Image::NormalOptions::KeepSign;
 		image = image.createNormalMap(options, args.normalHeight);
 
+		// The image may have been rotated since it was resized.
 		if (normalWidth != thisWidth || normalHeight != thisHeight)
+		{
+			thisWidth = std::max(image.width() >> mipLevel, 1U);
+			thisHeight = std::max(image.height() >> mipLevel, 1U);
 			image = image.resize(thisWidth, thisHeight, args.resizeFilter);
+		}
 
 		// Image no longer matches the original input.
 		origImageFormat = image.format();
-- 
2.43.0


From 0b66ad060634049b87dbe74a9614e465ce231923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 35/46] fix: don't allocate for more threads than there are
 jobs

---
 lib/src/Converter.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e6fbb77..1497e6e 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -511,11 +511,6 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 	std::vector<std::pair<unsigned int, unsigned int>> jobs;
 	std::vector<std::unique_ptr<ThreadData>> threadData;
 	std::vector<std::thread> threads;
-	if (threadCount > 1)
-	{
-		threadData.reserve(threadCount);
-		threads.reserve(threadCount);
-	}
 
 	textureData.resize(images.size());
 	for (unsigned int mip = 0; mip < images.size(); ++mip)
-- 
2.43.0


From a969febf5b6f38c01b2e1a885cda2818e5e855cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 36/46] fix: resize custom mips of formats that don't support
 the filter

---
 lib/src/Texture.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 602ee5b..9df034c 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -226,6 +226,19 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	}
 }
 
+Image createCustomMip(const Image& image, unsigned int width, unsigned int height,
+	Image::ResizeFilter filter, ColorSpace colorSpace)
+{
+	Image mipImage = image.resize(width, height, filter);
+	// Not all formats support all filters.
+	if (!mipImage)
+		mipImage = image.convert(Image::Format::RGBAF).resize(width, height, filter);
+	if (mipImage.format() != Image::Format::RGBAF)
+		mipImage = mipImage.convert(Image::Format::RGBAF);
+	mipImage.changeColorSpace(colorSpace);
+	return mipImage;
+}
+
 } // namespace
 
 using FaceImageList = std::vector<Image>;
@@ -1446,12 +1459,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 				{
 					auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
 					assert(foundCustomMip != customMipImages.end());
-					Image& thisMipImage = mipImages[d];
-					thisMipImage = foundCustomMip->second.image->resize(
-						mipWidth, mipHeight, filter);
-					if (thisMipImage.format() != Image::Format::RGBAF)
-						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
-					thisMipImage.changeColorSpace(m_impl->colorSpace);
+					mipImages[d] = createCustomMip(*foundCustomMip->second.image, mipWidth,
+						mipHeight, filter, m_impl->colorSpace);
 				}
 			}
 
@@ -1524,11 +1533,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					Image& thisMipImage = m_impl->images[mip][d][f];
 					if (customMip)
 					{
-						thisMipImage = foundCustomMip->second.image->resize(
-							mipWidth, mipHeight, filter);
-						if (thisMipImage.format() != Image::Format::RGBAF)
-							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
-						thisMipImage.changeColorSpace(m_impl->colorSpace);
+						thisMipImage = createCustomMip(*foundCustomMip->second.image, mipWidth,
+							mipHeight, filter, m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From 04ddad96038f08bfce6f012605f8a9de6b50c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 37/46] fix: reject image sizes that FreeImage can't represent

---
 lib/src/Image.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 2130ecf..f74d4c4 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1006,6 +1006,11 @@ bool Image::initialize(Format format, unsigned int width, unsigned int height,
 {
 	reset();
 
+	// FreeImage uses signed sizes.
+	const unsigned int maxSize = std::numeric_limits<int>::max();
+	if (width == 0 || height == 0 || width > maxSize || height > maxSize)
+		return false;
+
 	unsigned int bpp, redMask, greenMask, blueMask;
 	FREE_IMAGE_TYPE type = getFreeImageFormat(format, bpp, redMask, greenMask, blueMask);
 	if (type == FIT_UNKNOWN)
@@ -1378,7 +1383,8 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter) const
 {
 	Image image;
-	if (!m_impl || width == 0 || height == 0)
+	const unsigned int maxSize = std::numeric_limits<int>::max();
+	if (!m_impl || width == 0 || height == 0 || width > maxSize || height > maxSize)
 		return image;
 
 	if (width == m_impl->width && height == m_impl->height)
-- 
2.43.0


From 614c493056b898c2cee1c9828da5bf5c91ef579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 38/46] fix: keep transparent entries of grayscale images

Grayscale PNG images with a tRNS chunk lost their transparency when loaded, while images with
other palettes kept it.
---
 lib/src/Image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f74d4c4..d83910c 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -724,7 +724,10 @@ struct Image::Impl
 		if (!image)
 			return nullptr;
 
-		if (FreeImage_GetColorType(image) == FIC_PALETTE)
+		// Grayscale images may also have transparent entries.
+		if (FreeImage_GetColorType(image) == FIC_PALETTE ||
+			(FreeImage_GetImageType(image) == FIT_BITMAP && FreeImage_GetBPP(image) <= 8 &&
+				FreeImage_IsTransparent(image)))
 		{
 			FIBITMAP* newImage;
 			if (FreeImage_IsTransparent(image))
-- 
2.43.0


From 5d9c3cf116eecac6b2bf2ce36092a6912a67a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 39/46] fix: guard the format lookup when saving images from
 several threads

FreeImage_GetFIFFromFilename() uses strtok(), so saving different images from different threads at
the same time could crash or choose the wrong format.
---
 lib/src/Image.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index d83910c..d2fe134 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -26,6 +26,7 @@
 #include <fstream>
 #include <istream>
 #include <limits>
+#include <mutex>
 #include <ostream>
 
 namespace cuttlefish
@@ -285,6 +286,14 @@ long tellIStream(fi_handle handle)
 
 FreeImageIO istreamIO{&readIStream, &writeIStream, &seekIStream, tellIStream};
 
+FREE_IMAGE_FORMAT getSaveFormat(const char* fileName)
+{
+	// FreeImage uses strtok(), which keeps its state between calls and isn't thread-safe.
+	static std::mutex mutex;
+	std::lock_guard<std::mutex> lock(mutex);
+	return FreeImage_GetFIFFromFilename(fileName);
+}
+
 bool canSave(FREE_IMAGE_FORMAT format, FIBITMAP* image)
 {
 	// Not all FreeImage plugins check this themselves, and will either write garbage or corrupt
@@ -983,7 +992,7 @@ bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
 	if (!m_impl)
 		return false;
 
-	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
+	FREE_IMAGE_FORMAT format = getSaveFormat(fileName);
 	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
-- 
2.43.0


From ece13108ea0011ced3a69041bc1921984fc81c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 40/46] fix: report failed image allocations when generating
 mipmaps

---
 lib/src/Texture.cpp | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 9df034c..fb45442 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -100,10 +100,16 @@ inline std::uint32_t clz(std::uint32_t x)
 #endif
 }
 
-void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>& prevLevelImages,
+bool generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>& prevLevelImages,
 	unsigned int width, unsigned int height, unsigned int depth, ColorSpace colorSpace,
 	Image::ResizeFilter filter)
 {
+	for (const Image& image : prevLevelImages)
+	{
+		if (!image)
+			return false;
+	}
+
 	outMipImages.resize(depth);
 	double invScale = static_cast<double>(prevLevelImages.size())/
 		static_cast<double>(outMipImages.size());
@@ -113,7 +119,9 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	{
 		for (unsigned int d = 0; d < depth; ++d)
 		{
-			outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace);
+			if (!outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace))
+				return false;
+
 			double center = (d + 0.5)*invScale;
 			unsigned int start = std::max(static_cast<int>(center - offset + 0.5), 0);
 			unsigned int end = std::min(
@@ -169,7 +177,9 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	{
 		for (unsigned int d = 0; d < depth; ++d)
 		{
-			outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace);
+			if (!outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace))
+				return false;
+
 			double center = (d + 0.5)*invScale;
 			unsigned int start = std::max(static_cast<int>(center - offset + 0.5), 0);
 			unsigned int end = std::min(
@@ -224,6 +234,8 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 			}
 		}
 	}
+
+	return true;
 }
 
 Image createCustomMip(const Image& image, unsigned int width, unsigned int height,
@@ -1398,6 +1410,15 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
+		// Set up the storage first.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			DepthImageList& depthImages = m_impl->images[mip];
+			depthImages.resize(depth(mip));
+			for (FaceImageList& faceImages : depthImages)
+				faceImages.resize(1);
+		}
+
 		// Mipmap along X, Y, and Z.
 		std::vector<Image> inputImages;
 		std::vector<Image> mipImages;
@@ -1437,8 +1458,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						image = image.resize(mipWidth, mipHeight, filter);
 				}
 
-				generateMips3d(mipImages, inputImages, mipWidth, mipHeight, mipDepth,
-					m_impl->colorSpace, filter);
+				if (!generateMips3d(mipImages, inputImages, mipWidth, mipHeight, mipDepth,
+						m_impl->colorSpace, filter))
+				{
+					return false;
+				}
 			}
 
 			// Set up inputImages based on whether we want to restore state for the next mip.
@@ -1461,17 +1485,15 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					assert(foundCustomMip != customMipImages.end());
 					mipImages[d] = createCustomMip(*foundCustomMip->second.image, mipWidth,
 						mipHeight, filter, m_impl->colorSpace);
+					if (!mipImages[d])
+						return false;
 				}
 			}
 
 			// Move the results into the texture.
 			DepthImageList& depthImages = m_impl->images[mip];
-			depthImages.resize(mipDepth);
 			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				depthImages[d].resize(1);
 				depthImages[d][0] = std::move(mipImages[d]);
-			}
 		}
 	}
 	else
@@ -1517,6 +1539,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							curMip = m_impl->images[mip - 1][d][f].resize(
 								mipWidth, mipHeight, filter);
 						}
+						if (!curMip)
+							return false;
 					}
 
 					// Set up prevImage based on whether we want to restore state for the next mip.
@@ -1538,6 +1562,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					}
 					else
 						thisMipImage = std::move(curMip);
+					if (!thisMipImage)
+						return false;
 				}
 			}
 		}
-- 
2.43.0


From 03e9d7f6334b57731b32ffccad7855014c32e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 41/46] fix: convert with fewer threads when the system can't
 start all of them

---
 lib/src/Converter.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 1497e6e..9186ff9 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cassert>
+#include <system_error>
 #include <thread>
 #include <utility>
 
@@ -558,7 +559,7 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 					for (unsigned int i = 0; i < curThreads; ++i)
 					{
 						Converter::ThreadData* threadDataPtr = threadData[i].get();
-						threads.emplace_back([&curJob, &jobs, &converter, threadDataPtr]()
+						auto threadFunc = [&curJob, &jobs, &converter, threadDataPtr]()
 							{
 								do
 								{
@@ -569,7 +570,19 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 									converter->process(jobs[thisJob].first, jobs[thisJob].second,
 										threadDataPtr);
 								} while (true);
-							});
+							};
+
+						try
+						{
+							threads.emplace_back(threadFunc);
+						}
+						catch (const std::system_error&)
+						{
+							// The system couldn't start another thread. Take its place, which will
+							// process all of the jobs left by the other threads.
+							threadFunc();
+							break;
+						}
 					}
 
 					for (std::thread& thread : threads)
-- 
2.43.0


From 157d90232e9e99c04464ece3e3836aed81ab5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 42/46] fix: round half floats to even on CPUs without half
 float instructions

---
 lib/src/HalfFloat.h         | 41 +++++++++++++++++++++++++++++++++++++
 lib/src/StandardConverter.h | 13 +-----------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/lib/src/HalfFloat.h b/lib/src/HalfFloat.h
index 55fc9df..2940c8b 100644
--- a/lib/src/HalfFloat.h
+++ b/lib/src/HalfFloat.h
@@ -21,6 +21,7 @@
 
 #include <cassert>
 #include <cstdint>
+#include <cstring>
 
 #if CUTTLEFISH_X86_32 || CUTTLEFISH_X86_64
 #include <immintrin.h>
@@ -135,4 +136,44 @@ inline void packHardwareHalfFloat4(std::uint16_t* result, const float* value)
 
 CUTTLEFISH_END_HALF_FLOAT()
 
+// Rounds to nearest even, the same as the hardware implementations.
+inline std::uint16_t packSoftwareHalfFloat(float value)
+{
+	std::uint32_t bits;
+	std::memcpy(&bits, &value, sizeof(bits));
+	std::uint32_t sign = (bits >> 16) & 0x8000U;
+	std::uint32_t absBits = bits & 0x7FFFFFFFU;
+
+	std::uint32_t result;
+	if (absBits > 0x7F800000U) // NaN
+		result = 0x7E00U | ((absBits >> 13) & 0x3FFU);
+	else if (absBits >= 0x47800000U) // 2^16 or greater, including infinity
+		result = 0x7C00U;
+	else
+	{
+		// Half has 13 fewer mantissa bits than float, with further bits lost for denormals.
+		std::uint32_t mantissa, shift;
+		if (absBits >= 0x38800000U) // 2^-14
+		{
+			mantissa = absBits - 0x38000000U; // Adjust exponent bias.
+			shift = 13;
+		}
+		else
+		{
+			mantissa = (absBits & 0x7FFFFFU) | 0x800000U;
+			shift = 126 - (absBits >> 23);
+			if (shift > 25)
+				return static_cast<std::uint16_t>(sign);
+		}
+
+		// Rounding up may overflow to the next exponent or infinity.
+		std::uint32_t remainder = mantissa & ((1U << shift) - 1);
+		std::uint32_t halfway = 1U << (shift - 1);
+		result = mantissa >> shift;
+		if (remainder > halfway || (remainder == halfway && (result & 1)))
+			++result;
+	}
+	return static_cast<std::uint16_t>(sign | result);
+}
+
 } // namespace cuttlefish
diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index bfe5a33..dd10241 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -27,17 +27,6 @@
 #include <cmath>
 #include <limits>
 
-#if CUTTLEFISH_GCC
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wconversion"
-#endif
-
-#include <glm/gtc/packing.hpp>
-
-#if CUTTLEFISH_GCC
-#pragma GCC diagnostic pop
-#endif
-
 namespace cuttlefish
 {
 
@@ -265,7 +254,7 @@ public:
 
 				unsigned int col = (x*batchSize + i) % image().width();
 				for (unsigned int c = 0; c < C; ++c)
-					curData[i*C + c] = glm::packHalf(glm::vec1(scanline[col*4 + c])).x;
+					curData[i*C + c] = packSoftwareHalfFloat(scanline[col*4 + c]);
 			}
 		}
 	}
-- 
2.43.0


From 9569bd945b229cae5fad84c44c4c5957e64850d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 43/46] fix: keep a texture's own images alive when used as
 custom mip images

---
 lib/src/Texture.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index fb45442..983c5c4 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1401,8 +1401,12 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 	}
 
+	// Images of this texture may be used as custom mip images, so keep the previous mip levels until
+	// finished. Swapping the lists doesn't move the images themselves.
 	m_impl->mipLevels = mipLevels;
-	m_impl->images.resize(mipLevels);
+	MipImageList prevImages(mipLevels);
+	prevImages.swap(m_impl->images);
+	prevImages[0].swap(m_impl->images[0]);
 
 	// Data from a previous conversion doesn't apply to the new mip levels.
 	m_impl->format = Format::Unknown;
-- 
2.43.0


From 028581a884e84fdec69f20331e47d67a95d02655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 44/46] fix: keep precision when resizing sRGB images with few
 bits per channel

---
 lib/src/Image.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index d2fe134..5d8e0a8 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1408,11 +1408,30 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 	// Resize in linear space.
 	if (m_impl->colorSpace != ColorSpace::Linear)
 	{
-		image = *this;
+		// Use floating point in linear space to avoid losing precision, especially for dark colors.
+		Format linearFormat = m_impl->format;
+		switch (m_impl->format)
+		{
+			case Format::Gray8:
+				linearFormat = Format::Float;
+				break;
+			case Format::RGB5:
+			case Format::RGB565:
+			case Format::RGB8:
+				linearFormat = Format::RGBF;
+				break;
+			case Format::RGBA8:
+				linearFormat = Format::RGBAF;
+				break;
+			default:
+				break;
+		}
+
+		image = convert(linearFormat);
 		image.changeColorSpace(ColorSpace::Linear);
 		image = image.resize(width, height, filter);
 		image.changeColorSpace(m_impl->colorSpace);
-		return image;
+		return image.convert(m_impl->format);
 	}
 
 	FREE_IMAGE_FILTER fiFilter = FILTER_BOX;
-- 
2.43.0


From 25afc4feba6a947944f941645782ea8ab50dc9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 45/46] fix: never lose slices on the edge of the box filter in
 3D mipmaps

---
 lib/src/Texture.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 983c5c4..f2eaafd 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -136,7 +136,8 @@ bool generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 					unsigned int totalScale = 0;
 					for (unsigned int i = start; i < end; ++i)
 					{
-						if (std::abs(i + 0.5 - center)*filterScale > 0.5)
+						// Allow for rounding so slices on the edge are never lost.
+						if (std::abs(i + 0.5 - center)*filterScale > 0.5 + 1e-9)
 							continue;
 
 						auto srcScanline = reinterpret_cast<const ColorRGBAf*>(
-- 
2.43.0


From ae990291e2d27031f5cbdd414f6286c80d43f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:09 +0000
Subject: [PATCH 46/46] fix: refuse to save images too large for the 16-bit
 sizes of TGA and GIF

---
 lib/src/Image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 5d8e0a8..d2a32b2 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -302,6 +302,14 @@ bool canSave(FREE_IMAGE_FORMAT format, FIBITMAP* image)
 	if (!FreeImage_FIFSupportsWriting(format) || !FreeImage_FIFSupportsExportType(format, type))
 		return false;
 
+	// The size is stored as 16-bit values, which FreeImage silently truncates.
+	const unsigned int maxSize = std::numeric_limits<std::uint16_t>::max();
+	if ((format == FIF_TARGA || format == FIF_GIF) &&
+		(FreeImage_GetWidth(image) > maxSize || FreeImage_GetHeight(image) > maxSize))
+	{
+		return false;
+	}
+
 	return type != FIT_BITMAP ||
 		FreeImage_FIFSupportsExportBPP(format, static_cast<int>(FreeImage_GetBPP(image)));
 }
-- 
2.43.0


#include "fault.h"
#include <FreeImage.h>
#include <system_error>
#include <thread>

namespace fault
{

Plan& plan()
{
	static Plan p;
	return p;
}

ThreadPlan& threads()
{
	static ThreadPlan p = {{-1}, {0}};
	return p;
}

bool strike()
{
	Plan& p = plan();
	if (!p.armed.load(std::memory_order_relaxed) || script::Pause::depth() > 0)
		return false;
	long n = ++p.seen;
	long at = p.at;
	if (at == 0 || (p.sticky ? n < at : n != at))
		return false;
	++p.struck;
	return true;
}

} // namespace fault

// std::thread::_M_start_thread(std::unique_ptr<_State>, void (*)())
#define START_THREAD(PREFIX) \
	PREFIX##_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE
extern "C" void START_THREAD(__real_)(void* self, void* state, void (*depend)());
extern "C" void START_THREAD(__wrap_)(void* self, void* state, void (*depend)());
void START_THREAD(__wrap_)(void* self, void* state, void (*depend)())
{
	fault::ThreadPlan& p = fault::threads();
	if (p.left >= 0 && p.left-- == 0)
	{
		p.left = 0;
		++p.refused;
		throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again),
			"injected");
	}
	START_THREAD(__real_)(self, state, depend);
}

#define WRAP(RET, NAME, PARAMS, ARGS) \
	extern "C" RET __real_FreeImage_##NAME PARAMS; \
	extern "C" RET __wrap_FreeImage_##NAME PARAMS; \
	RET __wrap_FreeImage_##NAME PARAMS {return fault::strike() ? (RET)0 : __real_FreeImage_##NAME ARGS;}
#define WRAP1(NAME) WRAP(FIBITMAP*, NAME, (FIBITMAP* a), (a))

WRAP(FIBITMAP*, Allocate, (int w, int h, int b, unsigned r, unsigned g, unsigned bl), (w, h, b, r, g,
	bl))
WRAP(FIBITMAP*, AllocateT, (FREE_IMAGE_TYPE t, int w, int h, int b, unsigned r, unsigned g,
	unsigned bl), (t, w, h, b, r, g, bl))
WRAP1(Clone)
WRAP1(ConvertTo8Bits)
WRAP1(ConvertToGreyscale)
WRAP1(ConvertTo16Bits555)
WRAP1(ConvertTo16Bits565)
WRAP1(ConvertTo24Bits)
WRAP1(ConvertTo32Bits)
WRAP1(ConvertToFloat)
WRAP1(ConvertToRGBF)
WRAP1(ConvertToRGBAF)
WRAP1(ConvertToUINT16)
WRAP1(ConvertToRGB16)
WRAP1(ConvertToRGBA16)
WRAP(FIBITMAP*, ConvertToStandardType, (FIBITMAP* a, BOOL b), (a, b))
WRAP(FIBITMAP*, ConvertToType, (FIBITMAP* a, FREE_IMAGE_TYPE t, BOOL b), (a, t, b))
WRAP(FIBITMAP*, Rotate, (FIBITMAP* a, double d, const void* c), (a, d, c))
WRAP(FIBITMAP*, Rescale, (FIBITMAP* a, int w, int h, FREE_IMAGE_FILTER f), (a, w, h, f))
WRAP(FIBITMAP*, Copy, (FIBITMAP* a, int l, int t, int r, int b), (a, l, t, r, b))
WRAP(FIBITMAP*, Load, (FREE_IMAGE_FORMAT f, const char* n, int g), (f, n, g))
WRAP(FIBITMAP*, LoadFromHandle, (FREE_IMAGE_FORMAT f, FreeImageIO* io, fi_handle h, int g), (f, io, h,
	g))
WRAP(FIBITMAP*, LoadFromMemory, (FREE_IMAGE_FORMAT f, FIMEMORY* m, int g), (f, m, g))
WRAP(FIMEMORY*, OpenMemory, (BYTE* d, DWORD s), (d, s))
WRAP(BOOL, SaveToMemory, (FREE_IMAGE_FORMAT f, FIBITMAP* a, FIMEMORY* m, int g), (f, a, m, g))

// Stand-ins for the block compression libraries, which aren't in this sandbox. Instead of
// compressing, an encoder writes a digest of what it was asked to encode: which kind of block, and
// the values it would take into account. The properties compute the digests they expect from the
// texture's pixels.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace standin
{

// Writes size bytes that depend on all of the payload.
void digest(void* out, std::size_t size, const char* tag, const void* payload, std::size_t length);

// One call of an encoder, with what doesn't change the digest.
struct Call
{
	const char* tag;
	double effort;
	bool perceptual;
	bool alphaWeight;
};

// Misuse of a library: encoding before it was initialized, an option object used after it was
// destroyed or by two threads at once. Empty when there was none.
std::string misuse();
void report(const char* what);
// Forgets calls and misuse.
void reset(bool keepCalls);
std::vector<Call> calls();
void called(const char* tag, double effort, bool perceptual = false, bool alphaWeight = false);
// Option objects and contexts that are alive.
long liveOptions();
long liveContexts();

} // namespace standin

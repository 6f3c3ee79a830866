// Fault injection into the image storage: the linker sends the library's calls of FreeImage's
// allocating functions here (check.py, WRAPS), and a plan decides which of them fail.
#pragma once
#include "script.h"
#include <atomic>

namespace fault
{

struct Plan
{
	std::atomic<bool> armed;
	std::atomic<long> seen;   // calls while armed
	std::atomic<long> at;     // the call that fails, counted from 1; 0 for none
	std::atomic<bool> sticky; // so do all later ones
	std::atomic<long> struck;
};

Plan& plan();

inline void arm(long at, bool sticky)
{
	Plan& p = plan();
	p.seen = 0;
	p.struck = 0;
	p.at = at;
	p.sticky = sticky;
	p.armed = true;
}

// Thread starts of the library: those from the n-th on fail (0 for none).
struct ThreadPlan
{
	std::atomic<long> left; // starts that still work; negative for all
	std::atomic<long> refused;
};

ThreadPlan& threads();

inline void disarm() {plan().armed = false;}

} // namespace fault

// Reference resampler: normalised weighted averages with the published filter kernels.
#pragma once
#include "common.h"

struct Tap {unsigned int first; std::vector<double> w;};

inline double filterWidth(Image::ResizeFilter f)
{
	switch (f)
	{
		case Image::ResizeFilter::Box: return 0.5;
		case Image::ResizeFilter::Linear: return 1;
		default: return 2;
	}
}

// Samples exactly on the edge of a box may fall on either side numerically: tie selects whether
// both edges (0), only the right (1) or only the left (2) edge counts.
inline double filterKernel(Image::ResizeFilter f, double x, int tie)
{
	if (f == Image::ResizeFilter::Box)
	{
		double lo = tie == 1 ? -1e-7 : 1e-7, hi = tie == 2 ? -1e-7 : 1e-7;
		return x >= -0.5 - lo && x <= 0.5 + hi ? 1 : 0;
	}
	x = std::abs(x);
	switch (f)
	{
		case Image::ResizeFilter::Box:
			return 0;
		case Image::ResizeFilter::Linear: return x < 1 ? 1 - x : 0;
		case Image::ResizeFilter::Cubic:
		{
			const double b = 1/3.0, c = 1/3.0;
			if (x < 1)
				return ((12 - 9*b - 6*c)*x*x*x + (-18 + 12*b + 6*c)*x*x + (6 - 2*b))/6;
			if (x < 2)
				return ((-b - 6*c)*x*x*x + (6*b + 30*c)*x*x + (-12*b - 48*c)*x + (8*b + 24*c))/6;
			return 0;
		}
		case Image::ResizeFilter::CatmullRom:
			if (x < 1)
				return 0.5*(2 + x*x*(-5 + x*3));
			if (x < 2)
				return 0.5*(4 + x*(-8 + x*(5 - x)));
			return 0;
		case Image::ResizeFilter::BSpline:
			if (x < 1)
				return (4 + x*x*(-6 + x*3))/6;
			if (x < 2)
				return (2 - x)*(2 - x)*(2 - x)/6;
			return 0;
	}
	return 0;
}

inline std::vector<Tap> makeTaps(Image::ResizeFilter f, unsigned int src, unsigned int dst, int tie)
{
	std::vector<Tap> r(dst);
	const double scale = double(dst)/src;
	const double width = scale < 1 ? filterWidth(f)/scale : filterWidth(f);
	const double fscale = scale < 1 ? scale : 1;
	for (unsigned int u = 0; u < dst; ++u)
	{
		const double center = (u + 0.5)/scale;
		int left = std::max(0, int(std::floor(center - width)) - 1);
		int right = std::min(int(src), int(std::ceil(center + width)) + 2);
		double total = 0;
		Tap t;
		t.first = unsigned(left);
		for (int i = left; i < right; ++i)
		{
			// Only whole samples inside the support window count.
			double w = filterKernel(f, fscale*(i + 0.5 - center), tie);
			t.w.push_back(w);
			total += w;
		}
		for (double& w : t.w)
			w /= total;
		r[u] = t;
	}
	return r;
}

// Planar single channel resample. If quant > 0, values are clamped and rounded to that many steps
// after each pass, as happens when the intermediate is stored in the pixel format.
inline std::vector<double> resamplePlane(const std::vector<double>& in, unsigned int w,
	unsigned int h, unsigned int nw, unsigned int nh, const std::vector<Tap>& tx,
	const std::vector<Tap>& ty, bool xFirst, double quant)
{
	auto q = [quant](double v)
	{
		if (quant <= 0)
			return v;
		return std::floor(clampd(v, 0, 1)*quant + 0.5)/quant;
	};
	std::vector<double> mid, out(std::size_t(nw)*nh);
	if (xFirst)
	{
		mid.resize(std::size_t(nw)*h);
		for (unsigned int y = 0; y < h; ++y)
		{
			for (unsigned int x = 0; x < nw; ++x)
			{
				double v = 0;
				if (nw == w)
					v = in[std::size_t(y)*w + x];
				else
				{
					for (std::size_t i = 0; i < tx[x].w.size(); ++i)
						v += tx[x].w[i]*in[std::size_t(y)*w + tx[x].first + i];
				}
				mid[std::size_t(y)*nw + x] = q(v);
			}
		}
		for (unsigned int y = 0; y < nh; ++y)
		{
			for (unsigned int x = 0; x < nw; ++x)
			{
				double v = 0;
				if (nh == h)
					v = mid[std::size_t(y)*nw + x];
				else
				{
					for (std::size_t i = 0; i < ty[y].w.size(); ++i)
						v += ty[y].w[i]*mid[std::size_t(ty[y].first + i)*nw + x];
				}
				out[std::size_t(y)*nw + x] = quant > 0 ? clampd(v, 0, 1) : v;
			}
		}
	}
	else
	{
		mid.resize(std::size_t(w)*nh);
		for (unsigned int y = 0; y < nh; ++y)
		{
			for (unsigned int x = 0; x < w; ++x)
			{
				double v = 0;
				if (nh == h)
					v = in[std::size_t(y)*w + x];
				else
				{
					for (std::size_t i = 0; i < ty[y].w.size(); ++i)
						v += ty[y].w[i]*in[std::size_t(ty[y].first + i)*w + x];
				}
				mid[std::size_t(y)*w + x] = q(v);
			}
		}
		for (unsigned int y = 0; y < nh; ++y)
		{
			for (unsigned int x = 0; x < nw; ++x)
			{
				double v = 0;
				if (nw == w)
					v = mid[std::size_t(y)*w + x];
				else
				{
					for (std::size_t i = 0; i < tx[x].w.size(); ++i)
						v += tx[x].w[i]*mid[std::size_t(y)*w + tx[x].first + i];
				}
				out[std::size_t(y)*nw + x] = quant > 0 ? clampd(v, 0, 1) : v;
			}
		}
	}
	return out;
}

// Checks that dst is src resized with the filter. Throws through CHECK_P with the given key prefix.
// extraTol is added to the tolerance (absolute, in stored units).
inline void checkResize(const Snap& src, const Snap& dst, Image::ResizeFilter filter,
	const std::string& key, const std::string& what, double extraQuanta = 0)
{
	const FmtInfo& f = fmt(src.format);
	CHECK_P(dst.format == src.format && dst.cs == src.cs, key + "-meta", what <<
		": resize changed format or colour space");
	int channels = f.channels;
	std::vector<Tap> tx[3], ty[3];
	int ties = filter == Image::ResizeFilter::Box ? 3 : 1;
	for (int t = 0; t < ties; ++t)
	{
		tx[t] = makeTaps(filter, src.w, dst.w, t);
		ty[t] = makeTaps(filter, src.h, dst.h, t);
	}
	bool srgb = src.cs == ColorSpace::sRGB;
	// UInt16 is filtered and clamped like a normalized format.
	const double unit = f.f == IF::UInt16 ? 65535.0 : 1.0;
	for (int c = 0; c < channels; ++c)
	{
		bool conv = srgb && c < 3;
		std::vector<double> in(src.px.size());
		double peak = 0;
		for (std::size_t i = 0; i < in.size(); ++i)
		{
			in[i] = src.px[i].c[c]/unit;
			if (conv)
				in[i] = refToLinear(in[i]);
			peak = std::max(peak, std::abs(in[i]));
		}
		bool unorm = f.kind == Kind::UNorm || f.f == IF::UInt16;
		// sRGB images with few bits are filtered as floating point.
		const bool narrow = srgb && f.kind == Kind::UNorm && f.maxv[c] < 65535;
		double quantum = unorm ? 1/f.maxv[c] : f.kind == Kind::Raw ? 1.0 : 0;
		double tol;
		if (narrow)
			tol = 3e-6;
		else if (unorm)
			tol = quantum*((conv ? 2.2 : 0.2) + (filter == Image::ResizeFilter::Cubic ||
				filter == Image::ResizeFilter::CatmullRom ? 2 : 1.5) + extraQuanta);
		else if (f.kind == Kind::Raw)
			tol = 1.001 + extraQuanta;
		else
			tol = (f.f == IF::Double || f.f == IF::Complex ? 1e-9 : 3e-6)*peak + 1e-30;
		std::vector<std::vector<double>> refs;
		for (int a = 0; a < ties; ++a)
		{
			for (int b = 0; b < ties; ++b)
			{
				bool clampBetween = unorm && !narrow && f.f != IF::RGB5 && f.f != IF::RGB565;
				double q = clampBetween ? f.maxv[c] : 0;
				refs.push_back(resamplePlane(in, src.w, src.h, dst.w, dst.h, tx[a], ty[b], true, q));
				refs.push_back(resamplePlane(in, src.w, src.h, dst.w, dst.h, tx[a], ty[b], false, q));
			}
		}
		for (unsigned int y = 0; y < dst.h; ++y)
		{
			for (unsigned int x = 0; x < dst.w; ++x)
			{
				double got = dst.at(x, y).c[c]/unit;
				bool ok = false;
				double ref0 = 0;
				for (const auto& ref : refs)
				{
					double v = ref[std::size_t(y)*dst.w + x];
					double lo = v - tol, hi = v + tol;
					if (narrow && !conv)
					{
						lo -= 0.5*quantum;
						hi += 0.5*quantum;
					}
					if (conv)
					{
						double slack = unorm ? 0.5*quantum + 1e-5 : (std::abs(got) + 1)*2e-6;
						lo = refToSRGB(lo) - slack;
						hi = refToSRGB(hi) + slack;
					}
					if (unorm)
					{
						lo = std::min(lo, 1.0);
						hi = std::max(hi, 0.0);
					}
					ref0 = conv ? refToSRGB(v) : v;
					if (got >= lo && got <= hi)
					{
						ok = true;
						break;
					}
				}
				CHECK_P(ok, key + "-value", what << ": pixel (" << x << "," << y << ") channel " << c <<
					" is " << got << ", the filter gives " << ref0 << " (tolerance " << tol << ")");
			}
		}
	}
}

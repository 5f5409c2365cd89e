// Helpers shared by the harnesses.
#pragma once
#include <stingraykit/function/function.h>
#include <stingraykit/function/function_info.h>
namespace vh
{
	// a lambda as a function object with a declared signature
	template <typename Sig_, typename F_> struct FnObj;
	template <typename R_, typename... Ts, typename F_>
	struct FnObj<R_ (Ts...), F_> : public stingray::function_info<R_ (Ts...)>
	{
		mutable F_ f;
		explicit FnObj(const F_& f_) : f(f_) { }
		R_ operator () (Ts... args) const { return f(std::forward<Ts>(args)...); }
	};
	template <typename Sig_, typename F_> stingray::function<Sig_> Fn(const F_& f) { return stingray::function<Sig_>(FnObj<Sig_, F_>(f)); }
}

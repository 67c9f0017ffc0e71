#pragma once
namespace vth {
template <class T> class holder
{
	T *p_ = nullptr;
public:
	holder() {}
	explicit holder(T *p) : p_(p) {}
	T *get() const { return p_; }
	T &operator*() const { return *p_; }
	T *operator->() const { return p_; }
};
} // namespace vth

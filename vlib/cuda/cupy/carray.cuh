// Stand-in for cupy/carray.cuh: the same layout and indexing, with bounds
#pragma once
#include "../emu.h"

template <typename T, int ndim_>
class CArray {
public:
    static const int ndim = ndim_;
private:
    T* data_;
    ptrdiff_t size_;
    ptrdiff_t shape_[ndim ? ndim : 1];
    ptrdiff_t strides_[ndim ? ndim : 1];
public:
    ptrdiff_t size() const { return size_; }
    const ptrdiff_t* shape() const { return shape_; }
    const ptrdiff_t* strides() const { return strides_; }

    T& at(ptrdiff_t off) const
    { return *reinterpret_cast<T*>(reinterpret_cast<char*>(
          const_cast<typename std::remove_const<T>::type*>(data_)) + off); }

    T& operator[](const ptrdiff_t (&idx)[ndim ? ndim : 1]) const
    {
        ptrdiff_t off = 0;
        for(int d = 0; d < ndim; ++d)
        {
            if(idx[d] < 0 || idx[d] >= shape_[d])
                emu::fail("index outside the array");
            off += strides_[d]*idx[d];
        }
        return at(off);
    }

    T& operator[](ptrdiff_t i) const
    {
        // an address of element 0 of an empty array may be taken
        if(i < 0 || (i >= size_ && !(i == 0 && size_ == 0)))
            emu::fail("index outside the array");
        ptrdiff_t off = 0;
        if(size_ == 0)
            return at(0);
        for(int d = ndim - 1; d > 0; --d)
        {
            off += strides_[d]*(i % shape_[d]);
            i /= shape_[d];
        }
        if(ndim > 0)
            off += strides_[0]*i;
        return at(off);
    }
};

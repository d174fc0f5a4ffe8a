// Conversions between the library's arrays and vectors.
#pragma once
#include "la.hpp"
#include <vector>
#include <xtensor/xarray.hpp>

using Arr = xt::xarray<double, xt::layout_type::row_major>;
using la::Mat;
using la::R;
using la::Vec;
using DV = std::vector<double>;

inline Arr toArr(const DV& v)
{
    Arr a = Arr::from_shape({v.size()});
    for (size_t i = 0; i < v.size(); ++i) a(i) = v[i];
    return a;
}
inline DV toDV(const Arr& a) { return DV(a.begin(), a.end()); }

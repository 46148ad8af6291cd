// only the element types that the harnesses run (the explicit instantiations are otherwise identical templates)
#pragma once
#include <dlaf/common/eti.h>
#undef DLAF_EXPAND_ETI_SDCZ_DEVICE
#define DLAF_EXPAND_ETI_SDCZ_DEVICE(ETI_MACRO, KWORD) ETI_MACRO(KWORD, double, Device::CPU); ETI_MACRO(KWORD, std::complex<double>, Device::CPU)
#undef DLAF_EXPAND_ETI_SDCZ_DEVICE_VA_ARGS
#define DLAF_EXPAND_ETI_SDCZ_DEVICE_VA_ARGS(ETI_MACRO, KWORD, ...) ETI_MACRO(KWORD, double, Device::CPU, __VA_ARGS__); ETI_MACRO(KWORD, std::complex<double>, Device::CPU, __VA_ARGS__)

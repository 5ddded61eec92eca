// The element-type tables of dtype.h as constants, one function per fact.
#include "core/dtype.h"
#include "api/cpp/dtype.h"
#include <type_traits>

namespace verif_witness {
    template<typename T> struct size_of { enum { v = sizeof(T) }; };
    template<> struct size_of<void> { enum { v = 0 }; };

    template<typename T> struct core_of { enum { id = ts::dtypeid<T>::id, same = std::is_same<T, typename ts::dtype<ts::dtypeid<T>::id>::declare>::value }; };
    template<typename T> struct api_of { enum { id = ts::api::dtypeid<T>::id, same = std::is_same<T, typename ts::api::dtype<ts::api::dtypeid<T>::id>::declare>::value }; };

    template<typename T> struct kind_of { enum { v = std::is_floating_point<T>::value ? 2 : std::is_signed<T>::value ? 1 : 0 }; };

    struct Fact { int table, index, size, kind, id, same; };

#define CORE(I) static Fact core_##I() { typedef ts::dtype<ts::DTYPE(I)>::declare T; \
        Fact f = { 0, I, size_of<T>::v, kind_of<T>::v, core_of<T>::id, core_of<T>::same }; return f; } \
    Fact use_core_##I() { return core_##I(); }
#define API(I) static Fact api_##I() { typedef ts::api::dtype<ts_DTYPE(I)>::declare T; \
        Fact f = { 1, I, size_of<T>::v, kind_of<T>::v, api_of<T>::id, api_of<T>::same }; return f; } \
    Fact use_api_##I() { return api_##I(); }
#define BACK(NAME, T) static Fact back_##NAME() { \
        Fact f = { 2, 0, size_of<T>::v, kind_of<T>::v, core_of<T>::id, core_of<T>::same }; return f; } \
    Fact use_back_##NAME() { return back_##NAME(); } \
    static Fact aback_##NAME() { \
        Fact f = { 3, 0, size_of<T>::v, kind_of<T>::v, api_of<T>::id, api_of<T>::same }; return f; } \
    Fact use_aback_##NAME() { return aback_##NAME(); }

    CORE(0) CORE(1) CORE(2) CORE(3) CORE(4) CORE(5) CORE(6) CORE(7) CORE(8) CORE(9) CORE(10) CORE(11) CORE(12) CORE(13) CORE(14) CORE(15)
    CORE(16) CORE(17) CORE(18) CORE(19) CORE(20) CORE(21) CORE(22) CORE(23) CORE(24) CORE(25) CORE(26) CORE(27) CORE(28) CORE(29) CORE(30) CORE(31)
    CORE(32) CORE(33) CORE(34) CORE(35) CORE(36) CORE(37) CORE(38) CORE(39)
    API(0) API(1) API(2) API(3) API(4) API(5) API(6) API(7) API(8) API(9) API(10) API(11) API(12) API(13) API(14) API(15)
    BACK(i8, int8_t) BACK(u8, uint8_t) BACK(i16, int16_t) BACK(u16, uint16_t) BACK(i32, int32_t) BACK(u32, uint32_t) BACK(i64, int64_t) BACK(u64, uint64_t)
    BACK(f32, float) BACK(f64, double) BACK(ptr, void *) BACK(c8, char) BACK(c16, char16_t) BACK(c32, char32_t) BACK(bl, bool)
}

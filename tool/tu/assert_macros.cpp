// Witness unit: one use of every checking macro, so that the rule can look at what each expands to.
#include "utils/assert.h"

namespace verif_witness {
    using namespace ts;
    void auto_check_0(int a) { TS_AUTO_CHECK(a); }
    void auto_assert_0(int a) { TS_AUTO_ASSERT(a); }
    void check_0(int a) { TS_CHECK(a) << ts::eject; }
    void assert_0(int a) { TS_ASSERT(a) << ts::eject; }
    void auto_check_EQ(int a, int b) { TS_AUTO_CHECK_EQ(a, b); }
    void auto_check_NQ(int a, int b) { TS_AUTO_CHECK_NQ(a, b); }
    void auto_check_LE(int a, int b) { TS_AUTO_CHECK_LE(a, b); }
    void auto_check_GE(int a, int b) { TS_AUTO_CHECK_GE(a, b); }
    void auto_check_LT(int a, int b) { TS_AUTO_CHECK_LT(a, b); }
    void auto_check_GT(int a, int b) { TS_AUTO_CHECK_GT(a, b); }
    void check_EQ(int a, int b) { TS_CHECK_EQ(a, b) << ts::eject; }
    void check_NQ(int a, int b) { TS_CHECK_NQ(a, b) << ts::eject; }
    void check_LE(int a, int b) { TS_CHECK_LE(a, b) << ts::eject; }
    void check_GE(int a, int b) { TS_CHECK_GE(a, b) << ts::eject; }
    void check_LT(int a, int b) { TS_CHECK_LT(a, b) << ts::eject; }
    void check_GT(int a, int b) { TS_CHECK_GT(a, b) << ts::eject; }
    void log_error() { TS_LOG_ERROR << "x" << ts::eject; }
    void log_fatal() { TS_LOG_FATAL << "x" << ts::eject; }
}

// Brings every function of the header-only C++ client wrapper into the analysed program.
#include "api/cpp/device.h"
#include "api/cpp/dtype.h"
#include "api/cpp/except.h"
#include "api/cpp/image_filter.h"
#include "api/cpp/intime.h"
#include "api/cpp/module.h"
#include "api/cpp/operator.h"
#include "api/cpp/program.h"
#include "api/cpp/stream.h"
#include "api/cpp/tensor.h"
#include "api/cpp/workbench.h"
#include "api/cpp/tennis.h"

namespace verif_witness {
    using namespace ts::api;

    class Op : public Operator {
    public:
        void init(const OperatorParams &, ts_OperatorContext *) override {}
        std::vector<std::pair<DTYPE, Shape>> infer(const std::vector<Tensor> &, ts_OperatorContext *) override { return {}; }
        std::vector<Tensor> run(const std::vector<Tensor> &, ts_OperatorContext *) override { return {}; }
    };

    template<typename T>
    void build_all(const T &v, const std::vector<T> &l, const T *p) {
        tensor::from(v);
        tensor::from(l);
        tensor::build(FLOAT32, v);
        tensor::build(FLOAT32, l);
        tensor::build(FLOAT32, size_t(1), p);
        tensor::build(FLOAT32, Shape({1}), l);
        tensor::build(FLOAT32, Shape({1}), p);
    }

    void use_all() {
        RegisterOperator<Op>("cpu", "op");
        build_all<float>(0, {}, nullptr);
        build_all<int32_t>(0, {}, nullptr);
    }
}

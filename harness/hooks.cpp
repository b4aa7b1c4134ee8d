// Implements the hooks declared in mlrl/common/util/verif_hooks.hpp: records an event log that is fetched via ctypes.
// The log is only written to while training (single caller thread) and is guarded by a mutex nevertheless.
#include "mlrl/common/indices/index_vector.hpp"
#include "mlrl/common/model/condition.hpp"
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/weight_vector_bit.hpp"
#include "mlrl/common/sampling/weight_vector_dense.hpp"
#include "mlrl/common/statistics/statistics.hpp"
#include "mlrl/common/util/verif_hooks.hpp"

#include <cstdio>
#include <mutex>
#include <string>

static std::mutex mtx;
static std::string logText;
static bool enabled = false;
static bool evaluate = false;

extern "C" void mlrl_verif_reset(int on, int eval) {
    std::lock_guard<std::mutex> g(mtx);
    logText.clear();
    enabled = on != 0;
    evaluate = eval != 0;
}

extern "C" const char* mlrl_verif_log() {
    return logText.c_str();
}

static void num(double v) {
    char buf[40];
    std::snprintf(buf, sizeof(buf), " %.17g", v);
    logText += buf;
}

static void indices(const IIndexVector& v) {
    uint32 n = v.getNumElements();
    for (uint32 i = 0; i < n; i++) num(v.getIndex(i));
}

static void evals(const IStatistics& statistics) {
    if (!evaluate) return;
    uint32 n = statistics.getNumStatistics();
    for (uint32 i = 0; i < n; i++) num(statistics.evaluatePrediction(i));
}

namespace verif {

    void onPartition(const IPartition& partition, uint32 numExamples) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        const BiPartition* bi = dynamic_cast<const BiPartition*>(&partition);
        logText += bi ? "P bi" : "P single";
        num(numExamples);
        if (bi) {
            num(bi->getNumFirst());
            num(bi->getNumSecond());
            for (auto it = bi->first_cbegin(); it != bi->first_cend(); it++) num(*it);
            for (auto it = bi->second_cbegin(); it != bi->second_cend(); it++) num(*it);
        }
        logText += "\n";
    }

    void onStoppingTest(const IStatistics& statistics, uint32 numRules, bool stop, uint32 numUsedRules) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        logText += "T";
        num(numRules);
        num(stop);
        num(numUsedRules);
        evals(statistics);
        logText += "\n";
    }

    void onInduceRule(const IIndexVector& outputIndices, const IWeightVector& weights, uint32 numExamples) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        logText += "O";
        indices(outputIndices);
        logText += "\nW";
        if (const BitWeightVector* b = dynamic_cast<const BitWeightVector*>(&weights)) {
            logText += weights.hasZeroWeights() ? " bit 1" : " bit 0";
            num(b->getNumNonZeroWeights());
            for (uint32 i = 0; i < b->getNumElements(); i++) num((*b)[i] ? 1 : 0);
        } else if (const DenseWeightVector<uint32>* d = dynamic_cast<const DenseWeightVector<uint32>*>(&weights)) {
            logText += weights.hasZeroWeights() ? " dense 1" : " dense 0";
            num(d->getNumNonZeroWeights());
            for (uint32 i = 0; i < d->getNumElements(); i++) num((*d)[i]);
        } else {
            logText += weights.hasZeroWeights() ? " equal 1" : " equal 0";
            num(numExamples);
        }
        logText += "\n";
    }

    void onSampleFeatures(const IIndexVector& featureIndices) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        logText += "F";
        indices(featureIndices);
        logText += "\n";
    }

    void onRefine(const Condition& condition) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        logText += "C";
        num(condition.featureIndex);
        num((int) condition.comparator);
        if (std::holds_alternative<float32>(condition.threshold)) {
            num(std::get<float32>(condition.threshold));
        } else {
            num(std::get<int32>(condition.threshold));
        }
        num(condition.numCovered);
        logText += "\n";
    }

    void onRuleInduced(bool success) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        logText += success ? "R 1\n" : "R 0\n";
    }

    void onTrainingFinished(const IStatistics& statistics) {
        std::lock_guard<std::mutex> g(mtx);
        if (!enabled) return;
        logText += "E";
        evals(statistics);
        logText += "\n";
    }

}

/* Stand-in for the external Q-measure engine (git submodule, not available here).
 * Same interface; work memory comes from the simulator's failing allocator and the result
 * depends on every voxel, its position, the sizes, the range and the parameters. */
#pragma once
#include <cstddef>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
extern "C" void *verif_malloc(std::size_t);
extern "C" void verif_free(void *);

class QMeasureCalculation {
public:
    std::map<std::string, double> computeOrigQ(float *data, int *dims, double *range, int bins, int peaks, bool analyze)
    {
        if (bins < 1 || peaks < 1) throw std::invalid_argument("bins and peaks must be positive");
        double *hist = (double *) verif_malloc(sizeof(double) * (std::size_t) bins);
        if (!hist) throw std::bad_alloc();
        for (int i = 0; i < bins; i++) hist[i] = 0;
        std::size_t n = (std::size_t) dims[0] * dims[1] * dims[2];
        double acc = 0;
        for (std::size_t i = 0; i < n; i++) {
            double w = 1.0 + (double) (i * 7919u % 1009u) / 1009.0;
            acc += w * data[i];
            hist[i % bins] += w;
        }
        double q = acc / n + 0.5 * range[0] + 0.25 * range[1] + hist[bins / 2] / n + 3.0 * peaks
                 + 0.001 * (dims[0] + 2.0 * dims[1] + 3.0 * dims[2]);
        verif_free(hist);
        return {{"Q (orig, equ 1)", q}, {"Q (other)", -q}};
    }
};

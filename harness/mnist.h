// MNIST files on the simulated disk
#pragma once
#include "../sim/sim.h"
#include <string>
#include <vector>
struct Mnist {
    int n = 0, h = 0, w = 0;
    std::vector<std::string> px;      // row-major pixels per image
    std::string labels;
    uint64_t pattern = 0;             // the bytes are computed (files too big to hold)
    static std::string be(uint32_t v) { std::string s; for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); return s; }
    std::string image_file() const { std::string s = be(2051) + be((uint32_t)n) + be((uint32_t)h) + be((uint32_t)w); for (auto& p : px) s += p; return s; }
    std::string label_file() const { return be(2049) + be((uint32_t)n) + labels; }
    static Mnist draw(int n, int h, int w, sim::Rng& r, int one_label = -1) {
        Mnist m; m.n = n; m.h = h; m.w = w;
        for (int i = 0; i < n; i++) {
            std::string p((size_t)(h * w), 0);
            for (char& c : p) c = (char)(r.chance(0.2) ? (r.chance(0.5) ? 255 : 0) : r.below(256));
            m.px.push_back(p);
            m.labels += (char)(one_label >= 0 ? (unsigned)one_label : (unsigned)r.below(10));
        }
        return m;
    }
    static Mnist huge(int n, int h, int w, uint64_t seed) { Mnist m; m.n = n; m.h = h; m.w = w; m.pattern = seed; return m; }
    void put(const std::string& ip, const std::string& lp) const {
        if (!pattern) { sim::fs_put(ip, image_file()); sim::fs_put(lp, label_file()); return; }
        sim::fs_put_pattern(ip, image_file(), 16 + (uint64_t)n * (uint64_t)(h * w), pattern);
        sim::fs_put_pattern(lp, label_file(), 8 + (uint64_t)n, pattern + 1);
    }
    int label(int img) const { return pattern ? sim::fs_pattern(pattern + 1, 8 + (uint64_t)img) : (unsigned char)labels[(size_t)img]; }
    double value(int img, int row, int col) const { if (pattern) return ((double)sim::fs_pattern(pattern, 16 + (uint64_t)img * (uint64_t)(h * w) + (uint64_t)(row * w + col)) - 128) / 255; return ((double)(unsigned char)px[(size_t)img][(size_t)(row * w + col)] - 128) / 255; }
};

// Helpers shared by the demonstrations.
#pragma once
#include <glog/logging.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <vector>
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/types.hpp"
#include "soil_simulator/utils.hpp"
std::mt19937 soil_simulator::rng;
using namespace soil_simulator;
#define EXPECT(c) do { if (!(c)) { \
    std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
inline double total(SimOut* s) {
    double t = 0;
    for (auto& r : s->terrain_) for (float v : r) t += v;
    for (int k : {0, 2})
        for (size_t i = 0; i < s->terrain_.size(); i++)
            for (size_t j = 0; j < s->terrain_[0].size(); j++)
                t += s->body_soil_[k+1][i][j] - s->body_soil_[k][i][j];
    return t;
}
inline void wall(SimOut* s, int k, int i, int j, float lo, float hi) {
    s->body_[k][i][j] = lo; s->body_[k+1][i][j] = hi;
}
inline void soil(SimOut* s, int k, int i, int j, float lo, float hi,
        std::vector<float> parts, Grid g, Body* b) {
    s->body_soil_[k][i][j] = lo; s->body_soil_[k+1][i][j] = hi;
    auto p = CalcBodyFramePos(i, j, lo, g, b);
    for (float h : parts)
        s->body_soil_pos_.push_back(body_soil{k, i, j, p[0], p[1], p[2], h});
}
inline double parcels(SimOut* s, int k, int i, int j) {
    double t = 0;
    for (auto& p : s->body_soil_pos_)
        if (p.ind == k && p.ii == i && p.jj == j) t += p.h_soil;
    return t;
}
inline bool near(double a, double b, double e = 1e-3) { return std::fabs(a-b) < e; }
inline Bucket* make_bucket() {
    auto b = new Bucket({0, 0, 0}, {0, 0, 0}, {0, 0, -0.5}, {0.7, 0, -0.5}, 0.5);
    return b;
}

// Executable reference model: a small CNN written from the definitions
// (cross-correlation, pooling, activations, soft-max cross-entropy, mini-batch
// gradient descent).  It shares no code with the repository: plain vectors,
// x fastest, then y, then z.
#pragma once
#include <cmath>
#include <cstddef>
#include <string>
#include <vector>

namespace ref {

struct Tensor {
    int x = 0, y = 0, z = 0;
    std::vector<double> v;
    Tensor() {}
    Tensor(int x, int y, int z) : x(x), y(y), z(z), v((size_t)x * y * z, 0.0) {}
    double& at(int i, int j, int k) { return v[((size_t)k * y + j) * x + i]; }
    double at(int i, int j, int k) const { return v[((size_t)k * y + j) * x + i]; }
};

enum Kind { CONV, POOL, FC, ACT, SOFTMAX };
enum Pool { PMAX, PMIN, PAVG };
enum Act { RELU, SIGMOID, LINEAR, TANH, LEAKY };

struct Layer {
    Kind kind;
    int fx = 0, fy = 0, fz = 0, n = 0;      // conv: filter size, channels, count; fc: n outputs
    int px = 0, py = 0, sx = 0, sy = 0;     // pool
    Pool pool = PMAX;
    Act act = LINEAR;
    std::vector<double> w, b;
};

struct Net {
    int ix, iy, iz;                          // input size
    std::vector<Layer> layers;               // ends with SOFTMAX
    std::vector<std::string> labels;
};

inline void out_dims(const Layer& l, int& x, int& y, int& z) {
    if (l.kind == CONV) { x = x - l.fx + 1; y = y - l.fy + 1; z = l.n; }
    else if (l.kind == POOL) { x = (x - l.px) / l.sx + 1; y = (y - l.py) / l.sy + 1; }
    else if (l.kind == FC) { x = l.n; y = 1; z = 1; }
}

// smallest distance of any data-dependent decision from its tie, so that a run whose
// outcome depends on rounding can be recognised
struct Margin { double m = 1e300; void see(double d) { if (d < 0) d = -d; if (d < m) m = d; } };

struct Trace {
    std::vector<Tensor> a;                   // a[i] = input of layer i, a.back() = probabilities
    std::vector<std::vector<size_t>> idx;    // pool: source index per output
    size_t best = 0;
};

inline double actf(Act a, double v) {
    switch (a) {
    case RELU: return v > 0 ? v : 0;
    case SIGMOID: return 1 / (1 + std::exp(-v));
    case LINEAR: return v;
    case TANH: return std::tanh(v);
    case LEAKY: return v > 0 ? v : 0.1 * v;
    }
    return 0;
}
inline double actd(Act a, double v) {
    switch (a) {
    case RELU: return v > 0 ? 1 : 0;
    case SIGMOID: { double s = actf(SIGMOID, v); return s * (1 - s); }
    case LINEAR: return 1;
    case TANH: { double t = std::tanh(v); return 1 - t * t; }
    case LEAKY: return v > 0 ? 1 : 0.1;
    }
    return 0;
}

// does anything before layer i have parameters? (otherwise gradients there do not matter)
inline bool trainable_before(const Net& n, size_t i) {
    for (size_t k = 0; k < i; k++) if (n.layers[k].kind == CONV || n.layers[k].kind == FC) return true;
    return false;
}

inline Trace forward(const Net& net, const Tensor& in, Margin* mg, Margin* label_mg) {
    Trace t;
    t.a.push_back(in);
    t.idx.resize(net.layers.size());
    for (size_t li = 0; li < net.layers.size(); li++) {
        const Layer& l = net.layers[li];
        const Tensor& X = t.a.back();
        int x = X.x, y = X.y, z = X.z;
        out_dims(l, x, y, z);
        Tensor Y(x, y, z);
        bool matters = trainable_before(net, li);
        switch (l.kind) {
        case CONV:
            for (int f = 0; f < l.n; f++) for (int j = 0; j < y; j++) for (int i = 0; i < x; i++) {
                double s = l.b[f];
                for (int c = 0; c < l.fz; c++) for (int v = 0; v < l.fy; v++) for (int u = 0; u < l.fx; u++)
                    s += X.at(i + u, j + v, c) * l.w[((size_t)(f * l.fz + c) * l.fy + v) * l.fx + u];
                Y.at(i, j, f) = s;
            }
            break;
        case POOL: {
            bool after_relu = li > 0 && net.layers[li - 1].kind == ACT && net.layers[li - 1].act == RELU;
            t.idx[li].resize(Y.v.size());
            for (int k = 0; k < z; k++) for (int j = 0; j < y; j++) for (int i = 0; i < x; i++) {
                double best = 0, second = 0, sum = 0; size_t bi = 0; int cnt = 0;
                for (int v = 0; v < l.py; v++) for (int u = 0; u < l.px; u++) {
                    int xi = i * l.sx + u, yi = j * l.sy + v;
                    double e = X.at(xi, yi, k);
                    sum += e;
                    double key = l.pool == PMIN ? -e : e;
                    if (cnt == 0) { best = key; bi = ((size_t)k * X.y + yi) * X.x + xi; second = -1e300; }
                    else if (key > best) { second = best; best = key; bi = ((size_t)k * X.y + yi) * X.x + xi; }
                    else if (key > second) second = key;
                    cnt++;
                }
                if (l.pool == PAVG) Y.at(i, j, k) = sum / cnt;
                else {
                    Y.at(i, j, k) = X.v[bi];
                    t.idx[li][((size_t)k * y + j) * x + i] = bi;
                    // tied zeros coming out of a ReLU get no gradient whichever is chosen
                    if (mg && matters && cnt > 1 && !(after_relu && best == 0 && second == 0)) mg->see(best - second);
                }
            }
            break;
        }
        case FC:
            for (int o = 0; o < l.n; o++) {
                double s = l.b[o];
                for (size_t i = 0; i < X.v.size(); i++) s += l.w[i * l.n + o] * X.v[i];
                Y.v[o] = s;
            }
            break;
        case ACT:
            for (size_t i = 0; i < X.v.size(); i++) {
                Y.v[i] = actf(l.act, X.v[i]);
                if (mg && matters && (l.act == RELU || l.act == LEAKY)) mg->see(X.v[i]);
            }
            break;
        case SOFTMAX: {
            double m = X.v[0], s = 0;
            for (double e : X.v) m = std::max(m, e);
            for (size_t i = 0; i < X.v.size(); i++) s += (Y.v[i] = std::exp(X.v[i] - m));
            for (double& e : Y.v) e /= s;
            break;
        }
        }
        // a network that blows up: outcomes depend on rounding (and on overflow in the soft-max)
        for (double e : Y.v) if (!(std::fabs(e) < 300)) { if (mg) mg->see(0); if (label_mg) label_mg->see(0); }
        t.a.push_back(Y);
    }
    const Tensor& p = t.a.back();
    for (size_t i = 1; i < p.v.size(); i++) if (p.v[i] > p.v[t.best]) t.best = i;
    if (label_mg) for (size_t i = 0; i < p.v.size(); i++) if (i != t.best) label_mg->see(p.v[t.best] - p.v[i]);
    return t;
}

struct Grad { std::vector<std::vector<double>> w, b; };
inline Grad zero_grad(const Net& n) {
    Grad g;
    for (auto& l : n.layers) { g.w.emplace_back(l.w.size(), 0.0); g.b.emplace_back(l.b.size(), 0.0); }
    return g;
}
// accumulate the gradient of the cross-entropy loss of one sample
inline void backward(const Net& net, const Trace& t, size_t label, Grad& g) {
    Tensor d = t.a.back();
    d.v[label] -= 1;
    for (size_t li = net.layers.size() - 1; li-- > 0;) {
        const Layer& l = net.layers[li];
        const Tensor& X = t.a[li];
        const Tensor& Y = t.a[li + 1];
        Tensor dx(X.x, X.y, X.z);
        switch (l.kind) {
        case CONV:
            for (int f = 0; f < l.n; f++) for (int j = 0; j < Y.y; j++) for (int i = 0; i < Y.x; i++) {
                double e = d.at(i, j, f);
                g.b[li][f] += e;
                for (int c = 0; c < l.fz; c++) for (int v = 0; v < l.fy; v++) for (int u = 0; u < l.fx; u++) {
                    size_t wi = ((size_t)(f * l.fz + c) * l.fy + v) * l.fx + u;
                    g.w[li][wi] += e * X.at(i + u, j + v, c);
                    dx.at(i + u, j + v, c) += e * l.w[wi];
                }
            }
            break;
        case POOL:
            for (int k = 0; k < Y.z; k++) for (int j = 0; j < Y.y; j++) for (int i = 0; i < Y.x; i++) {
                double e = d.at(i, j, k);
                if (l.pool == PAVG) {
                    for (int v = 0; v < l.py; v++) for (int u = 0; u < l.px; u++) dx.at(i * l.sx + u, j * l.sy + v, k) += e / (l.px * l.py);
                } else dx.v[t.idx[li][((size_t)k * Y.y + j) * Y.x + i]] += e;
            }
            break;
        case FC:
            for (int o = 0; o < l.n; o++) {
                g.b[li][o] += d.v[o];
                for (size_t i = 0; i < X.v.size(); i++) { g.w[li][i * l.n + o] += d.v[o] * X.v[i]; dx.v[i] += d.v[o] * l.w[i * l.n + o]; }
            }
            break;
        case ACT:
            for (size_t i = 0; i < X.v.size(); i++) dx.v[i] = d.v[i] * actd(l.act, X.v[i]);
            break;
        case SOFTMAX: break;
        }
        d = dx;
    }
}
inline void apply(Net& net, const Grad& g, size_t count, double lr) {
    if (!count) return;
    for (size_t li = 0; li < net.layers.size(); li++) {
        Layer& l = net.layers[li];
        for (size_t i = 0; i < l.w.size(); i++) l.w[i] -= lr * g.w[li][i] / (double)count;
        for (size_t i = 0; i < l.b.size(); i++) l.b[i] -= lr * g.b[li][i] / (double)count;
    }
}

} // namespace ref

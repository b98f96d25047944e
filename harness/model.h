// Random networks, data and the bridge between the repository's model and the reference.
#pragma once
#include "../sim/sim.h"
#include "ref.h"
#include "cnn_from_scratch/ModelDescription.h"
#include <deque>
#include <sstream>
#include <functional>

typedef my_cnn::ModelDescription<float, std::string> Model;
using sim::P;
using sim::chance;

struct NetOpts {
    int max_side = 8;
    int max_blocks = 2;
    int max_fc = 2;
    int max_labels = 5;
    bool wide = true, many = false;
    bool odd_labels = false;       // labels with spaces, empty-ish, punctuation
};

inline std::string label_name(int i, bool odd, long from = 0) {
    if (!odd) return "L" + std::to_string(i);
    if (from) {   // other alphabets, control characters, long texts, words that occur in the file, numbers
        static const std::string t[] = {"\tTab\t", "na\xc3\xafve \xe2\x82\xac", std::string(300, 'w'), "%s%n%d", "Kernel", "-1", "1e400", "\"quoted\"", std::string(5000, ' ') + "x", "{}[]", "END", "(3) ----------", "Output Labels:", "nan", std::string("nul\0nul", 7), "\x7f\x01"};
        return t[(i + from) % 16] + (i >= 16 ? std::to_string(i) : "");
    }
    static const char* n[] = {"a cat", "dog", "two  words", "x y z", "7", "3.5", "a#b", "(0) ----", "", " lead tail "};
    return std::string(n[i % 10]) + (i >= 10 ? std::to_string(i) : "");
}

// draw a network from the run parameters (prefix keeps several networks apart)
inline ref::Net draw_net(const std::string& p, const NetOpts& o) {
    ref::Net n;
    // now and then a shape beyond the usual ones: elongated or larger images, many channels, filters, classes
    const bool wide = o.wide && chance(p + "wide", 5);
    n.ix = (int)P(p + "ix", 3, o.max_side);
    n.iy = (int)P(p + "iy", 3, o.max_side);
    n.iz = chance(p + "iz2", 25) ? 2 : 1;
    int max_f = 4, min_n = 1, min_labels = 2, min_hidden = 2, max_n = 3, max_p = 3, max_s = 3, max_hidden = 7, max_labels = o.max_labels, max_blocks = o.max_blocks, max_fc = o.max_fc;
    if (wide) {
        sim::probe("cfg.wide");
        switch (P(p + "wide.kind", 0, o.many ? 5 : 4)) {
        case 0: n.ix = (int)P(p + "wide.ix", 1, 17); n.iy = (int)P(p + "wide.iy", 1, 17); max_f = 7; max_p = 5; max_s = 5; break;
        case 1: n.iz = (int)P(p + "wide.iz", 3, 6); max_n = 7; break;
        case 2: max_labels = 40; max_hidden = 40; max_fc = 4; max_blocks = std::min(max_blocks, 1); break;
        case 4: min_labels = min_hidden = max_labels = max_hidden = max_blocks = 1; n.ix = (int)P(p + "wide.ix", 1, 2); n.iy = 1; break;
        case 5: min_n = 250; max_n = 300; max_f = 1; max_blocks = 1; n.ix = 2; n.iy = 2; break;
        default: max_blocks = 5; max_n = 2; max_f = 2; max_p = 2; break;
        }
    }
    int x = n.ix, y = n.iy, z = n.iz;
    auto act = [&](const std::string& nm, int pct) {
        if (!chance(nm, pct)) return;
        ref::Layer l; l.kind = ref::ACT;
        static const ref::Act tab[] = {ref::RELU, ref::SIGMOID, ref::LINEAR, ref::TANH, ref::LEAKY};
        l.act = tab[P(nm + ".f", 0, 4)];
        n.layers.push_back(l);
    };
    if (chance(p + "act0", 5)) act(p + "act0b", 100);
    int blocks = (int)P(p + "blocks", 0, max_blocks);
    for (int b = 0; b < blocks; b++) {
        std::string q = p + "b" + std::to_string(b) + ".";
        if (chance(q + "conv", 80)) {
            ref::Layer l; l.kind = ref::CONV;
            l.fx = (int)P(q + "fx", 1, std::min(x, max_f)); l.fy = (int)P(q + "fy", 1, std::min(y, max_f));
            l.fz = z; l.n = (int)P(q + "n", min_n, max_n);
            n.layers.push_back(l);
            ref::out_dims(l, x, y, z);
        }
        act(q + "act", 55);
        if (chance(q + "pool", 55)) {
            ref::Layer l; l.kind = ref::POOL;
            l.px = (int)P(q + "px", 1, std::min(x, max_p)); l.py = (int)P(q + "py", 1, std::min(y, max_p));
            l.sx = (int)P(q + "sx", 1, max_s); l.sy = (int)P(q + "sy", 1, max_s);
            l.pool = (ref::Pool)P(q + "type", 0, 2);
            n.layers.push_back(l);
            ref::out_dims(l, x, y, z);
        }
    }
    int labels = (int)P(p + "labels", min_labels, max_labels);
    int fcs = (int)P(p + "fcs", 1, max_fc);
    for (int i = 0; i < fcs; i++) {
        std::string q = p + "f" + std::to_string(i) + ".";
        ref::Layer l; l.kind = ref::FC;
        l.n = i == fcs - 1 ? labels : (int)P(q + "n", min_hidden, max_hidden);
        n.layers.push_back(l);
        ref::out_dims(l, x, y, z);
        if (i < fcs - 1) act(q + "act", 60); else act(q + "act", 10);
    }
    ref::Layer s; s.kind = ref::SOFTMAX;
    n.layers.push_back(s);
    long from = o.odd_labels && chance(p + "lab", 30) ? P(p + "lab.from", 1, 16) : 0;
    for (int i = 0; i < labels; i++) n.labels.push_back(label_name(i, o.odd_labels, from));
    return n;
}
inline bool same_shape(const ref::Net& n, int ix, int iy, int iz, bool& legal) {
    // does an image of that size pass the network's size checks?
    int x = ix, y = iy, z = iz, x0 = n.ix, y0 = n.iy, z0 = n.iz;
    legal = true;
    for (auto& l : n.layers) {
        if (l.kind == ref::CONV && (z != l.fz || x < l.fx || y < l.fy)) legal = false;
        if (l.kind == ref::POOL && (x < l.px || y < l.py)) legal = false;
        if (l.kind == ref::FC) { if (x * y * z != x0 * y0 * z0) legal = false; return x == x0 && y == y0 && z == z0; }
        ref::out_dims(l, x, y, z); ref::out_dims(l, x0, y0, z0);
    }
    return true;
}
// fill the reference parameters with seeded values
inline void draw_params(ref::Net& n, sim::Rng& r) {
    int x = n.ix, y = n.iy, z = n.iz;
    for (auto& l : n.layers) {
        size_t nw = 0, nb = 0, fan = 1;
        if (l.kind == ref::CONV) { nw = (size_t)l.fx * l.fy * l.fz * l.n; nb = l.n; fan = (size_t)l.fx * l.fy * l.fz; }
        if (l.kind == ref::FC) { fan = (size_t)x * y * z; nw = fan * l.n; nb = l.n; }
        double s = 1.5 / std::sqrt((double)fan);
        l.w.resize(nw); l.b.resize(nb);
        for (double& v : l.w) v = (2 * r.unit() - 1) * s;
        for (double& v : l.b) v = (2 * r.unit() - 1) * 0.3;
        ref::out_dims(l, x, y, z);
    }
}
inline void build(const ref::Net& n, Model& m) {
    for (auto& l : n.layers) switch (l.kind) {
        case ref::CONV: m.addKernel(my_cnn::dim3(l.fx, l.fy, l.fz), (size_t)l.n); break;
        case ref::POOL: m.addPooling(my_cnn::dim2(l.px, l.py), my_cnn::dim2(l.sx, l.sy), l.pool == ref::PMAX ? my_cnn::MAX : l.pool == ref::PMIN ? my_cnn::MIN : my_cnn::AVG); break;
        case ref::FC: m.addConnectedLayer((size_t)l.n); break;
        case ref::ACT: m.addActivation(l.act == ref::RELU ? my_cnn::RELU : l.act == ref::SIGMOID ? my_cnn::SIGMOID : l.act == ref::LINEAR ? my_cnn::LINEAR : l.act == ref::TANH ? my_cnn::TANGENT : my_cnn::LEAKY_RELU); break;
        case ref::SOFTMAX: m.setOutputLabels(n.labels, my_cnn::SOFTMAX); break;
    }
}
inline my_cnn::SimpleMatrix<float> to_image(const ref::Tensor& t) {
    my_cnn::SimpleMatrix<float> m(my_cnn::dim3(t.x, t.y, t.z));
    for (int k = 0; k < t.z; k++) for (int j = 0; j < t.y; j++) for (int i = 0; i < t.x; i++) m((size_t)i, (size_t)j, (size_t)k) = (float)t.at(i, j, k);
    return m;
}
inline size_t msize(const my_cnn::SimpleMatrix<double>& m) { return m.size(); }
// give the repository's model the reference's parameters; initialises connected layers first
inline void push_params(const ref::Net& n, Model& m) {
    ref::Tensor probe(n.ix, n.iy, n.iz);
    m.forwardPropagation(to_image(probe));
    for (size_t i = 0; i < n.layers.size(); i++) {
        const ref::Layer& l = n.layers[i];
        if (l.kind != ref::CONV && l.kind != ref::FC) continue;
        auto& L = *m.layers[i];
        if (L.weights.size() != l.w.size() || L.biases.size() != l.b.size())
            sim::violation("shape", sim::fmt("layer %zu has %zu weights and %zu biases, expected %zu and %zu", i, (size_t)L.weights.size(), (size_t)L.biases.size(), l.w.size(), l.b.size()));
        for (size_t k = 0; k < l.w.size(); k++) L.weights[k] = l.w[k];
        for (size_t k = 0; k < l.b.size(); k++) L.biases[k] = l.b[k];
    }
}
inline bool pull_params(ref::Net& n, Model& m, std::string* why = nullptr) {
    for (size_t i = 0; i < n.layers.size(); i++) {
        ref::Layer& l = n.layers[i];
        if (l.kind != ref::CONV && l.kind != ref::FC) continue;
        auto& L = *m.layers[i];
        l.w.resize(L.weights.size()); l.b.resize(L.biases.size());
        for (size_t k = 0; k < l.w.size(); k++) l.w[k] = L.weights[k];
        for (size_t k = 0; k < l.b.size(); k++) l.b[k] = L.biases[k];
    }
    return true;
}
inline bool close_to(double a, double b, double tol) {
    if (a == b) return true;
    double d = std::fabs(a - b);
    return d <= tol * (1 + std::fabs(b));          // false for NaN
}
// compare the model's parameters with the reference; returns "" or what differs
inline std::string diff_params(const ref::Net& n, Model& m, double tol) {
    if (m.layers.size() != n.layers.size()) return sim::fmt("model has %zu layers, expected %zu", m.layers.size(), n.layers.size());
    for (size_t i = 0; i < n.layers.size(); i++) {
        const ref::Layer& l = n.layers[i];
        if (l.kind != ref::CONV && l.kind != ref::FC) continue;
        auto& L = *m.layers[i];
        if (L.weights.size() != l.w.size() || L.biases.size() != l.b.size()) return sim::fmt("layer %zu: parameter count changed", i);
        for (size_t k = 0; k < l.w.size(); k++) if (!close_to(L.weights[k], l.w[k], tol)) return sim::fmt("layer %zu weight %zu is %.9g, expected %.9g", i, k, (double)L.weights[k], l.w[k]);
        for (size_t k = 0; k < l.b.size(); k++) if (!close_to(L.biases[k], l.b[k], tol)) return sim::fmt("layer %zu bias %zu is %.9g, expected %.9g", i, k, (double)L.biases[k], l.b[k]);
    }
    return "";
}
inline std::string describe(const ref::Net& n) {
    std::string s = sim::fmt("%dx%dx%d", n.ix, n.iy, n.iz);
    for (auto& l : n.layers) switch (l.kind) {
        case ref::CONV: s += sim::fmt(" conv%dx%dx%d*%d", l.fx, l.fy, l.fz, l.n); break;
        case ref::POOL: s += sim::fmt(" pool%d:%dx%d/%dx%d", (int)l.pool, l.px, l.py, l.sx, l.sy); break;
        case ref::FC: s += sim::fmt(" fc%d", l.n); break;
        case ref::ACT: s += sim::fmt(" act%d", (int)l.act); break;
        case ref::SOFTMAX: s += " softmax"; break;
    }
    return s;
}
inline void digest_model(Model& m) {
    for (auto& l : m.layers) {
        for (size_t k = 0; k < l->weights.size(); k++) { double v = l->weights[k]; sim::digest_bytes(&v, sizeof v); }
        for (size_t k = 0; k < l->biases.size(); k++) { double v = l->biases[k]; sim::digest_bytes(&v, sizeof v); }
    }
}

struct Sample { ref::Tensor img; size_t label; };
inline std::vector<Sample> draw_data(const ref::Net& n, size_t count, sim::Rng& r) {
    std::vector<Sample> d(count);
    for (auto& s : d) {
        s.img = ref::Tensor(n.ix, n.iy, n.iz);
        for (double& v : s.img.v) v = (float)(2 * r.unit() - 1);
        s.label = r.below(n.labels.size());
    }
    return d;
}

// ---------------------------------------------------------------- simulated data source
// The client side of training.  Records every call; can be slow, stall, end early,
// announce another size, throw or hand out bad data (fault site "source").
enum SourceFault { SF_THROW_STD = 0, SF_THROW_INT, SF_BAD_LABEL, SF_BAD_CHANNELS, SF_BAD_SIZE, SF_HAS_THROW, SF_RESET_THROW, SF_SMALL, SF_EMPTY, SF_NKINDS };

struct SimSource : my_cnn::DataGenerator<float> {
    const ref::Net* net = nullptr;
    const std::vector<Sample>* data = nullptr;
    size_t announced = 0;             // what size() says
    size_t pos = 0;
    std::vector<size_t> order;        // points handed out since the last reset, in order
    long resets = 0, total = 0, refused = 0;
    int inside = 0;
    uint64_t slow_ns = 0; int slow_pct = 0; int yields = 0;
    sim::Rng rng{1};
    bool check_protocol = false;
    uint32_t fault_mask = 0;
    int thrown_kind = -1; long thrown_at = -1; size_t thrown_pos = 0;
    long epoch_points_limit = -1;
    std::vector<std::vector<size_t>> epochs;
    std::function<void()> on_reset;

    void enter_call(const char* what) {
        sim::Pause p;
        if (inside && check_protocol) sim::violation("protocol", sim::fmt("%s called while another thread is inside the data source", what));
        inside++;
    }
    void leave_call() { sim::Pause p; inside--; }
    struct Call { SimSource& s; Call(SimSource& s, const char* w) : s(s) { s.enter_call(w); } ~Call() { s.leave_call(); } };
    void dawdle() {
        uint64_t ns = 0; int y = 0;
        { sim::Pause p; if (slow_pct && (int)rng.below(100) < slow_pct) ns = rng.below(slow_ns) + 1; y = yields; }
        for (int i = 0; i < y; i++) sim::yield_point();
        if (ns) sim::sleep_ns(ns);
    }
    my_cnn::LabeledInput<float> getNextDataPoint() override {
        Call c(*this, "getNextDataPoint");
        dawdle();
        int kind = -1;
        {
            sim::Pause p;
            if (pos >= data->size()) sim::violation("protocol", sim::fmt("getNextDataPoint called with no data available (%zu of %zu points handed out)", pos, data->size()));
            if (fault_mask) { sim::Fault f = sim::fault_poll(sim::S_SOURCE, fault_mask & ~(1u << SF_HAS_THROW | 1u << SF_RESET_THROW), 0); if (f.fire) { kind = f.kind; thrown_kind = kind; thrown_at = total; thrown_pos = pos; } }
            if (kind >= 0) sim::event(sim::fmt("source fault %d at point %zu", kind, pos));
        }
        if (kind == SF_THROW_STD) throw std::runtime_error("simulated data source failure");
        if (kind == SF_THROW_INT) throw 42;
        my_cnn::LabeledInput<float> out;
        {
            sim::Pause p;
            const Sample& s = (*data)[pos];
            out.data = to_image(s.img);
            out.label = net->labels[s.label];
            if (kind == SF_BAD_LABEL) out.label = "no such label";
            if (kind == SF_BAD_CHANNELS) { ref::Tensor t(s.img.x, s.img.y, s.img.z + 1); out.data = to_image(t); }
            if (kind == SF_BAD_SIZE) { ref::Tensor t(s.img.x + 3, s.img.y + 2, s.img.z); out.data = to_image(t); }
            if (kind == SF_SMALL) out.data = to_image(ref::Tensor(1, 1, s.img.z));
            if (kind == SF_EMPTY) out.data = my_cnn::SimpleMatrix<float>();
            sim::event(sim::fmt("point %zu", pos));
            order.push_back(pos);
            pos++; total++;
        }
        dawdle();
        return out;
    }
    size_t size() override { return announced; }
    bool hasAvailableData() override {
        Call c(*this, "hasAvailableData");
        bool thr = false;
        {
            sim::Pause p;
            if (fault_mask >> SF_HAS_THROW & 1) { sim::Fault f = sim::fault_poll(sim::S_SOURCE, 1u << SF_HAS_THROW, 0); if (f.fire) { thr = true; thrown_kind = SF_HAS_THROW; thrown_at = total; thrown_pos = pos; } }
        }
        if (thr) throw std::runtime_error("simulated data source failure");
        bool r;
        { sim::Pause p; r = pos < data->size(); if (!r) refused++; }
        return r;
    }
    void reset() override {
        Call c(*this, "reset");
        bool thr = false;
        {
            sim::Pause p;
            if (fault_mask >> SF_RESET_THROW & 1) { sim::Fault f = sim::fault_poll(sim::S_SOURCE, 1u << SF_RESET_THROW, 0); if (f.fire) { thr = true; thrown_kind = SF_RESET_THROW; thrown_at = total; thrown_pos = pos; } }
        }
        if (thr) throw std::runtime_error("simulated data source failure");
        sim::Pause p;
        if (on_reset) on_reset();
        sim::event("reset");
        epochs.push_back(order);
        order.clear();
        pos = 0; resets++;
    }
};

// sequential reference of train(): the data comes in batches of `bs` in source order.
struct RefTrain {
    ref::Net net;
    ref::Margin margin, label_margin;
    std::vector<long> correct;                 // per epoch
    std::vector<ref::Net> after;               // parameters after each applied batch (if keep)
    bool keep = false;
    void run(const std::vector<Sample>& data, size_t npoints, size_t bs, int epochs, double lr) {
        for (int e = 0; e < epochs; e++) {
            long ok = 0;
            for (size_t i = 0; i < npoints; i += bs) {
                ref::Grad g = ref::zero_grad(net);
                size_t n = std::min(bs, npoints - i);
                for (size_t k = 0; k < n; k++) {
                    const Sample& s = data[i + k];
                    ref::Trace t = ref::forward(net, s.img, &margin, &label_margin);
                    if (t.best == s.label) ok++;
                    ref::backward(net, t, s.label, g);
                }
                ref::apply(net, g, n, lr);
                if (keep) after.push_back(net);
            }
            correct.push_back(ok);
        }
    }
};

// capture what the program prints on std::cout
struct CaptureOut {
    std::stringbuf buf;
    std::streambuf* old;
    CaptureOut() { old = std::cout.rdbuf(&buf); }
    ~CaptureOut() { std::cout.rdbuf(old); }
    std::string text() { return buf.str(); }
};
inline std::vector<double> parse_accuracy(const std::string& s) {
    std::vector<double> v;
    size_t p = 0;
    while ((p = s.find("Accuracy was", p)) != std::string::npos) { p += 12; v.push_back(strtod(s.c_str() + p, nullptr)); }
    return v;
}
const double TOL = 5e-5, TIE = 1e-6;

// Scenarios for saved models (C09-C12).
#include "model.h"
#include "scen.h"
#include <cstring>
#include <deque>
#include <thread>

namespace {

const std::string PATH = "/simfs/data/net.model_data";
const uint32_t BENIGN = 1u << sim::D_SHORT | 1u << sim::D_EINTR;
const uint32_t HARM = 1u << sim::D_EIO | 1u << sim::D_EIO_STICKY | 1u << sim::D_ENOSPC | 1u << sim::D_OPENFAIL | 1u << sim::D_CLOSEFAIL | 1u << sim::D_RENAMEFAIL;
const uint32_t CRASHES = 1u << sim::D_CRASH_BEFORE | 1u << sim::D_CRASH_TORN | 1u << sim::D_CRASH_AFTER;

// ---------------------------------------------------------------- models with a known content
struct Known {
    ref::Net net;
    std::vector<Sample> data;
    bool ordinary = true;        // parameters of ordinary size: outputs can be compared with the reference
    bool used = true;            // connected layers have been initialised
    sim::Rng rng{1};
};
double odd_value(sim::Rng& r) {
    switch (r.below(8)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return (double)r.range(-1000000, 1000000);
    case 3: return 1.0 / 3 * (double)r.range(-5, 5);
    case 4: return std::ldexp(r.unit() - 0.5, (int)r.range(-1070, 1000));
    case 5: return 1 + std::ldexp(1.0, -(int)r.range(30, 52));
    case 6: return 4.9406564584124654e-324 * (double)r.range(1, 9);
    default: { uint64_t b; double d; do { b = r.next(); memcpy(&d, &b, 8); } while (!std::isfinite(d)); return d; }
    }
}
Known draw_known(const std::string& p, bool allow_odd) {
    Known k;
    k.rng = sim::Rng((uint64_t)P(p + "valueseed", 1, 1 << 20));
    NetOpts o; o.max_side = 6; o.odd_labels = chance(p + "oddlabels", 60);
    if (chance(p + "large", 12)) { o.max_side = 11; o.max_labels = 12; }
    o.many = true;
    k.net = draw_net(p, o);
    bool dup = k.net.labels.size() > 1 && chance(p + "duplabels", 5);
    if (dup) { k.net.labels[(size_t)P(p + "dup.a", 0, (long)k.net.labels.size() - 1)] = k.net.labels[(size_t)P(p + "dup.b", 0, (long)k.net.labels.size() - 1)]; sim::probe("cfg.equal_labels"); }
    draw_params(k.net, k.rng);
    k.data = draw_data(k.net, 4, k.rng);
    if (dup) for (auto& s : k.data) for (size_t i = 0; i < s.label; i++) if (k.net.labels[i] == k.net.labels[s.label]) s.label = i;   // the first of equal labels counts
    if (allow_odd && chance(p + "oddvalues", 35)) {
        k.ordinary = false;
        for (auto& l : k.net.layers) { for (double& v : l.w) if (k.rng.chance(0.5)) v = odd_value(k.rng); for (double& v : l.b) if (k.rng.chance(0.5)) v = odd_value(k.rng); }
        sim::probe("cfg.odd_values");
    }
    return k;
}
void make(const Known& k, Model& m) { build(k.net, m); push_params(k.net, m); }

std::string bits_differ(const my_cnn::SimpleMatrix<double>& m, const std::vector<double>& v, const char* what, size_t layer) {
    if ((size_t)m.size() != v.size()) return sim::fmt("layer %zu has %zu %s, saved were %zu", layer, (size_t)m.size(), what, v.size());
    for (size_t i = 0; i < v.size(); i++) { double d = m[i]; if (memcmp(&d, &v[i], 8)) return sim::fmt("layer %zu %s %zu is %.17g, saved was %.17g", layer, what, i, d, v[i]); }
    return "";
}
// does the repository's model hold exactly the known content? "" or what differs
std::string differs(const Known& k, Model& m) {
    if (m.layers.size() != k.net.layers.size()) return sim::fmt("model has %zu layers, saved were %zu", m.layers.size(), k.net.layers.size());
    static const my_cnn::ModelFlowMode mode[] = {my_cnn::KERNEL, my_cnn::POOLING, my_cnn::FULLY_CONNECTED, my_cnn::ACTIVATION, my_cnn::OUTPUT};
    for (size_t i = 0; i < k.net.layers.size(); i++) {
        const ref::Layer& l = k.net.layers[i];
        if (m.layers[i]->getType() != mode[l.kind]) return sim::fmt("layer %zu has another type than the saved one", i);
        if (l.kind != ref::CONV && l.kind != ref::FC) continue;
        if (l.kind == ref::FC && !k.used) continue;
        std::string d = bits_differ(m.layers[i]->weights, l.w, "weights", i);
        if (d.empty()) d = bits_differ(m.layers[i]->biases, l.b, "biases", i);
        if (!d.empty()) return d;
    }
    if (m.output_labels != k.net.labels) {
        std::string a, b;
        for (auto& s : m.output_labels) a += "'" + s + "' ";
        for (auto& s : k.net.labels) b += "'" + s + "' ";
        return "output labels are " + a + ", saved were " + b;
    }
    return "";
}
// does it also behave like it?
std::string behaves(const Known& k, Model& m) {
    if (!k.ordinary || !k.used) return "";
    for (auto& s : k.data) {
        ref::Margin lm;
        ref::Trace t = ref::forward(k.net, s.img, nullptr, &lm);
        my_cnn::ModelResults<std::string> r;
        try { sim::Scope sc; r = m.forwardPropagation(to_image(s.img)); }
        catch (std::exception& e) { return std::string("forward propagation threw: ") + e.what(); }
        if (r.layer_inputs.size() != t.a.size()) return "another number of layer outputs";
        for (size_t i = 0; i < t.a.size(); i++) {
            if ((size_t)r.layer_inputs[i].size() != t.a[i].v.size()) return sim::fmt("output %zu has %zu values, expected %zu", i, (size_t)r.layer_inputs[i].size(), t.a[i].v.size());
            for (size_t q = 0; q < t.a[i].v.size(); q++) if (!close_to(r.layer_inputs[i][q], t.a[i].v[q], TOL)) return sim::fmt("output %zu value %zu is %.7g, expected %.7g", i, q, (double)r.layer_inputs[i][q], t.a[i].v[q]);
        }
        if (lm.m > TIE && r.label_idx != t.best) return "another prediction";
    }
    return "";
}
std::string trains(const Known& k, Model& m, const std::string& p) {
    if (!k.ordinary || !k.used) return "";
    Model::Hyperparameters hp; hp.learning_rate = 0.1; hp.num_epochs = 1; hp.batch_size = (int)P(p + "batch", 1, 4); hp.num_threads = (int)P(p + "threads", 1, 3);
    RefTrain r; r.net = k.net; r.run(k.data, k.data.size(), (size_t)hp.batch_size, 1, hp.learning_rate);
    SimSource src; src.net = &k.net; src.data = &k.data; src.announced = k.data.size();
    try { sim::Scope s; m.train(src, hp); }
    catch (std::exception& e) { return std::string("training threw: ") + e.what(); }
    if (r.margin.m < TIE) { sim::probe("skip.near_tie"); return ""; }
    return diff_params(r.net, m, TOL);
}
int save(Model& m, const std::string& path = PATH) {     // 0/1, 2 = exception
    try { sim::Scope s; return m.saveModel(path); }
    catch (sim::AssertionFailed&) { throw; }
    catch (...) { return 2; }
}
int load(Model& m, const std::string& path = PATH) {
    try { sim::Scope s; return m.loadModel(path); }
    catch (sim::AssertionFailed&) { throw; }
    catch (std::bad_alloc&) { return 3; }
    catch (...) { return 2; }
}
void check_handles(const char* what, int before = 0) {    // before: left open by an operation that ran out of memory
    int n = sim::fs_open_handles();
    if (n > before) sim::violation("leak", sim::fmt("%d files still open after %s", n, what));
}
std::string ctx(const Known& k) { return " [" + describe(k.net) + (k.ordinary ? "" : ", unusual parameter values") + "]"; }

// an unrelated model for "load replaces / failed load keeps"
struct Target { Known k; Model m; bool empty; };
void make_target(Target& t) {
    t.empty = chance("target.empty", 40);
    if (!t.empty) { t.k = draw_known("t.", false); make(t.k, t.m); sim::probe("cfg.load_into_existing"); }
}

// ---------------------------------------------------------------- C09
void round_trip_int() {
    typedef my_cnn::ModelDescription<float, int> IM;
    sim::Rng r((uint64_t)P("valueseed", 1, 1 << 20));
    IM a; std::vector<int> labels; int n = (int)P("labels", 1, 6);
    for (int i = 0; i < n; i++) labels.push_back((int)r.range(-2000000000L, 2000000000L));
    my_cnn::SimpleMatrix<float> img(my_cnn::dim3(3, 4, 1), 0.25f);
    int ok; IM b; float ca, cb;
    a.addConnectedLayer((size_t)n); a.setOutputLabels(labels);
    { sim::Scope s; ca = a.forwardPropagation(img).confidence; ok = a.saveModel(PATH) && b.loadModel(PATH); }
    if (!ok) sim::violation("round-trip", "a model with integer labels could not be saved and loaded");
    if (b.output_labels != labels) sim::violation("round-trip", "integer output labels changed");
    { sim::Scope s; cb = b.forwardPropagation(img).confidence; }
    if (memcmp(&ca, &cb, sizeof ca)) sim::violation("round-trip", "a model with integer labels predicts something else after loading");
    sim::probe("checked.int_labels");
}
void s_c09() {
    if (chance("int", 8)) { round_trip_int(); return; }
    Known k = draw_known("", true);
    Model m; build(k.net, m);
    long hist = P("history", 0, 3);         // 0 set parameters, 1 as constructed, 2 trained before, 3 never used
    if (hist == 3) { k.used = false; for (size_t i = 0; i < k.net.layers.size(); i++) if (k.net.layers[i].kind == ref::CONV) { auto& l = k.net.layers[i]; for (size_t q = 0; q < l.w.size(); q++) m.layers[i]->weights[q] = l.w[q]; for (size_t q = 0; q < l.b.size(); q++) m.layers[i]->biases[q] = l.b[q]; } sim::probe("cfg.never_used"); }
    else if (hist == 1) { k.ordinary = true; { sim::Scope s; m.forwardPropagation(to_image(k.data[0].img)); } pull_params(k.net, m); }
    else push_params(k.net, m);
    if (hist == 2 && k.ordinary) { std::string d = trains(k, m, "pre."); if (!d.empty()) return; pull_params(k.net, m); sim::probe("cfg.trained_before"); }
    if (chance("benign", 50)) sim::fault_arm(sim::S_DISK, 1.0 / (double)P("mean", 1, 4), BENIGN, 40);
    if (chance("overwrite", 30)) {          // something longer is already there
        Known k0 = draw_known("old.", false); Model m0; make(k0, m0);
        if (save(m0) != 1) sim::violation("save", "saving to a working disk failed" + ctx(k0));
    }
    int cycles = (int)P("cycles", 1, 3);
    std::deque<Model> chain; chain.emplace_back();
    Model* cur = &m;
    for (int c = 0; c < cycles; c++) {
        int ok = save(*cur);
        if (ok != 1) sim::violation("save", "saving to a working disk failed" + ctx(k));
        std::string d = differs(k, *cur);
        if (!d.empty()) sim::violation("save", "saving changed the model: " + d + ctx(k));
        Target* t = new Target; make_target(*t);
        ok = load(t->m);
        if (ok != 1) sim::violation("round-trip", "a saved model could not be loaded" + ctx(k));
        d = differs(k, t->m);
        if (!d.empty()) sim::violation("round-trip", "the loaded model differs from the saved one: " + d + ctx(k));
        check_handles("save and load");
        cur = &t->m;
        sim::probe("checked.params");
    }
    sim::fault_disarm(sim::S_DISK);
    bool train_first = chance("train_first", 50);
    std::string d;
    if (!k.used) {
        // first use after loading initialises the connected layers
        try { sim::Scope s; for (auto& x : k.data) cur->forwardPropagation(to_image(x.img)); } catch (std::exception& e) { d = e.what(); }
        if (!d.empty()) sim::violation("round-trip", "a model saved before its first use cannot be used after loading: " + d + ctx(k));
        k.used = true; pull_params(k.net, *cur);
        if (!chance("never.train", 50)) return;
    }
    if (!train_first) {
        if (hist != 3) for (auto& x : k.data) {
            // the original and the loaded model run the same code on the same numbers
            my_cnn::ModelResults<std::string> a, b;
            try { sim::Scope s; a = m.forwardPropagation(to_image(x.img)); b = cur->forwardPropagation(to_image(x.img)); } catch (std::exception& e) { sim::violation("round-trip", std::string("forward propagation threw: ") + e.what() + ctx(k)); }
            for (size_t i = 0; i < a.layer_inputs.size() && i < b.layer_inputs.size(); i++) for (size_t q = 0; q < (size_t)a.layer_inputs[i].size() && q < (size_t)b.layer_inputs[i].size(); q++) {
                float u = a.layer_inputs[i][q], v = b.layer_inputs[i][q];
                if (!(u == v || (std::isnan(u) && std::isnan(v)))) sim::violation("round-trip", sim::fmt("output %zu value %zu of the loaded model is %.9g, of the saved one %.9g", i, q, (double)v, (double)u) + ctx(k));
            }
        }
        d = behaves(k, *cur);
        if (!d.empty()) sim::violation("round-trip", "the loaded model computes something else than the saved one: " + d + ctx(k));
        sim::probe("checked.outputs");
    }
    d = trains(k, *cur, "post.");
    if (!d.empty()) sim::violation("round-trip", "training the loaded model differs from training the saved one: " + d + ctx(k));
    if (k.ordinary) sim::probe("checked.training");
    digest_model(*cur);
}

// ---------------------------------------------------------------- C10
void s_c10() {
    Known k = draw_known("", true);
    Model m; make(k, m);
    int rounds = (int)P("rounds", 1, 3), left = 0;
    for (int i = 0; i < rounds; i++) {
        std::string q = "r" + std::to_string(i) + ".";
        if (i && chance(q + "changed", 40)) {
            // trained a little further in between
            for (size_t l = 0; l < k.net.layers.size(); l++) { auto& L = k.net.layers[l]; for (size_t x = 0; x < L.w.size(); x++) { if (k.ordinary) L.w[x] *= 1 + 0.001 * k.rng.unit(); m.layers[l]->weights[x] = L.w[x]; } }
            sim::probe("cfg.changed_between");
        }
        long kind = P(q + "kind", 0, 8);
        const bool alloc = kind == 8;
        uint32_t mask = kind == 0 ? 0 : kind == 1 ? HARM | BENIGN : kind == 2 ? 1u << sim::D_ENOSPC : kind == 3 ? 1u << sim::D_EIO : kind == 4 ? 1u << sim::D_EIO_STICKY : kind == 5 ? 1u << sim::D_OPENFAIL : kind == 6 ? 1u << sim::D_CLOSEFAIL : kind == 7 ? 1u << sim::D_RENAMEFAIL : 0;
        std::string path = chance(q + "other", 30) ? "/simfs/data/other.model_data" : PATH;
        if (mask) sim::fault_arm(sim::S_DISK, 1.0 / (double)P(q + "mean", 1, 6), mask, (int)P(q + "max", 1, 3));
        if (alloc) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)sim::PL(q + "amean", 1, 300), 1, 1);
        bool nodir = kind == 0 && chance(q + "nodir", 15);
        int ok = nodir ? save(m, "/simfs/data/net.model_data/x/y") : save(m, path);
        int fired = mask ? sim::faults_fired(sim::S_DISK) : alloc ? sim::faults_fired(sim::S_ALLOC) : 0;
        sim::fault_disarm(sim::S_DISK); sim::fault_disarm(sim::S_ALLOC);
        sim::fs_heal();
        sim::event(sim::fmt("save -> %d, %d faults", ok, fired));
        if (ok == 2 && alloc && fired) ok = 0;             // out of memory may be reported as such
        if (ok == 2) sim::violation("exception", "saveModel threw instead of returning false" + ctx(k));
        std::string d = differs(k, m);
        if (!d.empty()) sim::violation("save", "saving changed the model: " + d + ctx(k));
        if (alloc && fired) left = sim::fs_open_handles(); else check_handles("saveModel", left);   // an open file after running out of memory is not part of the property
        if (nodir) { if (ok) sim::violation("lost-save", "saveModel returned true for a directory that does not exist" + ctx(k)); sim::probe("checked.nodir"); continue; }
        if (ok == 1) {
            Model n;
            if (load(n, path) != 1) sim::violation("lost-save", "saveModel returned true but the file cannot be loaded" + ctx(k));
            d = differs(k, n);
            if (!d.empty()) sim::violation("lost-save", "saveModel returned true but the file holds something else: " + d + ctx(k));
            sim::probe(fired ? "checked.true_despite_fault" : "checked.true");
        } else {
            if (!fired) sim::violation("save", "saveModel returned false on a working disk" + ctx(k));
            sim::probe("checked.false");
        }
    }
    // the disk works again: saving must, too
    if (save(m) != 1) sim::violation("recovery", "saveModel keeps failing after the disk works again" + ctx(k));
    Model n;
    if (load(n) != 1) sim::violation("recovery", "a model saved after earlier failures cannot be loaded" + ctx(k));
    std::string d = differs(k, n);
    if (d.empty()) d = behaves(k, n);
    if (!d.empty()) sim::violation("recovery", "a model saved after earlier failures differs: " + d + ctx(k));
    sim::probe("checked.recovery");
    digest_model(n);
}

// ---------------------------------------------------------------- C11
// whatever an interrupted or failed save left behind: the next one works
void retry(Known& k, Model& m, int& stored, int cur) {
    if (save(m) != 1) sim::violation("leftover", "after an interrupted or failed save, saving to a working disk fails" + ctx(k));
    Model n;
    std::string d = load(n) == 1 ? differs(k, n) : "it cannot be loaded";
    if (!d.empty()) sim::violation("leftover", "the model saved after an interrupted or failed save is damaged: " + d + ctx(k));
    stored = cur;
    sim::probe("checked.retry");
}
void s_c11() {
    int versions = (int)P("versions", 1, 4);
    std::deque<Known> ks; std::deque<Model> ms;
    int stored = -1;                            // what the file holds for sure
    if (!chance("first", 20)) {
        ks.push_back(draw_known("v0.", true)); ms.emplace_back(); make(ks.back(), ms.back());
        if (save(ms.back()) != 1) sim::violation("save", "saving to a working disk failed" + ctx(ks.back()));
        stored = 0;
    }
    for (int v = 1; v <= versions; v++) {
        std::string q = "v" + std::to_string(v) + ".";
        ks.push_back(draw_known(q, true)); ms.emplace_back(); make(ks.back(), ms.back());
        int cur = (int)ks.size() - 1;
        long kind = P(q + "kind", 0, 4);
        uint32_t mask = kind == 0 ? CRASHES : kind == 1 ? HARM : kind == 2 ? HARM | BENIGN | CRASHES : kind == 3 ? 1u << sim::D_ENOSPC : 1u << sim::D_CRASH_TORN | 1u << sim::D_CRASH_BEFORE;
        sim::fault_arm(sim::S_DISK, 1.0 / (double)P(q + "mean", 1, 5), mask, (int)P(q + "max", 1, 3));
        int ok = save(ms.back());
        int fired = sim::faults_fired(sim::S_DISK);
        sim::fault_disarm(sim::S_DISK);
        bool crashed = sim::fs_crashed();
        sim::fs_heal();
        sim::event(sim::fmt("save %d -> %d crashed=%d", cur, ok, crashed));
        // what is there now?
        Model n;
        int l = load(n);
        if (l > 1) sim::violation("exception", "loadModel threw" + ctx(ks[(size_t)cur]));
        std::string dnew = l == 1 ? differs(ks[(size_t)cur], n) : "?";
        std::string what = crashed ? "was killed while saving" : ok == 1 ? "saved" : "failed to save";
        if (l == 1 && dnew.empty()) { stored = cur; sim::probe(crashed ? "checked.crash_new" : "checked.new"); continue; }
        if (ok == 1 && !crashed) sim::violation("lost-save", "saveModel returned true but the file does not hold the new model" + ctx(ks[(size_t)cur]));
        if (stored < 0) {
            if (l == 1) sim::violation("torn-save", "a program " + what + " its first model; the file loads as something else: " + dnew + ctx(ks[(size_t)cur]));
            sim::probe("checked.first_absent");
            if (chance(q + "retry", 40)) retry(ks[(size_t)cur], ms[(size_t)cur], stored, cur);
            continue;
        }
        std::string dold = l == 1 ? differs(ks[(size_t)stored], n) : "it cannot be loaded";
        if (dold.empty()) dold = behaves(ks[(size_t)stored], n);
        if (!dold.empty()) sim::violation("destroyed", "a program " + what + " a new model and the model stored before is gone: " + dold + ctx(ks[(size_t)stored]));
        sim::probe(crashed ? "checked.crash_old" : fired ? "checked.fail_old" : "checked.old");
        digest_model(n);
        if (chance(q + "retry", 40)) retry(ks[(size_t)cur], ms[(size_t)cur], stored, cur);
    }
}

// ---------------------------------------------------------------- C12
std::string corrupt(std::string s, const std::string& p, sim::Rng& r) {
    int n = (int)P(p + "edits", 1, 4);
    for (int i = 0; i < n && !s.empty(); i++) {
        size_t at = r.below(s.size());
        auto line = [&](size_t x, size_t& b, size_t& e) { b = s.rfind('\n', x ? x - 1 : 0); b = b == std::string::npos || x == 0 ? 0 : b + 1; e = s.find('\n', b); e = e == std::string::npos ? s.size() : e + 1; };
        size_t b, e;
        switch (r.below(15)) {
        case 0: s[at] = (char)(s[at] ^ (1 << r.below(8))); break;
        case 1: s[at] = (char)r.below(256); break;
        case 2: s.erase(at, 1 + r.below(20)); break;
        case 3: s.insert(at, std::string(1 + r.below(6), "0123456789-e. \nK"[r.below(16)])); break;
        case 4: line(at, b, e); s.erase(b, e - b); break;
        case 5: line(at, b, e); s.insert(b, s.substr(b, e - b)); break;
        case 6: case 7: case 8: {   // damage a size: short integer tokens
            std::vector<std::pair<size_t, size_t>> tok;
            for (size_t x = 0; x < s.size();) { if (isdigit((unsigned char)s[x]) && (x == 0 || s[x - 1] == ' ' || s[x - 1] == '\n')) { size_t y = x; while (y < s.size() && isdigit((unsigned char)s[y])) y++; if (y == s.size() || s[y] == ' ' || s[y] == '\n') tok.emplace_back(x, y); x = y; } else x++; }
            if (tok.empty()) break;
            auto t = tok[r.below(tok.size())];
            static const char* bad[] = {"0", "-1", "1", "2147483647", "-2147483648", "4294967296", "99999999999999999999", "65536", "1000000", "46341", "3", "nan", "x"};
            s.replace(t.first, t.second - t.first, bad[r.below(13)]);
            break;
        }
        case 12: case 13: case 14: {  // the size of a matrix or a group of sizes: lines made of integers
            std::vector<std::pair<size_t, size_t>> ln;
            for (size_t x = 0; x < s.size();) { size_t y = s.find('\n', x); if (y == std::string::npos) y = s.size(); bool dig = false, other = false; for (size_t q = x; q < y; q++) { if (isdigit((unsigned char)s[q])) dig = true; else if (s[q] != ' ') other = true; } if (dig && !other) ln.emplace_back(x, y); x = y + 1; }
            if (ln.empty()) break;
            auto t = ln[r.below(ln.size())];
            static const char* v[] = {"0", "1", "2", "-1", "2147483647", "65536", "46341", "1000000", "-2147483648"};
            std::string line3; std::stringstream old(s.substr(t.first, t.second - t.first)); std::string o;
            for (int q = 0; q < 3; q++) { if (!(old >> o)) o = "1"; line3 += (q ? " " : "") + (r.chance(0.35) ? o : std::string(v[r.chance(0.4) ? 0 : r.below(9)])); }
            s.replace(t.first, t.second - t.first, line3);
            if (r.chance(0.5)) s.resize(std::min(s.size(), t.first + line3.size() + 1 + r.below(60)));   // and the file ends soon after
            break;
        }
        case 9: s.erase(0, at); break;
        case 10: s.insert(at, 1, '\0'); break;
        default: { size_t w = 1 + r.below(200); std::string z(std::min(w, s.size() - at), '\0'); s.replace(at, z.size(), z); }   // a lost block
        }
    }
    return s;
}
void s_c12() {
    Known k = draw_known("", true);
    Model m; make(k, m);
    if (save(m) != 1) sim::violation("save", "saving to a working disk failed" + ctx(k));
    std::string good; sim::fs_get(PATH, good);
    Target t; make_target(t);
    sim::Rng r((uint64_t)P("editseed", 1, 1 << 20));
    int rounds = (int)P("rounds", 1, 8), left = 0;
    for (int i = 0; i < rounds; i++) {
        std::string q = "r" + std::to_string(i) + ".";
        long kind = P(q + "kind", 0, 9);
        std::string what; bool prefix = false, damaged = false, missing = false; uint32_t mask = 0; bool alloc = false;
        sim::fs_put(PATH, good);
        switch (kind) {
        case 0: what = "a truncated file"; prefix = true; sim::fs_put(PATH, good.substr(0, r.below(good.size()))); break;
        case 1: { what = "a file that lost its end"; prefix = true; size_t cut = 1 + r.below(std::min<size_t>(good.size(), 120)); sim::fs_put(PATH, good.substr(0, good.size() - cut)); break; }
        case 2: what = "a missing file"; missing = true; sim::fs_remove(PATH); break;
        case 3: what = "an empty file"; missing = true; sim::fs_put(PATH, ""); break;
        case 4: what = "a file that cannot be opened"; mask = 1u << sim::D_OPENFAIL; break;
        case 5: what = "a file with read errors"; mask = 1u << sim::D_EIO | 1u << sim::D_EIO_STICKY | (r.chance(0.5) ? BENIGN : 0); break;
        case 6: what = "a file, running out of memory"; alloc = true; break;
        default: what = "a damaged file"; damaged = true; sim::fs_put(PATH, corrupt(good, q, r)); break;
        }
        if (mask) sim::fault_arm(sim::S_DISK, 1.0 / (double)P(q + "mean", 1, 4), mask, (int)P(q + "max", 1, 3));
        if (alloc) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)sim::PL(q + "amean", 1, 300), 1, 1);
        if (damaged) sim::set_step_budget(60000000);
        Model fresh; Model& dst = t.empty ? fresh : t.m;
        int ok = load(dst);
        int fired = mask ? sim::faults_fired(sim::S_DISK) : alloc ? sim::faults_fired(sim::S_ALLOC) : 0;
        sim::fault_disarm(sim::S_DISK); sim::fault_disarm(sim::S_ALLOC);
        sim::fs_heal();
        sim::event(sim::fmt("load kind %ld -> %d fired %d", kind, ok, fired));
        if (ok == 2 || (ok == 3 && !alloc)) sim::violation("exception", "loadModel threw on " + what + ctx(k));
        if (ok == 3) ok = 0;
        if (alloc && fired) left = sim::fs_open_handles(); else check_handles("loadModel", left);
        if (ok == 0) {
            if ((mask || alloc) && !fired) sim::violation("load", "loadModel failed on a good file" + ctx(k));
            std::string d;
            if (t.empty) { if (!dst.layers.empty() || !dst.output_labels.empty()) d = "an empty model is no longer empty"; }
            else { d = differs(t.k, dst); if (d.empty()) d = behaves(t.k, dst); }
            if (!d.empty()) sim::violation("half-loaded", "a load of " + what + " failed and left the model changed: " + d + ctx(k));
            sim::probe("checked.rejected");
        } else {
            if (missing) sim::violation("accepted", "loadModel returned true for " + what + ctx(k));
            if (!damaged) {
                std::string d = differs(k, dst);
                if (!d.empty()) sim::violation("accepted", "loadModel returned true for " + what + " but the model differs from the saved one: " + d + ctx(k));
                sim::probe(prefix ? "checked.harmless_cut" : "checked.accepted");
            } else {
                // accepted: then it must be a model made of complete parts
                if (dst.layers.empty()) sim::violation("accepted", "loadModel returned true for a damaged file and loaded nothing" + ctx(k));
                sim::probe("checked.damage_unnoticed");
            }
            if (!t.empty) return;      // the target now holds something else
        }
        digest_model(dst);
    }
    // and the good file still loads
    sim::fs_put(PATH, good);
    Model n;
    if (load(n) != 1) sim::violation("recovery", "the undamaged file cannot be loaded any more" + ctx(k));
    std::string d = differs(k, n); if (d.empty()) d = behaves(k, n);
    if (!d.empty()) sim::violation("recovery", "the undamaged file loads as something else: " + d + ctx(k));
    sim::probe("checked.good");
}

// ---------------------------------------------------------------- C22
// threads that save, load and predict at the same time
std::string pass_differs(const Known& k, const ref::Trace& t, bool tie, const my_cnn::ModelResults<std::string>& r) {
    if (r.layer_inputs.size() != t.a.size()) return "another number of layer outputs";
    for (size_t i = 0; i < t.a.size(); i++) {
        if ((size_t)r.layer_inputs[i].size() != t.a[i].v.size()) return sim::fmt("output %zu has %zu values, expected %zu", i, (size_t)r.layer_inputs[i].size(), t.a[i].v.size());
        for (size_t q = 0; q < t.a[i].v.size(); q++) if (!close_to(r.layer_inputs[i][q], t.a[i].v[q], TOL)) return sim::fmt("output %zu value %zu is %.7g, expected %.7g", i, q, (double)r.layer_inputs[i][q], t.a[i].v[q]);
    }
    if (!tie && r.label_idx != t.best) return "another prediction";
    return "";
}
void s_c22() {
    const size_t nt = (size_t)P("threads", 2, 4);
    const bool shared = chance("shared", 40);
    const long naming = P("naming", 0, 4);     // other names, other directories, other endings, one name the beginning of another
    if (shared) sim::probe("cfg.shared_model");
    std::deque<Known> known; std::deque<Model> models;
    for (size_t i = 0; i < (shared ? 1 : nt); i++) {
        known.push_back(draw_known("m" + std::to_string(i) + ".", !shared && chance("odd" + std::to_string(i), 20)));
        models.emplace_back();
        make(known[i], models[i]);
        for (auto& l : models[i].layers) l->setBatchSize(nt);
        if (known[i].ordinary) { sim::Scope s; models[i].forwardPropagation(to_image(known[i].data[0].img)); }
    }
    struct Op { int kind; size_t point; };
    struct Job { size_t model; std::vector<Op> ops; std::string path, err; bool stored = false; std::vector<my_cnn::SimpleMatrix<float>> imgs; std::vector<ref::Trace> want; std::vector<char> tie; long saves = 0, loads = 0, passes = 0; };
    std::deque<Job> jobs;
    sim::Rng rng((uint64_t)P("opseed", 1, 1 << 20));
    for (size_t t = 0; t < nt; t++) {
        jobs.emplace_back(); Job& j = jobs.back();
        j.model = shared ? 0 : t; j.path = naming == 1 ? sim::fmt("/simfs/d%zu/net.model_data", t) : naming == 2 ? sim::fmt("/simfs/data/net.m%zu", t) : naming == 3 ? "/simfs/data/net" + std::string(t, 'x') : sim::fmt("/simfs/data/net%zu.model_data", t);
        long n = P("ops" + std::to_string(t), 1, 6);
        for (long i = 0; i < n; i++) j.ops.push_back({(int)rng.below(3), (size_t)rng.below(known[j.model].data.size())});
        if (known[j.model].ordinary) for (auto& s : known[j.model].data) {
            ref::Margin lm; j.imgs.push_back(to_image(s.img)); j.want.push_back(ref::forward(known[j.model].net, s.img, nullptr, &lm)); j.tie.push_back(lm.m < TIE);
        }
    }
    long fk = P("faults", 0, 9);
    bool harm = fk == 1 || fk == 2;
    if (fk == 3) sim::fault_arm(sim::S_DISK, 1.0 / (double)P("mean", 1, 10), BENIGN, 40);
    if (harm) sim::fault_arm(sim::S_DISK, 1.0 / (double)P("mean", 2, 20), HARM & ~(1u << sim::D_EIO_STICKY | 1u << sim::D_ENOSPC), 2);
    {
        sim::Scope sc;
        std::vector<std::thread> th;
        for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
            Job& j = jobs[t]; Model& m = models[j.model];
            for (size_t i = 0; i < j.ops.size(); i++) {
                int k = j.ops[i].kind;
                try {
                    if (k == 0) {
                        bool ok = m.saveModel(j.path);
                        sim::Pause p; j.saves++;
                        if (ok) j.stored = true;
                        else if (!harm) { j.err = "saving to a working disk failed"; return; }
                    } else if (k == 1 && j.stored) {
                        Model l;
                        bool ok = l.loadModel(j.path);
                        sim::Pause p; j.loads++;
                        if (!ok) { if (!harm) { j.err = "a file that was saved completely cannot be loaded"; return; } continue; }
                        std::string d = differs(known[j.model], l);
                        if (!d.empty()) { j.err = "the loaded model differs from the saved one: " + d; return; }
                    } else if (k == 2 && !j.imgs.empty()) {
                        size_t x = j.ops[i].point;
                        my_cnn::ModelResults<std::string> r = m.forwardPropagation(j.imgs[x], t);
                        sim::Pause p; j.passes++;
                        std::string d = pass_differs(known[j.model], j.want[x], j.tie[x], r);
                        if (!d.empty()) { j.err = "a prediction differs from the one made alone: " + d; return; }
                    }
                } catch (std::exception& e) { sim::Pause p; j.err = std::string("exception: ") + e.what(); return; }
            }
        });
        for (auto& t : th) t.join();
    }
    sim::fault_disarm(sim::S_DISK); sim::fs_heal();
    for (size_t t = 0; t < nt; t++) {
        Job& j = jobs[t];
        if (!j.err.empty()) sim::violation("concurrent-use", sim::fmt("thread %zu of %zu: ", t, nt) + j.err);
        if (j.saves) sim::probe("checked.saves"); if (j.loads) sim::probe("checked.loads"); if (j.passes) sim::probe("checked.passes");
        if (!j.stored) continue;
        Model l; int ok = load(l, j.path);
        if (ok != 1) sim::violation("concurrent-use", sim::fmt("the file saved by thread %zu cannot be loaded afterwards", t));
        std::string d = differs(known[j.model], l);
        if (!d.empty()) sim::violation("concurrent-use", sim::fmt("the file saved by thread %zu holds another model: ", t) + d);
        sim::probe("checked.file");
    }
    for (size_t i = 0; i < models.size(); i++) { std::string d = differs(known[i], models[i]); if (!d.empty()) sim::violation("changed", "using and saving a model changed it: " + d); }
}

// ---------------------------------------------------------------- C25
// single passes through a model: the defined result or an exception, and nothing left behind
bool fits(const ref::Net& n, int x, int y, int z) {
    for (auto& l : n.layers) {
        if (l.kind == ref::CONV && (z != l.fz || x < l.fx || y < l.fy)) return false;
        if (l.kind == ref::POOL && (x < l.px || y < l.py)) return false;
        if (l.kind == ref::FC) return (size_t)x * (size_t)y * (size_t)z * (size_t)l.n == l.w.size();
        ref::out_dims(l, x, y, z);
    }
    return true;
}
// an image of another shape: turned, stretched to the same number of values, smaller, larger, other channels, nothing
ref::Tensor odd_image(const ref::Net& n, sim::Rng& r) {
    int x = n.ix, y = n.iy, z = n.iz;
    switch (r.below(9)) {
    case 0: case 1: std::swap(x, y); break;
    case 2: x = (int)r.below(n.ix + 4); y = (int)r.below(n.iy + 4); break;
    case 3: z = (int)r.below(n.iz + 3); break;
    case 4: x = y = z = 1; break;
    case 5: x = x * y * z; y = z = 1; break;
    case 6: z = x * y * z; x = y = 1; break;
    case 7: x = y = z = 0; break;
    default: {   // the same number of values after the first layers: move whole rows into columns
        std::vector<std::pair<int, int>> v;
        for (int a = 1; a <= n.ix + n.iy; a++) for (int b = 1; b <= n.ix + n.iy; b++) if ((a != n.ix || b != n.iy) && fits(n, a, b, z)) v.emplace_back(a, b);
        if (!v.empty()) { auto p = v[r.below(v.size())]; x = p.first; y = p.second; }
    }
    }
    ref::Tensor t(x, y, z);
    for (double& v : t.v) v = (float)(2 * r.unit() - 1);
    return t;
}
struct PassOp {
    enum { GOOD, ODD, UNKNOWN, SLOTS } kind;
    ref::Tensor img; my_cnn::SimpleMatrix<float> mat; size_t label; bool legal, back; ref::Trace want; bool tie;
};
PassOp draw_pass(const Known& k, sim::Rng& r, bool want_odd) {
    PassOp o;
    long x = (long)r.below(10);
    o.kind = x < 5 ? PassOp::GOOD : x < 8 && want_odd ? PassOp::ODD : x == 8 ? PassOp::UNKNOWN : PassOp::GOOD;
    const Sample& s = k.data[r.below(k.data.size())];
    o.img = o.kind == PassOp::ODD ? odd_image(k.net, r) : s.img;
    o.mat = to_image(o.img);
    o.label = r.below(k.net.labels.size());
    for (size_t i = 0; i < o.label; i++) if (k.net.labels[i] == k.net.labels[o.label]) { o.label = i; break; }
    o.legal = fits(k.net, o.img.x, o.img.y, o.img.z);
    o.back = o.kind == PassOp::UNKNOWN || r.chance(0.6);
    o.tie = false;
    if (o.legal && k.ordinary && k.used) { ref::Margin mg, lm; o.want = ref::forward(k.net, o.img, &mg, &lm); o.tie = mg.m < TIE || lm.m < TIE; }
    return o;
}
struct PassEnd { bool forward = false, back = false; std::string err; };
// one forward pass and, if asked for, the backward pass; called inside the simulated program
PassEnd run_pass(const Known& k, Model& m, const PassOp& o, size_t slot, bool check, bool may_fail) {
    PassEnd e; std::string shape; { sim::Pause p; shape = sim::fmt(" (input %dx%dx%d)", o.img.x, o.img.y, o.img.z); }
    my_cnn::ModelResults<std::string> r;
    try { r = m.forwardPropagation(o.mat, slot); e.forward = true; }
    catch (std::bad_alloc& x) { sim::Pause p; if (!may_fail && o.legal) e.err = "forward propagation ran out of memory without a reason" + shape; return e; }
    catch (std::exception& x) { sim::Pause p; if (check && o.legal && !may_fail) e.err = std::string("forward propagation threw: ") + x.what() + shape; return e; }
    if (check) {
        sim::Pause p;
        if (!o.legal) { e.err = "forward propagation returned a result for an input that does not fit the model" + shape; return e; }
        if (k.ordinary) { std::string d = pass_differs(k, o.want, o.tie, r); if (!d.empty()) { e.err = d + shape; return e; } }
    }
    if (!o.back) return e;
    std::string lab; { sim::Pause p; lab = o.kind == PassOp::UNKNOWN ? std::string("no such label") : o.label < m.output_labels.size() ? m.output_labels[o.label] : std::string("?"); }
    try { m.backwardsPropagation(r, lab, slot); e.back = true; }
    catch (std::bad_alloc& x) { sim::Pause p; if (!may_fail) e.err = "backward propagation ran out of memory without a reason" + shape; return e; }
    catch (std::exception& x) { sim::Pause p; if (check && o.kind != PassOp::UNKNOWN && !may_fail) e.err = std::string("backward propagation threw: ") + x.what() + shape; return e; }
    sim::Pause p;
    if (o.kind == PassOp::UNKNOWN) { e.err = "backward propagation accepted a label the model does not have"; return e; }
    if (check && k.ordinary && !o.tie) {
        double q = o.want.a.back().v[o.label], loss = std::max(0.0, -std::log2(q + 1e-5));
        if (r.true_label_idx != o.label || !r.true_label || *r.true_label != lab) e.err = "the result holds another true label" + shape;
        else if (!close_to(r.loss, loss, 1e-3)) e.err = sim::fmt("the loss is %.7g, expected %.7g", (double)r.loss, loss) + shape;
    }
    return e;
}
void add_gradient(const Known& k, const PassOp& o, ref::Grad& g) { ref::backward(k.net, o.want, o.label, g); }

// a model from a damaged file that loadModel accepted: everything may come out of it but a memory error or the end of the process
void c25_damaged() {
    Known k = draw_known("", true);
    Model m; make(k, m);
    if (save(m) != 1) sim::violation("save", "saving to a working disk failed" + ctx(k));
    std::string good; sim::fs_get(PATH, good);
    sim::Rng r((uint64_t)P("editseed", 1, 1 << 20));
    sim::set_step_budget(120000000);
    long tries = P("tries", 1, 25);
    for (long i = 0; i < tries; i++) {
        sim::fs_put(PATH, corrupt(good, "d" + std::to_string(i) + ".", r));
        Model d;
        if (load(d) != 1) continue;
        sim::probe("cfg.damaged_accepted");
        if (d.layers.size() > 40) continue;
        long n = 1 + (long)r.below(4);
        size_t slots = 1 + r.below(2);
        { sim::Scope s; for (auto& l : d.layers) l->setBatchSize(slots); }
        Known x = k; x.ordinary = false;
        for (long j = 0; j < n; j++) {
            PassOp o = draw_pass(x, r, true);
            PassEnd e; { sim::Scope s; e = run_pass(x, d, o, r.below(slots), false, true); }
            if (!e.err.empty()) sim::violation("pass", "a model from a damaged file: " + e.err + ctx(k));
            sim::probe(e.back ? "checked.damaged_back" : e.forward ? "checked.damaged_forward" : "checked.damaged_threw");
        }
        if (r.chance(0.5)) { sim::Scope s; for (auto& l : d.layers) l->applyBatch(0.01); }
        if (r.chance(0.3)) {
            SimSource src; src.net = &x.net; src.data = &x.data; src.announced = x.data.size();
            Model::Hyperparameters hp; hp.learning_rate = 0.01; hp.batch_size = 1 + (int)r.below(3); hp.num_threads = 1 + (int)r.below(2);
            try { sim::Scope s; d.train(src, hp); sim::probe("checked.damaged_train"); } catch (std::exception&) { }
        }
        digest_model(d);
    }
    // and the undamaged model was not touched by any of it
    std::string e = differs(k, m); if (e.empty()) e = behaves(k, m);
    if (!e.empty()) sim::violation("changed", "using another model changed this one: " + e + ctx(k));
}
// a model with parts of size zero, as built or as read back from a file
void c25_degenerate() {
    Known k = draw_known("", false);
    sim::Rng r((uint64_t)P("editseed", 1, 1 << 20));
    Known z = k;
    size_t lastfc = 0; for (size_t i = 0; i < z.net.layers.size(); i++) if (z.net.layers[i].kind == ref::FC) lastfc = i;
    for (size_t i = 0; i < z.net.layers.size(); i++) {
        auto& l = z.net.layers[i];
        if (l.kind == ref::CONV && r.chance(0.4)) { if (r.chance(0.4)) l.fx = 0; if (r.chance(0.4)) l.fy = 0; if (r.chance(0.2)) l.fz = 0; if (r.chance(0.2)) l.n = 0; }
        if (l.kind == ref::FC && r.chance(0.3)) { l.n = 0; if (i == lastfc) z.net.labels.clear(); }
    }
    std::deque<Model> ms; ms.emplace_back();
    // not finished or put together in another way: no output layer, one that does not fit, one in another place, nothing at all
    const uint64_t odd = r.below(8);
    if (odd == 0 && !z.net.layers.empty()) z.net.layers.pop_back();
    if (odd == 1) z.net.labels.push_back("one more");
    if (odd == 2 && z.net.labels.size() > 1) z.net.labels.pop_back();
    if (odd == 3 || odd == 4) { ref::Layer l; l.kind = odd == 3 || z.net.labels.empty() ? ref::ACT : ref::FC; l.act = ref::RELU; l.n = (int)z.net.labels.size(); z.net.layers.push_back(l); }
    if (odd == 5) { z.net.layers.clear(); z.net.labels.clear(); }
    if (odd < 6) sim::probe("cfg.unfinished");
    try { build(z.net, ms.back()); } catch (std::exception&) { return; }
    if (r.chance(0.5) && odd > 5) {
        if (save(ms.back()) != 1) sim::violation("save", "saving to a working disk failed" + ctx(z));
        ms.emplace_back();
        if (load(ms.back()) != 1) { sim::probe("cfg.degenerate_refused"); return; }
    }
    { sim::Scope s; for (auto& l : ms.back().layers) l->setBatchSize(2); }
    k.ordinary = false;
    for (long j = 0, n = 1 + (long)r.below(4); j < n; j++) {
        PassOp o = draw_pass(k, r, true);
        PassEnd e; { sim::Scope s; e = run_pass(k, ms.back(), o, r.below(2), false, true); }
        if (!e.err.empty() && o.kind != PassOp::UNKNOWN) sim::violation("pass", "a model with parts of size zero: " + e.err + ctx(z));
        if (odd == 0 && e.forward) sim::violation("pass", "a model without an output layer classified an image" + ctx(z));
        sim::probe(e.back ? "checked.degenerate_back" : e.forward ? "checked.degenerate_forward" : "checked.degenerate_threw");
    }
    { sim::Scope s; for (auto& l : ms.back().layers) l->applyBatch(0.01); }
    if (r.chance(0.4)) {
        SimSource src; src.net = &k.net; src.data = &k.data; src.announced = k.data.size();
        Model::Hyperparameters hp; hp.learning_rate = 0.01; hp.batch_size = 1 + (int)r.below(3); hp.num_threads = 1 + (int)r.below(2);
        try { sim::Scope s; ms.back().train(src, hp); sim::probe("checked.degenerate_train"); } catch (std::exception&) { sim::probe("checked.degenerate_train_threw"); }
        if (sim::live_threads()) sim::violation("leftover-threads", "worker threads still running after training returned" + ctx(z));
    }
    digest_model(ms.back());
}
void c25_threads() {
    Known k = draw_known("", false);
    Model m; make(k, m);
    const size_t nt = (size_t)P("threads", 2, 4);
    for (auto& l : m.layers) l->setBatchSize(nt);
    sim::Rng r((uint64_t)P("opseed", 1, 1 << 20));
    struct Job { std::vector<PassOp> ops; std::string err; long last = -1; };
    std::vector<Job> jobs(nt);
    for (auto& j : jobs) { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; i++) j.ops.push_back(draw_pass(k, r, true)); }
    {
        sim::Scope sc;
        std::vector<std::thread> th;
        for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
            Job& j = jobs[t];
            for (size_t i = 0; i < j.ops.size(); i++) {
                PassEnd e = run_pass(k, m, j.ops[i], t, true, false);
                sim::Pause p;
                if (!e.err.empty()) { j.err = e.err; return; }
                if (e.back) j.last = (long)i;
            }
        });
        for (auto& t : th) t.join();
    }
    ref::Grad g = ref::zero_grad(k.net); size_t cnt = 0; bool tie = false;
    for (size_t t = 0; t < nt; t++) {
        if (!jobs[t].err.empty()) sim::violation("pass", sim::fmt("thread %zu of %zu: ", t, nt) + jobs[t].err + ctx(k));
        if (jobs[t].last < 0) continue;
        PassOp& o = jobs[t].ops[(size_t)jobs[t].last];
        tie |= o.tie; add_gradient(k, o, g); cnt++;
    }
    std::string d = differs(k, m);
    if (!d.empty()) sim::violation("changed", "passes through the model changed it: " + d + ctx(k));
    { sim::Scope s; for (auto& l : m.layers) l->applyBatch(0.1); }
    if (tie) { sim::probe("skip.near_tie"); return; }
    ref::apply(k.net, g, cnt, 0.1);
    d = diff_params(k.net, m, TOL);
    if (!d.empty()) sim::violation("gradient", sim::fmt("the update from the passes of %zu threads is wrong: ", cnt) + d + ctx(k));
    sim::probe("checked.threads");
    digest_model(m);
}
void s_c25() {
    if (chance("damaged", 25)) { c25_damaged(); return; }
    if (chance("degenerate", 8)) { c25_degenerate(); return; }
    if (chance("concurrent", 20)) { c25_threads(); return; }
    Known k = draw_known("", true);
    std::deque<Model> ms; ms.emplace_back();
    long origin = P("origin", 0, 2);         // 0 parameters set, 1 loaded from a file, 2 never used before
    if (origin == 2) { k.used = false; build(k.net, ms.back()); sim::probe("cfg.first_use"); }
    else make(k, ms.back());
    if (origin == 1) { if (save(ms.back()) != 1) sim::violation("save", "saving to a working disk failed" + ctx(k)); ms.emplace_back(); if (load(ms.back()) != 1) sim::violation("load", "a saved model cannot be loaded" + ctx(k)); sim::probe("cfg.loaded"); }
    Model& m = ms.back();
    sim::Rng r((uint64_t)P("opseed", 1, 1 << 20));
    const size_t slots = (size_t)P("slots", 1, 3);
    { sim::Scope s; for (auto& l : m.layers) l->setBatchSize(slots); }
    std::vector<long> filled(slots, -1); std::deque<PassOp> kept;
    std::vector<char> torn(slots, 0);         // the last backward pass there failed
    int rounds = (int)P("rounds", 1, 10);
    for (int i = 0; i < rounds; i++) {
        std::string q = "r" + std::to_string(i) + ".";
        PassOp o = draw_pass(k, r, k.used);
        size_t slot = r.below(slots);
        bool alloc = chance(q + "alloc", 25);
        if (alloc) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)sim::PL(q + "amean", 1, 400), 1, 1);
        const bool was_used = k.used;
        PassEnd e; { sim::Scope s; e = run_pass(k, m, o, slot, k.used, alloc); }
        int fired = alloc ? sim::faults_fired(sim::S_ALLOC) : 0;
        sim::fault_disarm(sim::S_ALLOC);
        sim::event(sim::fmt("pass %d kind %d -> forward %d back %d fired %d", i, (int)o.kind, e.forward, e.back, fired));
        if (!e.err.empty()) sim::violation("pass", sim::fmt("pass %d: ", i) + e.err + ctx(k));
        if (!fired && o.legal && !e.forward && was_used) sim::violation("pass", sim::fmt("pass %d failed without a reason", i) + ctx(k));
        if (!fired && o.legal && o.back && o.kind != PassOp::UNKNOWN && !e.back && was_used) sim::violation("pass", sim::fmt("the backward pass of pass %d failed without a reason", i) + ctx(k));
        if (!was_used) {
            if (!e.forward) { if (!fired) sim::violation("pass", "the first pass through a model failed" + ctx(k)); sim::probe("checked.cold_failed"); continue; }
            pull_params(k.net, m); k.used = true;
            ref::Margin mg, lm; o.want = ref::forward(k.net, o.img, &mg, &lm); o.tie = mg.m < TIE || lm.m < TIE;
        }
        std::string d = differs(k, m);
        if (!d.empty()) sim::violation("changed", sim::fmt("pass %d changed the model: ", i) + d + ctx(k));
        sim::probe(e.back ? o.kind == PassOp::ODD ? "checked.back_odd" : "checked.back" : e.forward ? "checked.forward" : fired ? "checked.out_of_memory" : "checked.refused");
        if (e.back) { kept.push_back(o); filled[slot] = (long)kept.size() - 1; torn[slot] = 0; }
        else if (o.back && e.forward && o.kind != PassOp::UNKNOWN) torn[slot] = 1;   // stopped in the middle of its backward pass
        if (!chance(q + "apply", 25)) continue;
        { sim::Scope s; for (auto& l : m.layers) l->applyBatch(0.1); }
        // a slot whose last backward pass failed holds what it held before or nothing, in all layers alike
        std::vector<size_t> open; for (size_t t = 0; t < slots; t++) if (torn[t]) { sim::probe("cfg.failed_back"); if (filled[t] >= 0) open.push_back(t); }
        std::string wrong; bool fits = false, tie = false;
        for (size_t pick = 0; k.ordinary && !fits && pick < (size_t)1 << open.size(); pick++) {
            ref::Net n = k.net; ref::Grad g = ref::zero_grad(n); size_t cnt = 0;
            for (size_t t = 0; t < slots; t++) {
                if (filled[t] < 0) continue;
                size_t at = (size_t)(std::find(open.begin(), open.end(), t) - open.begin());
                if (at < open.size() && pick >> at & 1) continue;
                cnt++; tie |= kept[(size_t)filled[t]].tie; add_gradient(k, kept[(size_t)filled[t]], g);
            }
            if (tie) break;
            if (cnt) ref::apply(n, g, cnt, 0.1);
            d = diff_params(n, m, TOL);
            if (d.empty()) fits = true; else if (wrong.empty()) wrong = sim::fmt("the update from %zu passes is wrong: ", cnt) + d;
        }
        if (k.ordinary && !tie && !fits) sim::violation("gradient", wrong + ctx(k));
        if (fits) sim::probe("checked.update");
        pull_params(k.net, m);
        std::fill(filled.begin(), filled.end(), -1); std::fill(torn.begin(), torn.end(), 0); kept.clear();
    }
    digest_model(m);
    if (!k.used) return;
    for (auto& l : k.net.layers) { for (double v : l.w) if (!std::isfinite(v)) return; for (double v : l.b) if (!std::isfinite(v)) return; }   // unusual parameters that blew up
    if (chance("end.save", 30)) {
        if (save(m) != 1) sim::violation("save", "a model cannot be saved after these passes" + ctx(k));
        ms.emplace_back();
        if (load(ms.back()) != 1) sim::violation("load", "a model saved after these passes cannot be loaded" + ctx(k));
    }
    std::string d = differs(k, ms.back()); if (d.empty()) d = behaves(k, ms.back());
    if (!d.empty()) sim::violation("afterwards", "the model is not the same after these passes: " + d + ctx(k));
    d = trains(k, ms.back(), "end.");
    if (!d.empty()) sim::violation("afterwards", "training after these passes: " + d + ctx(k));
    sim::probe("checked.afterwards");
}

const uint64_t BUDGET = 400000000ull;
Reg r22("C22", s_c22, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r25("C25", s_c25, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r09("C09", s_c09, sim::OPT_MEM, BUDGET);
Reg r10("C10", s_c10, sim::OPT_MEM, BUDGET);
Reg r11("C11", s_c11, sim::OPT_MEM, BUDGET);
Reg r12("C12", s_c12, sim::OPT_MEM, BUDGET);
} // namespace

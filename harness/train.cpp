// Scenarios for parallel training (C01-C08, C16).
#include "model.h"
#include "scen.h"
#include <thread>

namespace {

struct Cfg {
    ref::Net net;
    std::vector<Sample> data;
    Model::Hyperparameters hp;
    sim::Rng rng{1};
};
struct CfgOpts { int max_points = 14, max_batch = 9, max_threads = 6, max_epochs = 3; bool big = true; NetOpts net; };

Cfg draw_cfg(const std::string& p, CfgOpts o) {
    Cfg c;
    c.rng = sim::Rng((uint64_t)P(p + "valueseed", 1, 1 << 20));
    long npoints, bs, nt, ep;
    if (o.big && chance(p + "big", 4)) {
        // many threads / large batches on a tiny network
        sim::probe("cfg.big");
        NetOpts n; n.max_side = 4; n.max_blocks = 1; n.max_fc = 1; n.max_labels = 3; n.wide = false;
        c.net = draw_net(p, n);
        bs = P(p + "Batch", 1, 150); nt = P(p + "Threads", 1, 40); npoints = P(p + "Points", 1, 200); ep = 1;
    } else {
        c.net = draw_net(p, o.net);
        bs = P(p + "batch", 1, o.max_batch); nt = P(p + "threads", 1, o.max_threads);
        npoints = P(p + "points", 1, o.max_points); ep = P(p + "epochs", 1, o.max_epochs);
        if (chance(p + "long", 3)) { ep = P(p + "Epochs", 4, 8); sim::probe("cfg.many_epochs"); }
    }
    draw_params(c.net, c.rng);
    c.data = draw_data(c.net, (size_t)npoints, c.rng);
    c.hp.batch_size = (int)bs; c.hp.num_threads = (int)nt; c.hp.num_epochs = (int)ep;
    static const double lrs[] = {0.1, 0.01, 0.3, 0.03};
    c.hp.learning_rate = lrs[P(p + "lr", 0, 3)];
    if (chance(p + "scaled", 6)) {
        // raw sensor values: large inputs, large gradients, a small learning rate
        const double f = (double)P(p + "scale", 5, 120);
        for (auto& s : c.data) for (double& v : s.img.v) v = (float)(v * f);
        c.hp.learning_rate *= 0.1 / f; sim::probe("cfg.large_values");
    }
    if (npoints % bs) sim::probe("cfg.partial_batch");
    if (bs > npoints) sim::probe("cfg.batch_gt_points");
    if (nt > bs) sim::probe("cfg.threads_gt_batch");
    return c;
}
void init_source(SimSource& s, const Cfg& c, const std::string& p) {
    s.net = &c.net; s.data = &c.data; s.announced = c.data.size();
    s.rng = sim::Rng((uint64_t)P(p + "srcseed", 1, 1 << 20));
    if (chance(p + "slow", 30)) { s.slow_pct = (int)P(p + "slowpct", 5, 60); s.slow_ns = (uint64_t)sim::PL(p + "slowns", 100, 10000000); }
    s.yields = (int)P(p + "yields", 0, 2);
}
std::string show(const Cfg& c) {
    return sim::fmt(" [%s; %zu points, batch %d, %d threads, %d epochs, lr %g]", describe(c.net).c_str(), c.data.size(), c.hp.batch_size, c.hp.num_threads, c.hp.num_epochs, c.hp.learning_rate);
}
void no_leftovers(const Cfg& c) {
    if (sim::live_threads()) sim::violation("leftover-threads", sim::fmt("%d worker threads still running after training returned", sim::live_threads()) + show(c));
}

// run train() with every exception an (unexpected) violation
void do_train(Model& m, SimSource& src, const Cfg& c) {
    try { sim::Scope s; m.train(src, c.hp); }
    catch (std::exception& e) { sim::violation("exception", std::string("train threw: ") + e.what() + show(c)); }
    catch (sim::AssertionFailed& e) { throw; }
    catch (...) { sim::violation("exception", "train threw an unknown exception" + show(c)); }
}

// ------------------------------------------------------------------ C01 / C04
void train_equiv_core(bool check_result) {
    Cfg c = draw_cfg("", CfgOpts());
    RefTrain r; r.net = c.net;
    r.run(c.data, c.data.size(), (size_t)c.hp.batch_size, c.hp.num_epochs, c.hp.learning_rate);
    Model m; build(c.net, m);
    bool warm = check_result || !chance("cold", 50);
    if (warm) push_params(c.net, m); else sim::probe("cfg.cold");
    SimSource src; init_source(src, c, "src.");
    if (!check_result && chance("failing", 15)) {
        // a training that fails is no excuse for a race
        sim::probe("cfg.failing");
        src.fault_mask = 1u << SF_THROW_STD | 1u << SF_BAD_LABEL | 1u << SF_HAS_THROW;
        sim::fault_arm(sim::S_SOURCE, 1.0 / (double)P("failmean", 1, 12), 0xffffffffu, (int)P("failmax", 1, 4));
        try { sim::Scope s; m.train(src, c.hp); } catch (sim::AssertionFailed&) { throw; } catch (...) {}
        sim::fault_disarm(sim::S_SOURCE);
        no_leftovers(c);
        digest_model(m);
        return;
    }
    do_train(m, src, c);
    no_leftovers(c);
    digest_model(m);
    if (!check_result) return;
    if (r.margin.m < TIE) { sim::probe("skip.near_tie"); return; }
    std::string d = diff_params(r.net, m, TOL);
    if (!d.empty()) sim::violation("result", "parameters after parallel training differ from sequential mini-batch gradient descent: " + d + show(c));
    sim::probe("checked");
    // training again from there (another hyper-parameter set) still agrees: no state leaks between calls
    if (chance("again", 30)) {
        Cfg c2 = c;
        c2.hp.batch_size = (int)P("again.batch", 1, 9); c2.hp.num_threads = (int)P("again.threads", 1, 6); c2.hp.num_epochs = 1;
        RefTrain r2; r2.net = r.net; r2.run(c.data, c.data.size(), (size_t)c2.hp.batch_size, 1, c2.hp.learning_rate);
        do_train(m, src, c2);
        if (r2.margin.m < TIE) { sim::probe("skip.near_tie"); return; }
        d = diff_params(r2.net, m, TOL);
        if (!d.empty()) sim::violation("result", "second call of train differs from sequential mini-batch gradient descent: " + d + show(c2));
        sim::probe("checked.again");
    }
}
void s_c01() { train_equiv_core(true); }
void s_c04() { train_equiv_core(false); }

// ------------------------------------------------------------------ C02
void s_c02() {
    CfgOpts o; o.net.max_side = 5; o.net.max_blocks = 1; o.max_points = 20; o.max_threads = 8;
    Cfg c = draw_cfg("", o);
    Model m; build(c.net, m); push_params(c.net, m);
    SimSource src; init_source(src, c, "src.");
    src.check_protocol = true;
    // all work of the epoch is done when the source is reset: the parameters are final
    RefTrain r; r.net = c.net; r.keep = true;
    r.run(c.data, c.data.size(), (size_t)c.hp.batch_size, c.hp.num_epochs, c.hp.learning_rate);
    const size_t per = (c.data.size() + (size_t)c.hp.batch_size - 1) / (size_t)c.hp.batch_size;
    src.on_reset = [&] {
        size_t k = ((size_t)src.resets + 1) * per;
        if (r.margin.m < TIE || k == 0 || k > r.after.size()) return;
        std::string d = diff_params(r.after[k - 1], m, TOL);
        if (!d.empty()) sim::violation("protocol", "the data source was reset before the work of the epoch was done: " + d + show(c));
        sim::probe("checked.reset");
    };
    do_train(m, src, c);
    no_leftovers(c);
    size_t n = c.data.size();
    if ((long)src.epochs.size() != c.hp.num_epochs) sim::violation("protocol", sim::fmt("data source was reset %zu times in %d epochs", src.epochs.size(), c.hp.num_epochs) + show(c));
    if (!src.order.empty()) sim::violation("protocol", sim::fmt("%zu points taken after the last reset", src.order.size()) + show(c));
    for (size_t e = 0; e < src.epochs.size(); e++) {
        // in order and without gaps by construction of the source; all of them?
        if (src.epochs[e].size() != n) sim::violation("conservation", sim::fmt("epoch %zu consumed %zu of %zu points", e, src.epochs[e].size(), n) + show(c));
    }
    sim::probe("checked");
}

// ------------------------------------------------------------------ C03
void s_c03() {
    Cfg c = draw_cfg("", CfgOpts());
    // bias the labels so that accuracies are not all low
    RefTrain pre; pre.net = c.net;
    for (auto& s : c.data) if (c.rng.chance(0.6)) s.label = ref::forward(c.net, s.img, nullptr, nullptr).best;
    RefTrain r; r.net = c.net;
    r.run(c.data, c.data.size(), (size_t)c.hp.batch_size, c.hp.num_epochs, c.hp.learning_rate);
    Model m; build(c.net, m); push_params(c.net, m);
    SimSource src; init_source(src, c, "src.");
    if (chance("direct", 40)) {
        // the public single-epoch entry point
        for (auto& l : m.layers) l->setBatchSize((size_t)c.hp.batch_size);
        for (int e = 0; e < c.hp.num_epochs; e++) {
            int got;
            try { sim::Scope s; got = m.runEpoch(src, c.hp); src.reset(); }
            catch (std::exception& x) { sim::violation("exception", std::string("runEpoch threw: ") + x.what() + show(c)); }
            sim::digest_bytes(&got, sizeof got);
            if (r.margin.m < TIE || r.label_margin.m < TIE) { sim::probe("skip.near_tie"); continue; }
            if (got != r.correct[(size_t)e]) sim::violation("result", sim::fmt("runEpoch returned %d correct predictions in epoch %d, expected %ld", got, e, r.correct[(size_t)e]) + show(c));
            sim::probe("checked");
        }
        return;
    }
    std::string text;
    { CaptureOut cap; do_train(m, src, c); text = cap.text(); }
    std::vector<double> acc = parse_accuracy(text);
    if (acc.size() != (size_t)c.hp.num_epochs) sim::violation("result", sim::fmt("%zu accuracies reported for %d epochs", acc.size(), c.hp.num_epochs) + show(c));
    if (r.margin.m < TIE || r.label_margin.m < TIE) { sim::probe("skip.near_tie"); return; }
    for (size_t e = 0; e < acc.size(); e++) {
        double want = 100.0 * (double)r.correct[e] / (double)c.data.size();
        if (std::fabs(acc[e] - want) > 1e-3) sim::violation("result", sim::fmt("epoch %zu reported accuracy %g%%, expected %g%%", e, acc[e], want) + show(c));
        sim::probe("checked");
    }
}

// ------------------------------------------------------------------ C05: concurrent passes on distinct slots
struct PassResult { bool ok = false; std::string err; size_t label_idx = 0, true_idx = 0; float conf = 0, loss = 0; std::vector<my_cnn::SimpleMatrix<float>> acts; };

std::string check_pass(const ref::Net& net, const Sample& s, const PassResult& p, bool with_label, bool& tie) {
    ref::Margin mg, lm;
    ref::Trace t = ref::forward(net, s.img, &mg, &lm);
    tie = lm.m < TIE;
    if (!p.ok) return "pass failed: " + p.err;
    if (p.acts.size() != t.a.size()) return sim::fmt("%zu layer values recorded, expected %zu", p.acts.size(), t.a.size());
    for (size_t i = 0; i < t.a.size(); i++) {
        if ((size_t)p.acts[i].size() != t.a[i].v.size()) return sim::fmt("layer %zu: %zu values, expected %zu", i, (size_t)p.acts[i].size(), t.a[i].v.size());
        for (size_t k = 0; k < t.a[i].v.size(); k++) if (!close_to(p.acts[i][k], t.a[i].v[k], TOL)) return sim::fmt("layer %zu value %zu is %.7g, expected %.7g", i, k, (double)p.acts[i][k], t.a[i].v[k]);
    }
    const std::vector<double>& pr = t.a.back().v;
    if (!tie && p.label_idx != t.best) return sim::fmt("predicted class %zu, expected %zu", p.label_idx, t.best);
    if (!close_to(p.conf, pr[t.best], TOL)) return sim::fmt("confidence %.7g, expected %.7g", (double)p.conf, pr[t.best]);
    if (with_label) {
        if (p.true_idx != s.label) return sim::fmt("true class recorded as %zu, expected %zu", p.true_idx, s.label);
        double want = std::max(0.0, -std::log2(pr[s.label] + 1e-5));
        if (!close_to(p.loss, want, 5e-4)) return sim::fmt("loss %.7g, expected %.7g", (double)p.loss, want);
    }
    return "";
}

void s_passes_core(bool cold) {
    Cfg c = draw_cfg("", []{ CfgOpts o; o.max_points = 8; o.max_batch = 1; o.max_threads = 5; o.big = false; if (chance("crowd", 5)) { o.max_points = 140; o.max_threads = 24; o.net.max_side = 4; o.net.max_blocks = 1; o.net.wide = false; } return o; }());
    size_t slots = c.data.size(), nt = (size_t)c.hp.num_threads;
    Model m; build(c.net, m);
    if (!cold) push_params(c.net, m);
    for (auto& l : m.layers) l->setBatchSize(slots);
    std::vector<my_cnn::SimpleMatrix<float>> imgs;
    std::vector<std::string> labels;
    for (auto& s : c.data) { imgs.push_back(to_image(s.img)); labels.push_back(c.net.labels[s.label]); }
    ref::Net now = c.net;
    const int rounds = chance("rounds", 25) ? 2 : 1;     // the slots are used again after an update
    for (int round = 0; round < rounds; round++) {
        const bool first = cold && round == 0;
        std::vector<PassResult> res(slots);
        std::vector<char> back(slots);
        for (size_t i = 0; i < slots; i++) back[i] = c.rng.chance(0.8);
        // 0 one point after the other, 1 all forward passes of a thread, then all backward ones, 2 backward passes by another thread
        const long mode = P("mode" + std::to_string(round), 0, 2);
        struct Pend { size_t slot; my_cnn::ModelResults<std::string> r; };
        std::vector<std::deque<Pend>> pend(nt);
        auto keep = [&](Pend& q) { sim::Pause p; auto& r = q.r; auto& o = res[q.slot]; o.ok = true; o.label_idx = r.label_idx; o.true_idx = r.true_label_idx; o.conf = r.confidence; o.loss = r.loss; o.acts = r.layer_inputs; };
        auto backward = [&](std::deque<Pend>& list) {
            for (auto& q : list) {
                try { if (back[q.slot] && mode != 0) m.backwardsPropagation(q.r, labels[q.slot], q.slot); }
                catch (std::exception& e) { sim::Pause p; res[q.slot].err = e.what(); continue; }
                keep(q);
            }
        };
        auto forward = [&](size_t t) {
            for (size_t i = t; i < slots; i += nt) {
                try {
                    Pend q; q.slot = i; q.r = m.forwardPropagation(imgs[i], i);
                    if (back[i] && mode == 0) m.backwardsPropagation(q.r, labels[i], i);
                    pend[t].push_back(std::move(q));
                } catch (std::exception& e) { sim::Pause p; res[i].err = e.what(); }
            }
        };
        {
            sim::Scope sc;
            std::vector<std::thread> th;
            for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { forward(t); if (mode != 2) backward(pend[t]); });
            for (auto& t : th) t.join();
            if (mode == 2) {
                th.clear();
                for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] { backward(pend[(t + 1) % nt]); });
                for (auto& t : th) t.join();
            }
        }
        if (first) {
            pull_params(now, m);
            for (size_t i = 0; i < now.layers.size(); i++) if (now.layers[i].kind == ref::FC) {
                double s = 0; for (double w : now.layers[i].w) { if (!(std::fabs(w) <= 1.0000001)) sim::violation("init", sim::fmt("connected layer %zu has an initial weight of %g", i, w)); s += w * w; }
                if (now.layers[i].w.size() != c.net.layers[i].w.size()) sim::violation("init", "connected layer has the wrong number of weights after first use");
                if (std::fabs(s - 1) > 1e-6) sim::violation("init", sim::fmt("connected layer %zu: initial weights have norm %g, expected 1", i, std::sqrt(s)));
            }
        }
        for (size_t i = 0; i < slots; i++) {
            bool tie; std::string d = check_pass(now, c.data[i], res[i], back[i], tie);
            if (!d.empty()) sim::violation("result", sim::fmt("pass on slot %zu differs from the same pass run alone: ", i) + d + show(c));
        }
        // the gradients each slot left behind, observed through the update
        ref::Grad g = ref::zero_grad(now);
        ref::Margin mg; size_t nb = 0;
        for (size_t i = 0; i < slots; i++) if (back[i]) { nb++; ref::Trace t = ref::forward(now, c.data[i].img, &mg, nullptr); ref::backward(now, t, c.data[i].label, g); }
        try { sim::Scope sc; for (auto& l : m.layers) l->applyBatch(c.hp.learning_rate); }
        catch (std::exception& e) { sim::violation("exception", std::string("applyBatch threw: ") + e.what() + show(c)); }
        ref::apply(now, g, nb, c.hp.learning_rate);
        digest_model(m);
        if (mg.m < TIE) { sim::probe("skip.near_tie"); return; }
        std::string d = diff_params(now, m, TOL);
        if (!d.empty()) sim::violation("result", "update after concurrent passes differs from the sequential one: " + d + show(c));
        pull_params(now, m);
        sim::probe(round ? "checked.again" : "checked");
    }
}
void s_c05() { s_passes_core(false); }
void s_c06() { s_passes_core(true); }

// ------------------------------------------------------------------ C07
void s_c07() {
    CfgOpts o; o.net.max_side = 4; o.net.max_blocks = 1; o.net.max_fc = 1; o.max_points = 12; o.max_threads = 12; o.max_batch = 12; o.max_epochs = 4;
    Cfg c = draw_cfg("", o);
    if (chance("empty", 6)) { c.data.clear(); sim::probe("cfg.no_data"); }
    Model m; build(c.net, m); push_params(c.net, m);
    SimSource src; init_source(src, c, "src.");
    // sources whose announced size is not what they deliver still must not hang training
    long skew = P("skew", 0, 9);
    if (skew == 1 && !c.data.empty()) { src.announced = c.data.size() + (size_t)P("skew.n", 1, 9); sim::probe("cfg.source_shorter_than_announced"); }
    if (skew == 2 && c.data.size() > 1) { src.announced = (size_t)P("skew.m", 1, (long)c.data.size() - 1); sim::probe("cfg.source_longer_than_announced"); }
    src.slow_pct = (int)P("stall.pct", 0, 90); src.slow_ns = (uint64_t)sim::PL("stall.ns", 10, 1000000000);
    // generous bound: work per point is bounded, so is the number of batches
    uint64_t pts = (uint64_t)(c.data.size() + src.announced + 1) * (uint64_t)c.hp.num_epochs;
    uint64_t thr = (uint64_t)(src.announced / (size_t)c.hp.batch_size + 1) * (uint64_t)c.hp.num_threads * (uint64_t)c.hp.num_epochs;
    // what one point costs with this network
    uint64_t one = 0;
    if (!c.data.empty()) {
        Model probe; build(c.net, probe); push_params(c.net, probe);
        for (auto& l : probe.layers) l->setBatchSize(1);
        const uint64_t s0 = sim::steps();
        try {
            sim::Scope s;
            auto r = probe.forwardPropagation(to_image(c.data[0].img), 0); probe.backwardsPropagation(r, c.net.labels[c.data[0].label], 0);
            for (auto& l : probe.layers) l->applyBatch(0.0);
        } catch (std::exception&) {}
        one = sim::steps() - s0;
    }
    sim::set_step_budget(2000000 + pts * (400000 + 4 * one) + thr * (20000 + 2 * one));
    do_train(m, src, c);
    no_leftovers(c);
    if (sim::created_threads() > 0) sim::probe("checked");
    digest_model(m);
}

// ------------------------------------------------------------------ C08
void s_c08_cold();
void s_c08() {
    if (chance("coldmodel", 20)) { s_c08_cold(); return; }
    CfgOpts o; o.net.max_side = 6; o.max_points = 12; o.big = false;
    Cfg c = draw_cfg("", o);
    RefTrain r; r.net = c.net; r.keep = true; r.after.push_back(c.net);
    r.run(c.data, c.data.size(), (size_t)c.hp.batch_size, c.hp.num_epochs, c.hp.learning_rate);
    Model m; build(c.net, m); push_params(c.net, m);
    SimSource src; init_source(src, c, "src.");
    long what = P("fault", 0, 6);
    uint32_t mask = 0;
    if (what == 0) mask = 1u << SF_THROW_STD;
    if (what == 1) mask = 1u << SF_THROW_INT | 1u << SF_HAS_THROW | 1u << SF_RESET_THROW;
    if (what == 2) mask = 1u << SF_BAD_LABEL;
    if (what == 3) {
        bool legal;
        same_shape(c.net, c.net.ix, c.net.iy, c.net.iz + 1, legal); if (!legal) mask |= 1u << SF_BAD_CHANNELS;
        same_shape(c.net, c.net.ix + 3, c.net.iy + 2, c.net.iz, legal); if (!legal) mask |= 1u << SF_BAD_SIZE;
        same_shape(c.net, 1, 1, c.net.iz, legal); if (!legal) mask |= 1u << SF_SMALL;
        mask |= 1u << SF_EMPTY;
    }
    src.fault_mask = mask;
    long total = (long)c.data.size() * c.hp.num_epochs;
    int maxf = chance("multi", 30) ? 4 : 1;
    if (mask) sim::fault_arm(sim::S_SOURCE, 1.0 / (double)std::max(1L, total / 2), 0xffffffffu, maxf);
    if (what == 4) sim::fault_arm_alloc_workers(1.0 / (double)sim::PL("allocmean", 5, 20000), maxf);
    if (what == 6) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)sim::PL("allocmean", 5, 20000), 1, maxf);   // anywhere, also in the calling thread
    if (what == 5) sim::fault_arm(sim::S_THREAD, 1.0 / (double)P("thrmean", 1, 20), 1, maxf);
    bool threw = false, std_ex = false, int_ex = false; std::string msg;
    try { sim::Scope s; m.train(src, c.hp); }
    catch (std::exception& e) { threw = std_ex = true; msg = e.what(); }
    catch (int v) { threw = true; int_ex = v == 42; }
    catch (sim::AssertionFailed&) { throw; }
    catch (...) { threw = true; }
    int fired = sim::faults_fired(sim::S_SOURCE) + sim::faults_fired(sim::S_ALLOC) + sim::faults_fired(sim::S_THREAD);
    for (int s : {sim::S_SOURCE, sim::S_ALLOC, sim::S_THREAD}) sim::fault_disarm(s);
    no_leftovers(c);
    sim::event(sim::fmt("threw=%d fired=%d", threw, fired));
    digest_model(m);
    if (threw && !fired) sim::violation("exception", "train threw without any fault: " + msg + show(c));
    if (!threw && fired && what < 4) sim::violation("lost-failure", sim::fmt("a worker failure (source fault %d at point %ld) was not reported to the caller of train", src.thrown_kind, src.thrown_at) + show(c));
    if (threw && maxf == 1) {
        if (src.thrown_kind == SF_THROW_STD || src.thrown_kind == SF_HAS_THROW || src.thrown_kind == SF_RESET_THROW) { if (!std_ex || msg != "simulated data source failure") sim::violation("lost-failure", "the caller got another exception than the data source threw: " + msg + show(c)); }
        if (src.thrown_kind == SF_THROW_INT && !int_ex) sim::violation("lost-failure", "the caller got another exception than the data source threw" + show(c));
    }
    // parameters: a whole number of batches
    size_t B = (size_t)c.hp.batch_size, N = c.data.size(), per = (N + B - 1) / B;
    if (threw && what == 6) sim::probe("checked.survived");     // may have hit the update itself: only survival and reuse are promised
    else if (threw || fired == 0) {
        size_t lo, hi;
        if (!threw) lo = hi = per * (size_t)c.hp.num_epochs;
        else {
            // points taken in the failing epoch: the failing batch is the one containing the last of them
            size_t done = (size_t)src.resets * per, inep = src.order.size();
            lo = done + (inep ? (inep - 1) / B : 0); hi = done + (inep + B - 1) / B;
            if (mask) { lo = hi = done + src.thrown_pos / B; }
            if (src.thrown_kind == SF_RESET_THROW) lo = hi = done + per;
        }
        std::string d = "?";
        bool ok = false, tie = r.margin.m < TIE;
        for (size_t k = lo; k <= hi && k < r.after.size(); k++) { d = diff_params(r.after[k], m, TOL); if (d.empty()) { ok = true; r.net = r.after[k]; break; } }
        if (tie) { sim::probe("skip.near_tie"); return; }
        if (!ok) sim::violation("partial-update", sim::fmt("after the failure the parameters are not those of %zu..%zu complete batches: ", lo, hi) + d + show(c));
        sim::probe(threw ? "checked.failed" : "checked.clean");
    } else {
        // an allocation or thread-creation fault the code absorbed: whatever it did instead must be complete
        if (r.margin.m < TIE) return;
        std::string d = diff_params(r.net, m, TOL);
        if (!d.empty()) sim::violation("lost-failure", "train returned normally after a fault but its result is wrong: " + d + show(c));
        sim::probe("checked.absorbed");
    }
    // the model can be trained again
    SimSource src2; init_source(src2, c, "src2.");
    Cfg c2 = c; c2.hp.num_epochs = 1; c2.hp.batch_size = chance("retry.same", 30) ? c.hp.batch_size : (int)P("retry.batch", 1, 9); c2.hp.num_threads = (int)P("retry.threads", 1, 6);
    ref::Net cur = c.net; pull_params(cur, m);
    RefTrain r2; r2.net = cur; r2.run(c.data, N, (size_t)c2.hp.batch_size, 1, c2.hp.learning_rate);
    do_train(m, src2, c2);
    if (r2.margin.m < TIE) { sim::probe("skip.near_tie"); return; }
    std::string d = diff_params(r2.net, m, TOL);
    if (!d.empty()) sim::violation("recovery", "training after a failed training differs from sequential gradient descent: " + d + show(c2));
    sim::probe("checked.retry");
}

// The first training of a model whose connected layers are not sized yet fails
void s_c08_cold() {
    CfgOpts o; o.net.max_side = 5; o.max_points = 8; o.big = false;
    Cfg c = draw_cfg("", o);
    Model m; build(c.net, m);
    SimSource src; init_source(src, c, "src.");
    long what = P("coldfault", 0, 5);
    long total = (long)c.data.size() * c.hp.num_epochs;
    if (what == 0) { src.fault_mask = 1u << SF_THROW_STD | 1u << SF_BAD_LABEL; sim::fault_arm(sim::S_SOURCE, 1.0 / (double)std::max(1L, total / 2), 0xffffffffu, 1); }
    else if (what == 1) sim::fault_arm(sim::S_THREAD, 1.0 / (double)P("thrmean", 1, 20), 1, 1);
    else if (what == 2) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)sim::PL("allocmean", 5, 400), 1, 1);
    else sim::fault_arm_alloc_workers(1.0 / (double)sim::PL("allocmean", 5, 400), 1);
    bool threw = false; std::string msg;
    try { sim::Scope s; m.train(src, c.hp); }
    catch (std::exception& e) { threw = true; msg = e.what(); }
    catch (sim::AssertionFailed&) { throw; }
    catch (...) { threw = true; }
    int fired = sim::faults_fired(sim::S_SOURCE) + sim::faults_fired(sim::S_ALLOC) + sim::faults_fired(sim::S_THREAD);
    for (int s : {sim::S_SOURCE, sim::S_ALLOC, sim::S_THREAD}) sim::fault_disarm(s);
    no_leftovers(c);
    sim::event(sim::fmt("cold threw=%d fired=%d", threw, fired));
    if (threw && !fired) sim::violation("exception", "train threw without any fault: " + msg + show(c));
    if (!threw && fired && what == 0) sim::violation("lost-failure", "the failure was not reported to the caller of train" + show(c));
    // it can be used and trained from whatever start it has now
    try { sim::Scope s; m.forwardPropagation(c.data.empty() ? to_image(ref::Tensor(c.net.ix, c.net.iy, c.net.iz)) : to_image(c.data[0].img), 0); }
    catch (std::exception& e) { sim::violation("recovery", std::string("a model whose first training failed cannot be used any more: ") + e.what() + show(c)); }
    ref::Net cur = c.net; pull_params(cur, m);
    SimSource src2; init_source(src2, c, "src2.");
    Cfg c2 = c; c2.hp.num_epochs = 1; c2.hp.batch_size = chance("retry.same", 30) ? c.hp.batch_size : (int)P("retry.batch", 1, 9); c2.hp.num_threads = (int)P("retry.threads", 1, 6);
    RefTrain r2; r2.net = cur; r2.run(c.data, c.data.size(), (size_t)c2.hp.batch_size, 1, c2.hp.learning_rate);
    do_train(m, src2, c2);
    digest_model(m);
    if (r2.margin.m < TIE) { sim::probe("skip.near_tie"); return; }
    std::string d = diff_params(r2.net, m, TOL);
    if (!d.empty()) sim::violation("recovery", "training after a failed first training differs from sequential gradient descent: " + d + show(c2));
    sim::probe(threw ? "checked.cold" : "checked.cold_clean");
}

// ------------------------------------------------------------------ C16
void s_c16() {
    CfgOpts o; o.net.max_side = 5; o.max_points = 6; o.max_threads = 3; o.max_epochs = 2; o.big = false;
    int k = (int)P("models", 2, 3);
    std::vector<Cfg> c; std::vector<RefTrain> r((size_t)k); std::deque<Model> m((size_t)k); std::deque<SimSource> src((size_t)k);
    for (int i = 0; i < k; i++) {
        c.push_back(draw_cfg("m" + std::to_string(i) + ".", o));
    }
    std::vector<char> cold((size_t)k);
    for (int i = 0; i < k; i++) {
        size_t u = (size_t)i;
        r[u].net = c[u].net;
        r[u].run(c[u].data, c[u].data.size(), (size_t)c[u].hp.batch_size, c[u].hp.num_epochs, c[u].hp.learning_rate);
        build(c[u].net, m[u]);
        push_params(c[u].net, m[u]);
        init_source(src[u], c[u], "s" + std::to_string(i) + ".");
    }
    std::vector<std::string> err((size_t)k);
    std::vector<std::vector<int>> counts((size_t)k);
    const bool epochs = chance("epochwise", 50);           // the caller runs the epochs one by one and gets their counts
    {
        sim::Scope s;
        std::vector<std::thread> th;
        for (int i = 0; i < k; i++) th.emplace_back([&, i] {
            size_t u = (size_t)i;
            try {
                if (!epochs) m[u].train(src[u], c[u].hp);
                else {
                    for (auto& l : m[u].layers) l->setBatchSize((size_t)c[u].hp.batch_size);
                    for (int e = 0; e < c[u].hp.num_epochs; e++) { int n = m[u].runEpoch(src[u], c[u].hp); src[u].reset(); sim::Pause p; counts[u].push_back(n); }
                }
            }
            catch (std::exception& e) { sim::Pause p; err[(size_t)i] = e.what(); }
        });
        for (auto& t : th) t.join();
    }
    for (size_t i = 0; i < (size_t)k; i++) {
        digest_model(m[i]);
        if (!err[i].empty()) sim::violation("exception", "train threw while another model was trained: " + err[i] + show(c[i]));
        if (r[i].margin.m < TIE) { sim::probe("skip.near_tie"); continue; }
        std::string d = diff_params(r[i].net, m[i], TOL);
        if (!d.empty()) sim::violation("result", sim::fmt("model %zu trained next to others differs from being trained alone: ", i) + d + show(c[i]));
        if (r[i].label_margin.m >= TIE) for (size_t e = 0; e < counts[i].size() && e < r[i].correct.size(); e++) if (counts[i][e] != r[i].correct[e])
            sim::violation("count", sim::fmt("model %zu trained next to others: epoch %zu counts %d correct predictions, alone %ld", i, e, counts[i][e], r[i].correct[e]) + show(c[i]));
        sim::probe("checked");
    }
}

const uint64_t BUDGET = 400000000ull;
Reg r01("C01", s_c01, sim::OPT_MEM, BUDGET);
Reg r02("C02", s_c02, sim::OPT_MEM, BUDGET);
Reg r03("C03", s_c03, sim::OPT_MEM, BUDGET);
Reg r04("C04", s_c04, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r05("C05", s_c05, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r06("C06", s_c06, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r07("C07", s_c07, sim::OPT_MEM, BUDGET);
Reg r08("C08", s_c08, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r16("C16", s_c16, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
} // namespace

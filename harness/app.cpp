// Whole-program scenarios (C14, C15): the repository's main() with its data and model
// files on the simulated disk.
#include "model.h"
#include "mnist.h"
#include "scen.h"
#include <cstdarg>
#include <cstring>

extern "C" int repo_main(int argc, char** argv);
namespace { bool print_c(const char* f, va_list a); }
// what the program prints with C functions goes to the same place as what it prints with streams
extern "C" int printf(const char* f, ...) { va_list a; va_start(a, f); va_list b; va_copy(b, a); int n = print_c(f, a) ? 0 : vfprintf(stdout, f, b); va_end(b); va_end(a); return n; }
extern "C" int __printf_chk(int, const char* f, ...) { va_list a; va_start(a, f); va_list b; va_copy(b, a); int n = print_c(f, a) ? 0 : vfprintf(stdout, f, b); va_end(b); va_end(a); return n; }

namespace {
const char* TI = "/simfs/data/MNIST Train Images.ubyte-img";
const char* TL = "/simfs/data/MNIST Train Labels.ubyte-label";
const char* VI = "/simfs/data/MNIST Test Images.ubyte-img";
const char* VL = "/simfs/data/MNIST Test Labels.ubyte-label";
const std::string OUT = "/simfs/data/result.model_data";

struct App {
    Mnist train, test;
    std::string old_text;              // the model stored before, "" if none
    std::stringbuf out, err; std::streambuf *o = nullptr, *e = nullptr;
    bool save = true;
    std::string unreadable;            // what part of the data is missing, "" if all can be read
} *A;
bool print_c(const char* f, va_list a) {
    if (!A || !A->o || std::cout.rdbuf() != &A->out || !sim::active()) return false;
    char buf[512]; int n = vsnprintf(buf, sizeof buf, f, a);
    if (n < 0 || n >= (int)sizeof buf) return false;
    sim::Pause p;
    A->out.sputn(buf, n);
    return true;
}

void draw_app() {
    A = new App;
    sim::Rng r((uint64_t)P("valueseed", 1, 1 << 20));
    int h = (int)P("h", 12, 15), w = (int)P("w", 12, 15);
    int nt = (int)P("ntrain", 2, 8), nv = (int)P("ntest", 1, 14);
    if (chance("longer", 12)) { nt = (int)P("Ntrain", 30, 70); nv = (int)P("Ntest", 1, 40); sim::probe("cfg.longer"); }
    int crowd = 0;
    if (chance("crowd", 5)) { crowd = (int)P("CPUs", 8, 72); nv = crowd + (int)P("more", 0, 9); nt = 2; h = w = 12; sim::probe("cfg.crowd"); }
    A->train = Mnist::draw(nt, h, w, r);
    A->test = Mnist::draw(nv, h, w, r, chance("onelabel", 60) ? (int)r.below(10) : -1);
    sim::fs_put(TI, A->train.image_file()); sim::fs_put(TL, A->train.label_file());
    sim::fs_put(VI, A->test.image_file()); sim::fs_put(VL, A->test.label_file());
    sim::set_cpu_count(crowd ? crowd : chance("manycpus", 4) ? (int)P("Cpus", 7, 40) : (int)P("cpus", 1, 6));
    if (chance("extremerand", 15)) sim::set_rand_extreme((int)P("extreme", 5, 300));
}
// 0..255 or the program died
int run_app() {
    static char a0[] = "cnn", a1[] = "result";
    char* argv[] = {a0, A->save ? a1 : nullptr, nullptr};
    A->o = std::cout.rdbuf(&A->out); A->e = std::cerr.rdbuf(&A->err);
    int rc;
    try { sim::Scope s; rc = repo_main(A->save ? 2 : 1, argv); }
    catch (std::exception& e) { sim::event(std::string("exception left main: ") + e.what()); rc = 134; }
    catch (sim::AssertionFailed& e) { sim::event(e.what); rc = 134; }
    catch (...) { rc = 134; }
    std::cout.rdbuf(A->o); std::cerr.rdbuf(A->e);
    return rc;
}
// the program's network with the parameters of a loaded model
bool to_ref(Model& m, ref::Net& n, std::string& why) {
    n.ix = A->test.h; n.iy = A->test.w; n.iz = 1;
    auto conv = [&](int s, int z, int k) { ref::Layer l; l.kind = ref::CONV; l.fx = l.fy = s; l.fz = z; l.n = k; n.layers.push_back(l); };
    auto act = [&](ref::Act a) { ref::Layer l; l.kind = ref::ACT; l.act = a; n.layers.push_back(l); };
    auto pool = [&] { ref::Layer l; l.kind = ref::POOL; l.px = l.py = l.sx = l.sy = 2; l.pool = ref::PMAX; n.layers.push_back(l); };
    conv(5, 1, 2); act(ref::SIGMOID); pool(); conv(3, 2, 4); act(ref::RELU); pool();
    { ref::Layer l; l.kind = ref::FC; l.n = 10; n.layers.push_back(l); }
    { ref::Layer l; l.kind = ref::SOFTMAX; n.layers.push_back(l); }
    for (int i = 0; i < 10; i++) n.labels.push_back(std::to_string(i));
    if (m.layers.size() != n.layers.size()) { why = sim::fmt("%zu layers instead of %zu", m.layers.size(), n.layers.size()); return false; }
    if (m.output_labels != n.labels) { why = "other output labels"; return false; }
    int x = n.ix, y = n.iy, z = n.iz;
    for (size_t i = 0; i < n.layers.size(); i++) {
        ref::Layer& l = n.layers[i];
        size_t nw = l.kind == ref::CONV ? (size_t)(l.fx * l.fy * l.fz * l.n) : l.kind == ref::FC ? (size_t)(x * y * z * l.n) : 0, nb = nw ? (size_t)l.n : 0;
        if (nw && ((size_t)m.layers[i]->weights.size() != nw || (size_t)m.layers[i]->biases.size() != nb)) { why = sim::fmt("layer %zu has %zu weights and %zu biases instead of %zu and %zu", i, (size_t)m.layers[i]->weights.size(), (size_t)m.layers[i]->biases.size(), nw, nb); return false; }
        for (size_t k = 0; k < nw; k++) l.w.push_back(m.layers[i]->weights[k]);
        for (size_t k = 0; k < nb; k++) l.b.push_back(m.layers[i]->biases[k]);
        for (double v : l.w) if (!std::isfinite(v)) { why = "a weight that is not finite"; return false; }
        ref::out_dims(l, x, y, z);
    }
    return true;
}
double printed_accuracy(bool& found) {
    std::string t = A->out.str();
    size_t p = t.find("Validation accuracy was");
    found = p != std::string::npos;
    return found ? strtod(t.c_str() + p + 23, nullptr) : 0;
}
// the examples printed after the validation: each one is a test image with the model's result for it
struct Example { int label; long best; double conf; int image; };
// the picture printed in a part of the output, one row of grey cells per line; empty if there is none
std::vector<std::vector<int>> picture(const std::string& t) {
    std::vector<std::vector<int>> rows(1);
    for (size_t p = 0; p < t.size(); p++) {
        int a, b, c, len = 0;
        if (t[p] == '\n') { if (!rows.back().empty()) rows.emplace_back(); }
        else if (t[p] == 27 && sscanf(t.c_str() + p, "\033[48;2;%d;%d;%dm%n", &a, &b, &c, &len) == 3 && len) { rows.back().push_back(a == b && b == c ? a : -1); p += (size_t)len - 1; }
    }
    if (rows.back().empty()) rows.pop_back();
    return rows;
}
// the brightness grows with the value, the darkest point is black
bool shows(const std::vector<std::vector<int>>& pic, int image) {
    const Mnist& m = A->test;
    if ((int)pic.size() != m.h) return false;
    double lo = 1e9, hi = -1e9;
    for (int r = 0; r < m.h; r++) for (int c = 0; c < m.w; c++) { lo = std::min(lo, m.value(image, r, c)); hi = std::max(hi, m.value(image, r, c)); }
    for (int r = 0; r < m.h; r++) {
        if ((int)pic[(size_t)r].size() != m.w) return false;
        if (hi - lo < 1e-6) continue;
        for (int c = 0; c < m.w; c++) if (std::fabs(pic[(size_t)r][(size_t)c] - 255 * (m.value(image, r, c) - lo) / (std::max(hi, 1.0) - lo)) > 2) return false;
    }
    return true;
}
std::string wrong_example(const std::vector<Example>& all) {
    std::string t = A->out.str(); size_t p = 0;
    while ((p = t.find("This image is a ", p)) != std::string::npos) {
        p += 16;
        size_t next = t.find("This image is a ", p), q = t.find("(actual label ", p);
        if (q == std::string::npos || q > next || q - p > 40) continue;
        long said = strtol(t.c_str() + p, nullptr, 10), actual = strtol(t.c_str() + q + 14, nullptr, 10);
        std::string part = t.substr(p, next == std::string::npos ? next : next - p);
        size_t li = part.find("Label Index:"), cf = part.find("Confidence:");
        bool label = false, best = false, ok = false, shown = false;
        std::vector<std::vector<int>> pic = picture(part);
        for (auto& e : all) {
            if (e.label != actual) continue;
            label = true;
            if (e.best != said || (li == std::string::npos || strtol(part.c_str() + li + 12, nullptr, 10) != e.best)) continue;
            best = true;
            if (cf != std::string::npos && std::fabs(strtod(part.c_str() + cf + 11, nullptr) - e.conf) < 1e-3) { ok = true; shown = shown || pic.empty() || shows(pic, e.image); }
        }
        if (!label) return sim::fmt("an example is printed with actual label %ld, no test image has it", actual);
        if (!best) return sim::fmt("an example with actual label %ld is printed as %ld, the model classifies no such test image so", actual, said);
        if (!ok) return sim::fmt("an example with actual label %ld classified as %ld is printed with a confidence the model has for no such test image", actual, said);
        if (!shown) return sim::fmt("an example is printed with a picture that is not the test image with label %ld which the model classifies as %ld with that confidence", actual, said);
        sim::probe("checked.example"); if (!pic.empty()) sim::probe("checked.picture");
    }
    return "";
}
// the file is complete and is the model the program validated; "" or what is wrong
std::string saved_is_validated(bool& tie, bool with_examples) {
    tie = false;
    Model m; int ok;
    try { sim::Scope s; ok = m.loadModel(OUT); } catch (...) { return "loading it throws"; }
    if (!ok) return "it cannot be loaded";
    ref::Net n; std::string why;
    if (!to_ref(m, n, why)) return "it holds " + why;
    bool found; double acc = printed_accuracy(found);
    if (!found) return "the program printed no validation accuracy";
    long correct = 0;
    std::vector<Example> examples;
    for (int i = 0; i < A->test.n; i++) {
        ref::Tensor t(n.ix, n.iy, 1);
        for (int r = 0; r < n.ix; r++) for (int c = 0; c < n.iy; c++) t.at(r, c, 0) = (float)A->test.value(i, r, c);
        ref::Margin lm; ref::Trace tr = ref::forward(n, t, nullptr, &lm);
        if (lm.m < TIE) tie = true;
        if ((int)tr.best == (int)(unsigned char)A->test.labels[(size_t)i]) correct++;
        examples.push_back({(int)(unsigned char)A->test.labels[(size_t)i], (long)tr.best, tr.a.back().v[tr.best], i});
    }
    double want = 100.0 * (double)correct / A->test.n;
    if (tie) return "";
    if (correct) sim::probe("acc.nonzero");
    if (std::fabs(acc - want) > 1e-3) return sim::fmt("the program reported a validation accuracy of %g%%, the saved model has %g%% on the %d test images", acc, want, A->test.n);
    return with_examples ? wrong_example(examples) : "";
}

// ---------------------------------------------------------------- C14
void s_c14() {
    draw_app();
    if (chance("benign", 30)) sim::fault_arm(sim::S_DISK, 1.0 / (double)P("mean", 1, 10), 1u << sim::D_SHORT | 1u << sim::D_EINTR, 40);
    int rc = run_app();
    sim::fault_disarm(sim::S_DISK);
    if (sim::live_threads()) sim::violation("leftover-threads", "worker threads still running after the program returned");
    if (rc) sim::violation("exit", sim::fmt("the program failed with status %d on readable data and a working disk; stderr: ", rc) + A->err.str());
    bool tie; std::string d = saved_is_validated(tie, true);
    if (!d.empty()) sim::violation("validation", "validation and saved model disagree: " + d);
    if (tie) { sim::probe("skip.near_tie"); return; }
    sim::probe("checked");
}

// ---------------------------------------------------------------- C15
std::string file_text() { std::string s; return sim::fs_get(OUT, s) ? s : ""; }

void judge(int rc, bool died) {
    for (int s : {sim::S_DISK, sim::S_THREAD, sim::S_ALLOC}) sim::fault_disarm(s);
    bool crashed = sim::fs_crashed();
    sim::fs_heal();
    std::string now = file_text();
    sim::event(sim::fmt("program ended: status %d died %d killed %d", rc, died, crashed));
    if (!crashed && rc == 0) {
        if (!A->unreadable.empty()) sim::violation("unreadable", "the program ended successfully although " + A->unreadable);
        if (!A->save) { sim::probe("checked.nosave"); if (now != A->old_text) sim::violation("unrequested", "a model file changed although no file name was given"); return; }
        bool tie; std::string d = saved_is_validated(tie, false);
        if (!d.empty()) sim::violation("lost-model", "the program ended successfully but the model file is not what it trained: " + d);
        sim::probe("checked.saved");
        return;
    }
    if (!A->unreadable.empty()) sim::probe("checked.unreadable");
    // not successful: the file is untouched or complete
    if (now == A->old_text) { sim::probe(crashed ? "checked.killed_old" : "checked.failed_old"); return; }
    if (!sim::fs_exists(OUT)) sim::violation("destroyed", "the program failed and the model stored before is gone");
    Model m; int ok = 0; ref::Net n; std::string why;
    try { sim::Scope s; ok = m.loadModel(OUT); } catch (...) {}
    if (!ok) sim::violation("destroyed", "the program failed and left a model file that cannot be loaded");
    if (!to_ref(m, n, why)) sim::violation("destroyed", "the program failed and left a model file with " + why);
    sim::probe(crashed ? "checked.killed_new" : "checked.failed_new");
}
void on_death(int status, const std::string&) {
    std::cout.rdbuf(A->o); std::cerr.rdbuf(A->e);
    judge(status, true);
}
void s_c15() {
    draw_app();
    A->save = !chance("nosave", 5);
    if (chance("previous", 60)) {
        sim::Rng r((uint64_t)P("oldseed", 1, 1 << 20));
        NetOpts o; o.max_side = 5; ref::Net n = draw_net("old.", o); draw_params(n, r);
        Model m; build(n, m); push_params(n, m);
        bool ok; { sim::Scope s; ok = m.saveModel(OUT); }
        if (!ok) sim::violation("save", "saving to a working disk failed");
        A->old_text = file_text();
    }
    if (chance("leftover", 12)) {
        // an earlier run was killed while it saved
        NetOpts o; o.max_side = 5; ref::Net n = draw_net("lost.", o); sim::Rng r(7); draw_params(n, r);
        Model m; build(n, m); push_params(n, m);
        sim::fault_arm(sim::S_DISK, 1.0 / (double)P("lostmean", 1, 3), 1u << sim::D_CRASH_BEFORE | 1u << sim::D_CRASH_TORN, 1);
        try { sim::Scope s; m.saveModel(OUT); } catch (sim::AssertionFailed&) { throw; } catch (...) {}
        sim::fault_disarm(sim::S_DISK); sim::fs_heal();
        A->old_text = file_text(); sim::probe("cfg.leftover");
    }
    const uint32_t crash = 1u << sim::D_CRASH_BEFORE | 1u << sim::D_CRASH_TORN | 1u << sim::D_CRASH_AFTER;
    const uint32_t wr = 1u << sim::D_ENOSPC | 1u << sim::D_CLOSEFAIL | 1u << sim::D_RENAMEFAIL;
    long kind = P("faults", 0, 9);
    double mean = (double)P("mean", 2, 14);
    int mx = (int)P("max", 1, 2);
    bool any = true;
    // writing happens at the end of the program only: faults on writes hit the save, the others also reading the data
    if (kind == 1) sim::fault_arm(sim::S_DISK, 1 / mean, crash, 1);
    else if (kind == 2) sim::fault_arm(sim::S_DISK, 1 / mean, 1u << sim::D_EIO | 1u << sim::D_EIO_STICKY | 1u << sim::D_OPENFAIL, mx);
    else if (kind == 3) sim::fault_arm(sim::S_THREAD, 1 / mean, 1, mx);
    else if (kind == 4) sim::fault_arm_alloc_workers(1.0 / (double)sim::PL("allocmean", 50, 50000), mx);
    else if (kind == 5) sim::fault_arm(sim::S_DISK, 0.4, crash & ~(1u << sim::D_CRASH_BEFORE), 1);
    else if (kind >= 6) sim::fault_arm(sim::S_DISK, 1.0 / (double)P("wmean", 1, 3), wr | (kind == 9 ? 1u << sim::D_SHORT : 0), 2);
    else any = false;
    if (chance("cutdata", 12)) {
        const char* f[] = {TI, TL, VI, VL};
        long which = P("cutfile", 0, 3), head = which % 2 ? 8 : 16, how = P("cuthow", 0, 4);
        std::string t; sim::fs_get(f[which], t);
        const char* what = "missing";
        if (how == 0) sim::fs_remove(f[which]);
        else {
            long keep = how == 1 ? P("cutkeep", 0, (long)t.size() - 1) : how == 2 ? (long)t.size() - 1 : how == 3 ? head : head + ((long)t.size() - head) / 2;
            t.resize((size_t)keep); sim::fs_put(f[which], t); what = "cut off";
        }
        A->unreadable = std::string(f[which] + 7) + " is " + what; any = true; sim::probe("cfg.cut_data");
    }
    sim::set_death_hook(on_death);
    int rc = run_app();
    sim::set_death_hook(nullptr);
    if (!any && rc) sim::violation("exit", sim::fmt("the program failed with status %d without any fault; stderr: ", rc) + A->err.str());
    judge(rc, false);
}

// ---------------------------------------------------------------- C21
void files(const Mnist& train, const Mnist& test) {
    sim::fs_put(TI, train.image_file()); sim::fs_put(TL, train.label_file());
    sim::fs_put(VI, test.image_file()); sim::fs_put(VL, test.label_file());
}
Mnist first(const Mnist& m, int n) { Mnist f = m; f.n = n; f.px.resize((size_t)n); f.labels.resize((size_t)n); return f; }
// the parameters the program starts from: what it saves after training on nothing
bool initial(ref::Net& n, uint64_t seed) {
    sim::set_rand_seed(seed);
    A->out.str(""); A->err.str("");
    files(first(A->train, 1), first(A->test, 1));
    if (int rc = run_app()) sim::violation("exit", sim::fmt("the program failed with status %d on one training image, readable data and a working disk; stderr: ", rc) + A->err.str());
    Model m; std::string why; bool ok;
    { sim::Scope s; ok = m.loadModel(OUT); }
    n = ref::Net();
    return ok && to_ref(m, n, why);
}
void s_c21() {
    draw_app();
    if (chance("batches", 12)) { sim::Rng r((uint64_t)P("vs2", 1, 1 << 20)); A->train = Mnist::draw((int)P("NTrain", 33, 80), A->train.h, A->train.w, r); sim::probe("cfg.several_batches"); }
    uint64_t seed = (uint64_t)P("initseed", 1, 1 << 20);
    int cpus = sim::cpu_count();
    ref::Net n, n2;
    sim::set_cpu_count(1);
    if (!initial(n, seed)) { sim::probe("skip.start_unknown"); return; }
    sim::sleep_ns((uint64_t)P("wait", 1, 1000000));
    if (!initial(n2, seed)) { sim::probe("skip.start_unknown"); return; }
    // only if the start depends on nothing but the simulated random numbers is it the start of the next run as well
    for (size_t i = 0; i < n.layers.size(); i++) if (n.layers[i].w != n2.layers[i].w || n.layers[i].b != n2.layers[i].b) { sim::probe("skip.start_unknown"); return; }
    sim::set_cpu_count(cpus);
    sim::set_rand_seed(seed);
    A->out.str(""); A->err.str("");
    files(A->train, A->test);
    int rc = run_app();
    if (rc) sim::violation("exit", sim::fmt("the program failed with status %d on readable data and a working disk; stderr: ", rc) + A->err.str());
    Model m; bool ok;
    { sim::Scope s; ok = m.loadModel(OUT); }
    if (!ok) sim::violation("save", "the program ended successfully but its model cannot be loaded");
    std::vector<Sample> data;
    for (int i = 1; i < A->train.n; i++) {
        Sample q; q.img = ref::Tensor(n.ix, n.iy, 1); q.label = (size_t)(unsigned char)A->train.labels[(size_t)i];
        for (int r = 0; r < n.ix; r++) for (int c = 0; c < n.iy; c++) q.img.at(r, c, 0) = (float)A->train.value(i, r, c);
        data.push_back(q);
    }
    RefTrain t; t.net = n; t.run(data, data.size(), 32, 2, 0.03);
    if (t.margin.m < TIE) { sim::probe("skip.near_tie"); return; }
    std::string d = diff_params(t.net, m, TOL);
    if (!d.empty()) sim::violation("result", sim::fmt("the saved model is not what gradient descent on the %d training images gives: ", A->train.n) + d);
    sim::probe("checked");
    if (t.label_margin.m < TIE) return;
    std::vector<double> acc = parse_accuracy(A->out.str());
    size_t k = 0;
    for (double a : acc) {                                     // the first lines are the epochs
        if (k >= t.correct.size()) break;
        double want = 100.0 * (double)t.correct[k] / (double)data.size();
        if (std::fabs(a - want) > 1e-3) sim::violation("accuracy", sim::fmt("epoch %zu reports %g%% correct predictions, %ld of %zu were correct", k, a, t.correct[k], data.size()));
        k++;
    }
    if (k) sim::probe("checked.accuracy");
}

const uint64_t BUDGET = 600000000ull;
Reg r14("C14", s_c14, sim::OPT_MEM | sim::OPT_RACE, BUDGET);
Reg r21("C21", s_c21, sim::OPT_MEM, BUDGET);
Reg r15("C15", s_c15, sim::OPT_MEM, BUDGET);
} // namespace

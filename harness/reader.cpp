// Scenario for the MNIST reader (C13).
#include "mnist.h"
#include "scen.h"
#include "cnn_from_scratch/MNISTReader.h"
#include <cmath>
#include <deque>
#include <memory>
#include <thread>
using sim::P; using sim::chance;

namespace {
std::string wrong(const Mnist& f, int idx, const my_cnn::Image& im) {
    auto& d = im.data;
    if ((int)d.dim().x != f.h || (int)d.dim().y != f.w || (int)d.dim().z != 1) return sim::fmt("image has size %dx%dx%d, stored is %dx%d", (int)d.dim().x, (int)d.dim().y, (int)d.dim().z, f.h, f.w);
    for (int r = 0; r < f.h; r++) for (int c = 0; c < f.w; c++) {
        double v = d((size_t)r, (size_t)c, (size_t)0);
        if (!(std::fabs(v - f.value(idx, r, c)) < 1e-6)) return sim::fmt("pixel %d,%d is %g, stored is %g", r, c, v, f.value(idx, r, c));
    }
    if (im.label != f.label(idx)) return sim::fmt("label is %d, stored is %d", (int)im.label, f.label(idx));
    return "";
}
struct R {
    Mnist f; std::string ip, lp;
    int have = 0;                  // images whose pixels and label are completely stored
    std::unique_ptr<my_cnn::MNISTReader> rd;
    bool tainted = false;          // an operation failed since the last successful getImage
};
void open_reader(R& r, bool& failed) {
    failed = false;
    sim::allow_assert(true);
    try { sim::Scope s; r.rd.reset(new my_cnn::MNISTReader(r.ip, r.lp)); }
    catch (std::exception&) { failed = true; }
    catch (sim::AssertionFailed&) { failed = true; }
    sim::allow_assert(false);
}

// every thread has a reader of its own, for files of its own or for the same ones
void c13_threads() {
    sim::Rng rng((uint64_t)P("valueseed", 1, 1 << 20));
    const size_t nt = (size_t)P("threads", 2, 4), nf = chance("samefiles", 50) ? 1 : nt;
    std::deque<Mnist> fs;
    for (size_t i = 0; i < nf; i++) {
        std::string q = "f" + std::to_string(i) + ".";
        fs.push_back(Mnist::draw((int)P(q + "n", 1, 8), (int)P(q + "h", 1, 6), (int)P(q + "w", 1, 6), rng));
        sim::fs_put(sim::fmt("/simfs/data/img%zu", i), fs.back().image_file()); sim::fs_put(sim::fmt("/simfs/data/lab%zu", i), fs.back().label_file());
    }
    if (chance("benign", 40)) sim::fault_arm(sim::S_DISK, 1.0 / (double)P("mean", 1, 10), 1u << sim::D_SHORT | 1u << sim::D_EINTR, 40);
    struct Job { const Mnist* f; std::string ip, lp, err; std::vector<long> ops; long images = 0; };
    std::deque<Job> jobs;
    for (size_t t = 0; t < nt; t++) {
        jobs.emplace_back(); Job& j = jobs.back(); size_t f = t % nf;
        j.f = &fs[f]; j.ip = sim::fmt("/simfs/data/img%zu", f); j.lp = sim::fmt("/simfs/data/lab%zu", f);
        for (size_t i = 0, n = 1 + rng.below(8); i < n; i++) j.ops.push_back(rng.chance(0.5) ? -1 : (long)rng.below((uint64_t)j.f->n));
    }
    {
        sim::Scope sc;
        std::vector<std::thread> th;
        for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
            Job& j = jobs[t];
            try {
                my_cnn::MNISTReader rd(j.ip, j.lp);
                for (size_t i = 0; i < j.ops.size(); i++) {
                    size_t at = rd.imageIndex();
                    my_cnn::Image im;
                    if (j.ops[i] >= 0) { at = (size_t)j.ops[i]; im = rd.getImage(at); }
                    else if (at < (size_t)j.f->n) im = rd.nextImage();
                    else continue;
                    sim::Pause p; j.images++;
                    std::string d = wrong(*j.f, (int)at, im);
                    if (d.empty() && rd.imageIndex() != at + 1) d = sim::fmt("the reader says the next one is %zu", rd.imageIndex());
                    if (!d.empty()) { j.err = sim::fmt("image %zu of %d: ", at, j.f->n) + d; return; }
                }
            } catch (std::exception& e) { sim::Pause p; j.err = std::string("exception: ") + e.what(); }
        });
        for (auto& t : th) t.join();
    }
    sim::fault_disarm(sim::S_DISK); sim::fs_heal();
    for (size_t t = 0; t < nt; t++) { if (!jobs[t].err.empty()) sim::violation("concurrent-readers", sim::fmt("thread %zu of %zu with a reader of its own: ", t, nt) + jobs[t].err); if (jobs[t].images) sim::probe("checked.thread_image"); }
    if (sim::fs_open_handles()) sim::violation("leak", "files still open after the readers are gone");
}
void s_c13() {
    if (chance("concurrent", 15)) { c13_threads(); return; }
    sim::Rng rng((uint64_t)P("valueseed", 1, 1 << 20));
    int nr = chance("two", 25) ? 2 : 1;
    std::deque<R> rs;
    for (int i = 0; i < nr; i++) {
        std::string q = "f" + std::to_string(i) + ".";
        rs.emplace_back(); R& r = rs.back();
        int h = (int)P(q + "h", 1, 7), w = (int)P(q + "w", 1, 7), n = (int)P(q + "n", 1, 14);
        if (chance(q + "many", 10)) { n = (int)P(q + "N", 15, 300); h = (int)P(q + "H", 1, 28); w = (int)P(q + "W", 1, 28); sim::probe("cfg.many"); }   // more than one buffer
        r.f = Mnist::draw(n, h, w, rng); r.have = n;
        r.ip = sim::fmt("/simfs/data/img%d", i); r.lp = sim::fmt("/simfs/data/lab%d", i);
        if (chance(q + "anylabel", 25)) for (char& c : r.f.labels) c = (char)rng.below(256);
        bool huge = chance(q + "huge", 4);
        if (huge) {   // positions beyond 31 and 32 bits
            h = (int)P(q + "hh", 1, 30); w = (int)P(q + "hw", 1, 30);
            uint64_t want = (uint64_t)P(q + "hsize", 1, 24) << 28;
            n = (int)std::min<uint64_t>(want / (uint64_t)(h * w) + 2, 2147483647); r.have = n;
            r.f = Mnist::huge(n, h, w, rng.next() | 1);
            sim::probe("cfg.huge");
        }
        std::string a = r.f.image_file(), b = r.f.label_file();
        long dmg = huge ? 0 : P(q + "damage", 0, 16);
        bool must_fail = false, may_fail = false;
        if (dmg == 1) { size_t k = rng.below(a.size()); a.resize(k); r.have = k < 16 ? -1 : (int)std::min<size_t>((size_t)n, (k - 16) / (size_t)(h * w)); sim::probe("cfg.images_truncated"); }
        if (dmg == 2) { size_t k = rng.below(b.size()); b.resize(k); r.have = k < 8 ? -1 : (int)std::min<size_t>((size_t)n, k - 8); sim::probe("cfg.labels_truncated"); }
        if (dmg == 3) { (rng.chance(0.5) ? a : b)[rng.below(4)] ^= (char)(1 << rng.below(7)); must_fail = true; sim::probe("cfg.bad_magic"); }
        if (dmg == 4) { (rng.chance(0.5) ? a : b)[7] ^= 1; must_fail = true; sim::probe("cfg.count_mismatch"); }
        if (dmg == 7) {   // more bytes than the header announces: no image beyond the announced ones may come from them
            for (std::string* t : {&a, &b}) for (size_t i = t == &a ? (size_t)(h * w) * (1 + rng.below(3)) : 1 + rng.below(3); i; i--) *t += (char)rng.below(256);
            may_fail = true; sim::probe("cfg.trailing_bytes"); }
        if (dmg == 8) { std::string v = Mnist::be(rng.chance(0.5) ? 0u : 0u - 1 - (uint32_t)rng.below(40)); a.replace(rng.chance(0.5) ? 8 : 12, 4, v); must_fail = true; sim::probe("cfg.bad_size"); }
        if (dmg == 9) { std::string v = Mnist::be(0u - 1 - (uint32_t)rng.below(40)); a.replace(4, 4, v); b.replace(4, 4, v); must_fail = true; sim::probe("cfg.negative_count"); }
        if (dmg == 10) { n = r.f.n = r.have = 0; a = Mnist::be(2051) + Mnist::be(0) + a.substr(8); b = Mnist::be(2049) + Mnist::be(0) + b.substr(8); if (rng.chance(0.5)) { a.resize(16); b.resize(8); } may_fail = true; sim::probe("cfg.no_images"); }
        if (dmg == 5) { (rng.chance(0.5) ? a : b).clear(); r.have = -1; }
        if (r.have < 0) must_fail = true;
        if (huge) r.f.put(r.ip, r.lp); else { sim::fs_put(r.ip, a); sim::fs_put(r.lp, b); }
        if (dmg == 6) { sim::fs_remove(rng.chance(0.5) ? r.ip : r.lp); must_fail = true; sim::probe("cfg.missing_file"); }
        bool fl = chance(q + "openfault", 10), oom = !fl && chance(q + "openalloc", 8);
        if (oom) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)P(q + "oamean", 1, 12), 1, 1);
        if (fl) sim::fault_arm(sim::S_DISK, 0.3, 1u << sim::D_EIO | 1u << sim::D_OPENFAIL | 1u << sim::D_EIO_STICKY, 1);
        bool failed;
        open_reader(r, failed);
        int fired = fl ? sim::faults_fired(sim::S_DISK) : oom ? sim::faults_fired(sim::S_ALLOC) : 0;
        sim::fault_disarm(sim::S_DISK); sim::fault_disarm(sim::S_ALLOC); sim::fs_heal();
        if (failed) {
            if (!must_fail && !may_fail && !fired) sim::violation("reader", "readable files were rejected");
            sim::probe("checked.rejected"); return;
        }
        if (must_fail) sim::violation("reader", "files with a missing, damaged or mismatching header were accepted");
        if ((int)r.rd->numImages() != n) sim::violation("reader", sim::fmt("reader announces %zu images, the files hold %d", r.rd->numImages(), n));
        if (r.rd->imageIndex() != 0) sim::violation("reader", "a new reader does not start at the first image");
    }
    bool faults = chance("faults", 50);
    if (faults) {
        long kind = P("kind", 0, 2);
        sim::fault_arm(sim::S_DISK, 1.0 / (double)P("mean", 1, 12), kind == 0 ? 1u << sim::D_EIO : kind == 1 ? 1u << sim::D_SHORT | 1u << sim::D_EINTR : 1u << sim::D_EIO | 1u << sim::D_EIO_STICKY | 1u << sim::D_SHORT | 1u << sim::D_EINTR, 40);
    }
    const bool memory = chance("memory", 25);
    int ops = (int)P("ops", 1, 60);
    double p_next = (double)P("pnext", 10, 95) / 100;
    for (int k = 0; k < ops; k++) {
        R& r = rs[rng.below(rs.size())];
        int before = faults ? sim::faults_fired(sim::S_DISK) : 0;
        my_cnn::Image im; bool threw = false; std::string what;
        const bool oom = memory && rng.chance(0.3);
        if (oom) sim::fault_arm(sim::S_ALLOC, 1.0 / (double)(1 + rng.below(8)), 1, 1);
        size_t idx; bool next = rng.chance(p_next);
        size_t at = r.rd->imageIndex();
        if (next) {
            idx = at;
            try { sim::Scope s; im = r.rd->nextImage(); } catch (std::exception& e) { threw = true; what = e.what(); }
        } else {
            idx = !r.f.n || rng.chance(0.12) ? (size_t)r.f.n + (rng.chance(0.3) ? (rng.next() >> 1) % (1u << 31) : rng.below(3)) : rng.below((uint64_t)r.f.n);
            if (rng.chance(0.02)) idx = (size_t)0 - 1 - rng.below(3) * 0x7fffffffull;
            if (r.f.n && rng.chance(0.1)) idx = (size_t)r.f.n - 1;
            try { sim::Scope s; im = r.rd->getImage(idx); } catch (std::exception& e) { threw = true; what = e.what(); }
        }
        int harm = faults ? sim::faults_fired(sim::S_DISK) - before : 0;
        if (oom) { if (sim::faults_fired(sim::S_ALLOC)) { harm++; sim::probe(threw ? "checked.out_of_memory" : "checked.memory_absorbed"); } sim::fault_disarm(sim::S_ALLOC); }
        sim::event(sim::fmt("%s %zu -> %s", next ? "next" : "get", idx, threw ? "error" : "image"));
        const char* op = next ? "nextImage" : "getImage";
        if (!threw) {
            if (idx >= (size_t)r.f.n) sim::violation("reader", sim::fmt("%s returned an image with index %zu out of %d", op, idx, r.f.n));
            std::string d = wrong(r.f, (int)idx, im);
            if (!d.empty()) sim::violation("reader", sim::fmt("%s for image %zu of %d returned something else: ", op, idx, r.f.n) + d);
            if (r.rd->imageIndex() != idx + 1) sim::violation("reader", sim::fmt("after image %zu the reader says the next one is %zu", idx, r.rd->imageIndex()));
            sim::digest_bytes(&im.label, 1);
            if (!next) { if (r.tainted) sim::probe("checked.recovered"); r.tainted = false; }
            sim::probe("checked.image");
        } else {
            bool legit = idx >= (size_t)r.f.n || (int)idx >= r.have || harm > 0 || (next && r.tainted) || sim::fs_sick();
            if (!legit) sim::violation("reader", sim::fmt("%s failed for image %zu of %d although it can be read: ", op, idx, r.f.n) + what);
            r.tainted = true;
            sim::probe("checked.error");
            if (rng.chance(0.5)) sim::fs_heal();
        }
    }
    if (int n = nr) { (void)n; sim::fault_disarm(sim::S_DISK); sim::fs_heal(); }
    for (auto& r : rs) {
        // faults are over: every stored image can be read again
        for (int i = 0; i < r.f.n && i < 20; i++) {
            int idx = r.f.n <= 20 ? i : (int)rng.below((uint64_t)r.f.n);
            if (idx >= r.have) continue;
            my_cnn::Image im;
            try { sim::Scope s; im = r.rd->getImage((size_t)idx); } catch (std::exception& e) { sim::violation("recovery", sim::fmt("image %d cannot be read after the disk works again: ", idx) + e.what()); }
            std::string d = wrong(r.f, idx, im);
            if (!d.empty()) sim::violation("recovery", sim::fmt("image %d is wrong after the disk works again: ", idx) + d);
        }
        { sim::Scope s; r.rd.reset(); }
    }
    if (sim::fs_open_handles()) sim::violation("leak", "files still open after the reader is gone");
}
Reg r13("C13", s_c13, sim::OPT_MEM | sim::OPT_RACE, 400000000ull);
} // namespace

// Accesses made by the parts of libstdc++ that are compiled into the shared library and so are not
// instrumented: string members and stream operations (linked with --wrap, see `check`). A stream
// operation counts as a write of the pointers of its stream buffer; output to the standard
// streams by several threads at once is legal and left out; changing how they format (width, fill,
// flags, precision) is not, and is seen because it is compiled inline.
typedef std::string S_;
#define STR_ "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
#define KSTR_ "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
static inline void str_r(const S_* s, void* pc) { if (!act()) return; access_range((void*)s, 16, false, pc); access_range((void*)s->data(), s->size(), false, pc); }
static inline void str_w0(S_* s, void* pc) { if (!act()) return; access_range((void*)s, 16, true, pc); }
static inline void str_w1(S_* s, void* pc) { if (!act()) return; access_range((void*)s->data(), s->size() + 1, true, pc); }
static inline void buf_r(const void* p, size_t n, void* pc) { if (act() && n) access_range((void*)p, n, false, pc); }
static inline void stream_w(std::ios* s, void* pc) {
    if (!act() || s == &std::cout || s == &std::cerr || s == &std::clog || s == &std::cin) return;
    if (std::streambuf* b = s->rdbuf()) access_range((char*)b + 8, 48, true, pc);
}
#define PC_ __builtin_return_address(0)
#define DECL_(ret, id, args, sym) ret real_##id args __asm__("__real_" sym); ret wrap_##id args __asm__("__wrap_" sym);

DECL_(void, s_assign, (S_* t, const S_& o), STR_ "9_M_assignERKS4_")
void wrap_s_assign(S_* t, const S_& o) { str_r(&o, PC_); str_w0(t, PC_); real_s_assign(t, o); str_w1(t, PC_); }
DECL_(S_&, s_append_, (S_* t, const char* p, size_t n), STR_ "9_M_appendEPKcm")
S_& wrap_s_append_(S_* t, const char* p, size_t n) { buf_r(p, n, PC_); str_w0(t, PC_); real_s_append_(t, p, n); str_w1(t, PC_); return *t; }
DECL_(S_&, s_append1, (S_* t, const char* p), STR_ "6appendEPKc")
S_& wrap_s_append1(S_* t, const char* p) { str_w0(t, PC_); real_s_append1(t, p); str_w1(t, PC_); return *t; }
DECL_(S_&, s_append2, (S_* t, const char* p, size_t n), STR_ "6appendEPKcm")
S_& wrap_s_append2(S_* t, const char* p, size_t n) { buf_r(p, n, PC_); str_w0(t, PC_); real_s_append2(t, p, n); str_w1(t, PC_); return *t; }
DECL_(S_&, s_append3, (S_* t, const S_& o), STR_ "6appendERKS4_")
S_& wrap_s_append3(S_* t, const S_& o) { str_r(&o, PC_); str_w0(t, PC_); real_s_append3(t, o); str_w1(t, PC_); return *t; }
DECL_(S_&, s_assign1, (S_* t, const char* p), STR_ "6assignEPKc")
S_& wrap_s_assign1(S_* t, const char* p) { str_w0(t, PC_); real_s_assign1(t, p); str_w1(t, PC_); return *t; }
DECL_(S_&, s_assign2, (S_* t, const S_& o), STR_ "6assignERKS4_")
S_& wrap_s_assign2(S_* t, const S_& o) { str_r(&o, PC_); str_w0(t, PC_); real_s_assign2(t, o); str_w1(t, PC_); return *t; }
DECL_(S_&, s_eq, (S_* t, const S_& o), STR_ "aSERKS4_")
S_& wrap_s_eq(S_* t, const S_& o) { str_r(&o, PC_); str_w0(t, PC_); real_s_eq(t, o); str_w1(t, PC_); return *t; }
DECL_(S_&, s_eqc, (S_* t, const char* p), STR_ "aSEPKc")
S_& wrap_s_eqc(S_* t, const char* p) { str_w0(t, PC_); real_s_eqc(t, p); str_w1(t, PC_); return *t; }
DECL_(S_&, s_eqm, (S_* t, S_&& o), STR_ "aSEOS4_")
S_& wrap_s_eqm(S_* t, S_&& o) { str_r(&o, PC_); str_w0(&o, PC_); str_w0(t, PC_); real_s_eqm(t, std::move(o)); str_w1(t, PC_); return *t; }
DECL_(S_&, s_replace_, (S_* t, size_t a, size_t b, const char* p, size_t n), STR_ "10_M_replaceEmmPKcm")
S_& wrap_s_replace_(S_* t, size_t a, size_t b, const char* p, size_t n) { buf_r(p, n, PC_); str_w0(t, PC_); real_s_replace_(t, a, b, p, n); str_w1(t, PC_); return *t; }
DECL_(S_&, s_replace, (S_* t, size_t a, size_t b, const char* p, size_t n), STR_ "7replaceEmmPKcm")
S_& wrap_s_replace(S_* t, size_t a, size_t b, const char* p, size_t n) { buf_r(p, n, PC_); str_w0(t, PC_); real_s_replace(t, a, b, p, n); str_w1(t, PC_); return *t; }
DECL_(S_&, s_replace_aux, (S_* t, size_t a, size_t b, size_t n, char c), STR_ "14_M_replace_auxEmmmc")
S_& wrap_s_replace_aux(S_* t, size_t a, size_t b, size_t n, char c) { str_w0(t, PC_); real_s_replace_aux(t, a, b, n, c); str_w1(t, PC_); return *t; }
DECL_(void, s_resize, (S_* t, size_t n, char c), STR_ "6resizeEmc")
void wrap_s_resize(S_* t, size_t n, char c) { str_w0(t, PC_); real_s_resize(t, n, c); str_w1(t, PC_); }
DECL_(void, s_reserve, (S_* t, size_t n), STR_ "7reserveEm")
void wrap_s_reserve(S_* t, size_t n) { str_w0(t, PC_); real_s_reserve(t, n); }
DECL_(void, s_push, (S_* t, char c), STR_ "9push_backEc")
void wrap_s_push(S_* t, char c) { str_w0(t, PC_); real_s_push(t, c); str_w1(t, PC_); }
DECL_(void, s_swap, (S_* t, S_& o), STR_ "4swapERS4_")
void wrap_s_swap(S_* t, S_& o) { str_w0(t, PC_); str_w0(&o, PC_); real_s_swap(t, o); }
DECL_(void, s_copy1, (S_* t, const S_& o), STR_ "C1ERKS4_")
void wrap_s_copy1(S_* t, const S_& o) { str_r(&o, PC_); str_w0(t, PC_); real_s_copy1(t, o); str_w1(t, PC_); }
DECL_(void, s_copy2, (S_* t, const S_& o), STR_ "C2ERKS4_")
void wrap_s_copy2(S_* t, const S_& o) { str_r(&o, PC_); str_w0(t, PC_); real_s_copy2(t, o); str_w1(t, PC_); }
DECL_(int, s_cmp, (const S_* t, const S_& o), KSTR_ "7compareERKS4_")
int wrap_s_cmp(const S_* t, const S_& o) { str_r(t, PC_); str_r(&o, PC_); return real_s_cmp(t, o); }
DECL_(int, s_cmpc, (const S_* t, const char* p), KSTR_ "7compareEPKc")
int wrap_s_cmpc(const S_* t, const char* p) { str_r(t, PC_); return real_s_cmpc(t, p); }
DECL_(size_t, s_find, (const S_* t, const char* p, size_t a, size_t n), KSTR_ "4findEPKcmm")
size_t wrap_s_find(const S_* t, const char* p, size_t a, size_t n) { str_r(t, PC_); return real_s_find(t, p, a, n); }

// streams
DECL_(std::ostream&, o_ins, (std::ostream& o, const char* p, long n), "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
std::ostream& wrap_o_ins(std::ostream& o, const char* p, long n) { if (n > 0) buf_r(p, (size_t)n, PC_); stream_w(&o, PC_); return real_o_ins(o, p, n); }
DECL_(std::ostream&, o_cstr, (std::ostream& o, const char* p), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
std::ostream& wrap_o_cstr(std::ostream& o, const char* p) { stream_w(&o, PC_); return real_o_cstr(o, p); }
DECL_(std::ostream&, o_put, (std::ostream* o, char c), "_ZNSo3putEc")
std::ostream& wrap_o_put(std::ostream* o, char c) { stream_w(o, PC_); return real_o_put(o, c); }
DECL_(std::ostream&, o_write, (std::ostream* o, const char* p, long n), "_ZNSo5writeEPKcl")
std::ostream& wrap_o_write(std::ostream* o, const char* p, long n) { if (n > 0) buf_r(p, (size_t)n, PC_); stream_w(o, PC_); return real_o_write(o, p, n); }
DECL_(std::ostream&, o_flush, (std::ostream* o), "_ZNSo5flushEv")
std::ostream& wrap_o_flush(std::ostream* o) { stream_w(o, PC_); return real_o_flush(o); }
DECL_(std::ostream&, o_int, (std::ostream* o, int v), "_ZNSolsEi")
std::ostream& wrap_o_int(std::ostream* o, int v) { stream_w(o, PC_); return real_o_int(o, v); }
DECL_(std::ostream&, o_dbl, (std::ostream* o, double v), "_ZNSo9_M_insertIdEERSoT_")
std::ostream& wrap_o_dbl(std::ostream* o, double v) { stream_w(o, PC_); return real_o_dbl(o, v); }
DECL_(std::ostream&, o_ul, (std::ostream* o, unsigned long v), "_ZNSo9_M_insertImEERSoT_")
std::ostream& wrap_o_ul(std::ostream* o, unsigned long v) { stream_w(o, PC_); return real_o_ul(o, v); }
DECL_(std::ostream&, o_l, (std::ostream* o, long v), "_ZNSo9_M_insertIlEERSoT_")
std::ostream& wrap_o_l(std::ostream* o, long v) { stream_w(o, PC_); return real_o_l(o, v); }
DECL_(std::istream&, i_read, (std::istream* s, char* p, long n), "_ZNSi4readEPcl")
std::istream& wrap_i_read(std::istream* s, char* p, long n) { if (act() && n > 0) access_range(p, (size_t)n, true, PC_); stream_w(s, PC_); return real_i_read(s, p, n); }
DECL_(std::istream&, i_ignore, (std::istream* s, long n, int d), "_ZNSi6ignoreEli")
std::istream& wrap_i_ignore(std::istream* s, long n, int d) { stream_w(s, PC_); return real_i_ignore(s, n, d); }
DECL_(std::istream&, i_int, (std::istream* s, int& v), "_ZNSirsERi")
std::istream& wrap_i_int(std::istream* s, int& v) { stream_w(s, PC_); return real_i_int(s, v); }
DECL_(std::istream&, i_dbl, (std::istream* s, double& v), "_ZNSi10_M_extractIdEERSiRT_")
std::istream& wrap_i_dbl(std::istream* s, double& v) { stream_w(s, PC_); return real_i_dbl(s, v); }
DECL_(std::istream&, i_uint, (std::istream* s, unsigned& v), "_ZNSi10_M_extractIjEERSiRT_")
std::istream& wrap_i_uint(std::istream* s, unsigned& v) { stream_w(s, PC_); return real_i_uint(s, v); }
DECL_(std::istream&, i_seekp, (std::istream* s, std::streampos p), "_ZNSi5seekgESt4fposI11__mbstate_tE")
std::istream& wrap_i_seekp(std::istream* s, std::streampos p) { stream_w(s, PC_); return real_i_seekp(s, p); }
DECL_(std::istream&, i_seeko, (std::istream* s, long o, std::ios::seekdir d), "_ZNSi5seekgElSt12_Ios_Seekdir")
std::istream& wrap_i_seeko(std::istream* s, long o, std::ios::seekdir d) { stream_w(s, PC_); return real_i_seeko(s, o, d); }
DECL_(std::istream&, i_getline, (std::istream& s, S_& t, char c), "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_")
std::istream& wrap_i_getline(std::istream& s, S_& t, char c) { stream_w(&s, PC_); str_w0(&t, PC_); real_i_getline(s, t, c); str_w1(&t, PC_); return s; }
DECL_(std::istream&, i_word, (std::istream& s, S_& t), "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE")
std::istream& wrap_i_word(std::istream& s, S_& t) { stream_w(&s, PC_); str_w0(&t, PC_); real_i_word(s, t); str_w1(&t, PC_); return s; }

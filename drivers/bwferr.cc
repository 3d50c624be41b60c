// Contracts of formatting errno values: the short name is the macro that has the value.
#include <cerrno>
#include "vf.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
using namespace swoc;
extern "C" void vf_init_bw_format();
#define GO vf_opt("unroll", 300); vf_opt("peel_all", 1); vf_opt("max_steps", 40000000); vf_opt("init_globals", 1); vf_init_bw_format(); vf_nothrow();
using W = uint64_t; using Spec = bwf::Spec;
#define ONE if (!vf_bool("form")) continue;
struct Txt { char b[128]; size_t n = 0; Txt &c(char x) { b[n++] = x; return *this; } Txt &s(char const *t) { while (*t) c(*t++); return *this; } Txt &num(unsigned v) { if (v >= 100) c('0' + v / 100); if (v >= 10) c('0' + v / 10 % 10); return c('0' + v % 10); } };
struct Out { char b[128]; FixedBufferWriter w{b, sizeof(b)}; };
static void same(Out const &o, Txt const &e) { vf_check(o.w.extent() == e.n, "exactly the name and number of the error"); for (size_t i = 0; i < e.n; ++i) vf_check(o.b[i] == e.b[i], "the name and number of the error"); }
struct { int v; char const *name; } static const E[] = {
#define X(e) {e, #e},
  {0, "SUCCESS"}, {41, "EWOULDBLOCK"}, {58, "EDEADLOCK"}, // two numbers that are free because the macro is an alias
X(EPERM) X(ENOENT) X(ESRCH) X(EINTR) X(EIO) X(ENXIO) X(E2BIG) X(ENOEXEC) X(EBADF) X(ECHILD) X(EAGAIN) X(ENOMEM) X(EACCES) X(EFAULT) X(ENOTBLK) X(EBUSY) X(EEXIST) X(EXDEV) X(ENODEV) X(ENOTDIR) X(EISDIR) X(EINVAL) X(ENFILE) X(EMFILE) X(ENOTTY) X(ETXTBSY) X(EFBIG) X(ENOSPC) X(ESPIPE) X(EROFS) X(EMLINK) X(EPIPE) X(EDOM) X(ERANGE) X(EDEADLK) X(ENAMETOOLONG) X(ENOLCK) X(ENOSYS) X(ENOTEMPTY) X(ELOOP) X(ENOMSG) X(EIDRM) X(ECHRNG) X(EL2NSYNC) X(EL3HLT) X(EL3RST) X(ELNRNG) X(EUNATCH) X(ENOCSI) X(EL2HLT) X(EBADE) X(EBADR) X(EXFULL) X(ENOANO) X(EBADRQC) X(EBADSLT) X(EBFONT) X(ENOSTR) X(ENODATA) X(ETIME) X(ENOSR) X(ENONET) X(ENOPKG) X(EREMOTE) X(ENOLINK) X(EADV) X(ESRMNT) X(ECOMM) X(EPROTO) X(EMULTIHOP) X(EDOTDOT) X(EBADMSG) X(EOVERFLOW) X(ENOTUNIQ) X(EBADFD) X(EREMCHG) X(ELIBACC) X(ELIBBAD) X(ELIBSCN) X(ELIBMAX) X(ELIBEXEC) X(EILSEQ) X(ERESTART) X(ESTRPIPE) X(EUSERS) X(ENOTSOCK) X(EDESTADDRREQ) X(EMSGSIZE) X(EPROTOTYPE) X(ENOPROTOOPT) X(EPROTONOSUPPORT) X(ESOCKTNOSUPPORT) X(EOPNOTSUPP) X(EPFNOSUPPORT) X(EAFNOSUPPORT) X(EADDRINUSE) X(EADDRNOTAVAIL) X(ENETDOWN) X(ENETUNREACH) X(ENETRESET) X(ECONNABORTED) X(ECONNRESET) X(ENOBUFS) X(EISCONN) X(ENOTCONN) X(ESHUTDOWN) X(ETOOMANYREFS) X(ETIMEDOUT) X(ECONNREFUSED) X(EHOSTDOWN) X(EHOSTUNREACH) X(EALREADY) X(EINPROGRESS) X(ESTALE) X(EUCLEAN) X(ENOTNAM) X(ENAVAIL) X(EISNAM) X(EREMOTEIO) X(EDQUOT) X(ENOMEDIUM) X(EMEDIUMTYPE) X(ECANCELED) X(ENOKEY) X(EKEYEXPIRED) X(EKEYREVOKED) X(EKEYREJECTED) X(EOWNERDEAD) X(ENOTRECOVERABLE) X(ERFKILL) X(EHWPOISON)
};
static_assert(EWOULDBLOCK == EAGAIN && EDEADLOCK == EDEADLK && EHWPOISON == 133);
template <unsigned F> static void err() { GO for (unsigned i = F; i < F + 34 && i < sizeof(E) / sizeof(*E); ++i) { ONE Txt s, n, m; s.s(E[i].name); n.c('[').num(E[i].v).c(']'); m.s(E[i].name).s(" [").num(E[i].v).c(']');
  Spec ss, sd, sg; ss._type = 's'; ss._ext = "s"; sd._type = 'd'; sg._ext = "s"; bwf::Errno e{E[i].v}; Out a, b, c; bwformat(a.w, ss, e); same(a, s); bwformat(b.w, sd, e); same(b, n); bwformat(c.w, sg, e); same(c, m); return; } }
VF_ENTRY(chk_err_0) { err<0>(); } VF_ENTRY(chk_err_1) { err<34>(); } VF_ENTRY(chk_err_2) { err<68>(); } VF_ENTRY(chk_err_3) { err<102>(); }
// numbers that are not errors
VF_ENTRY(chk_err_unknown) { GO int v = int(vf_srange("v", INT32_MIN, INT32_MAX)); vf_assume(v < 0 || v > 133); Txt s; s.s("Unknown"); Spec ss; ss._type = 's'; ss._ext = "s"; Out a; bwformat(a.w, ss, bwf::Errno(v)); same(a, s); }
// error codes of the generic and system categories
template <unsigned F> static void code() { GO for (unsigned i = F; i < F + 34 && i < sizeof(E) / sizeof(*E); ++i) { ONE Txt s, m; s.s(E[i].name); m.s(E[i].name).s(" [").num(E[i].v).c(']'); Txt n; n.num(E[i].v); Spec sd; sd._type = 'd';
  std::error_code g{E[i].v, std::generic_category()}, y{E[i].v, std::system_category()}; Out a, b, c; bwformat(a.w, Spec::DEFAULT, g); same(a, m); bwformat(b.w, Spec::DEFAULT, y); same(b, m); bwformat(c.w, sd, g); same(c, n); return; } }
VF_ENTRY(chk_err_code_0) { code<0>(); } VF_ENTRY(chk_err_code_1) { code<34>(); } VF_ENTRY(chk_err_code_2) { code<68>(); } VF_ENTRY(chk_err_code_3) { code<102>(); }

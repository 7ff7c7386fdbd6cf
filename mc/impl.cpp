#include "impl.hpp"
#include <cmath>
#include <cstdio>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

namespace impl {
using std::string; using mc::fmt; using ref::Ev;

bool write_file(const string& path, const string& d) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    if (fd < 0) return false;
    size_t o = 0; while (o < d.size()) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) { close(fd); return false; } o += k; }
    close(fd); return true;
}
bool read_file(const string& path, string& out) {
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return false;
    out.clear(); char b[65536]; ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) out.append(b, k);
    close(fd); return true;
}
int compile_file(const string& in, const string& out, string* diag, bool json) {
    int save = -1, save2 = -1; string tmp;
    if (diag) {
        fflush(stdout); fflush(stderr);
        tmp = in + ".diag";
        int fd = open(tmp.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
        save = dup(1); save2 = dup(2); dup2(fd, 1); dup2(fd, 2); close(fd);
    }
    int r = cnd_compile_file(in.c_str(), out.c_str(), json ? 1 : 0, 0);
    if (diag) {
        fflush(stdout); fflush(stderr);
        dup2(save, 1); close(save); dup2(save2, 2); close(save2);
        read_file(tmp, *diag); unlink(tmp.c_str());
    }
    return r;
}
int compile(const string& src, string& il, const string& dir) {
    string in = dir + "/c.cnd", out = dir + "/c.il";
    unlink(out.c_str());
    if (!write_file(in, src)) abort();
    int r = compile_file(in, out);
    il.clear();
    if (r == 0 && !read_file(out, il)) return -1000;
    return r;
}

#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)0)
#endif
Arena::Arena(size_t n) : p((uint8_t*)malloc(n)), cap(n) {}
Arena::~Arena() { ASAN_UNPOISON_MEMORY_REGION(p, cap); free(p); }
Block::Block(const Arena& a, size_t k, const void* from, int fill) : p(a.p), n(k), arena(&a) {
    if (k > a.cap) abort();
    ASAN_UNPOISON_MEMORY_REGION(a.p, a.cap);
    if (from) { if (k) memcpy(p, from, k); } else memset(p, fill, k);
    ASAN_POISON_MEMORY_REGION(a.p + k, a.cap - k);
}
Block::~Block() { if (!arena) free(p); }
bool Program::load(const string& il, const Arena* at) {
    image.reset(at ? new Block(*at, il.size(), il.data(), 0) : new Block(il));
    if (cnd_program_load_il(&prog, image->p, image->n) != CND_ERR_OK) return false;
    names.clear();
    for (unsigned k = 0; k < prog.string_count; k++) { const char* s = cnd_get_key_name(&prog, (uint16_t)k); names.push_back(s ? s : "<null>"); }
    return true;
}

void Host::consume(const Ev& e) { if (e.has_ctx) tbl[e.key] = e.ctxv; pos++; }
void Host::advance_silent() { if (enc) while (pos < ev->size() && (*ev)[pos].silent_enc) consume((*ev)[pos]); }
bool Host::complete() { advance_silent(); size_t p = pos; while (p < ev->size() && (*ev)[p].maybe) p++; return p == ev->size(); }

static string op_str(const Host& h, uint16_t key, uint8_t op) { return fmt("op=0x%02X key=%s", op, h.prog->name(key).c_str()); }

static bool num_equal(const Ev& e, const void* ptr) {
    uint64_t v = 0; memcpy(&v, ptr, e.size);
    uint64_t m = e.size == 8 ? ~0ull : (1ull << (8 * e.size)) - 1;
    if (v == (e.bits & m)) return true;
    if (e.flt && e.size == 8) {
        double a = ref::as_double(v), b = ref::as_double(e.bits);
        if (std::isnan(a) && std::isnan(b)) return e.tol;
        if (e.tol) return a == b || fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b)) + 1e-12;
    }
    if (e.missing && e.flt && e.size == 4) { float f; memcpy(&f, ptr, 4); return f == 0; }
    return false;
}

cnd_error_t Host::cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* ptr) {
    if (failed) { after_fail++; return CND_ERR_CALLBACK; }
    int me = ncb++;
    if (on_cb) on_cb(ctx);
    advance_silent();
    if (logging) log.push_back(op_str(*this, key, op));
    if (me == fail_at && op != OP_RAW_BYTES) { failed = true; fail_pos = pos; fail_query = op == OP_CTX_QUERY || op == OP_LOAD_CTX; return (cnd_error_t)fail_code; }
    if (op == OP_CTX_QUERY || op == OP_LOAD_CTX) {
        auto it = tbl.find(prog->name(key));
        if (it == tbl.end()) return CND_ERR_CALLBACK;
        memcpy(ptr, &it->second, 8);
        return CND_ERR_OK;
    }
    if (op == OP_RAW_BYTES) {
        if (!raw_ok) { if (me == fail_at) fail_at++; return CND_ERR_INVALID_OP; }
        if (me == fail_at) { fail_at = -2; return CND_ERR_INVALID_OP; }
        // The elements that come now, up to the end of the array
        size_t n = 0;
        while (pos + n < ev->size() && ((*ev)[pos + n].op == OP_IO_U8 || (*ev)[pos + n].op == OP_IO_I8) && (*ev)[pos + n].key == prog->name(key)) n++;
        uint8_t* b = (uint8_t*)ptr;
        if (n == 0 || b < buf || b + n > buf + buf_len) { err = "bulk transfer not at an array of bytes: " + op_str(*this, key, op); return CND_ERR_OK; }
        for (size_t i = 0; i < n; i++) {
            const Ev& e = (*ev)[pos];
            if (enc) b[i] = (uint8_t)e.bits;
            else if (rec) { Ev x = e; x.bits = b[i]; rec->push_back(x); }
            if (!enc && b[i] != (uint8_t)e.bits && err.empty()) err = fmt("bulk element %zu of %s is 0x%02X, expected 0x%02X", i, e.key.c_str(), b[i], (unsigned)(uint8_t)e.bits);
            consume(e);
        }
        return CND_ERR_OK;
    }
    if (pos >= ev->size()) {
        if (err.empty()) err = "unexpected further callback " + op_str(*this, key, op);
        return CND_ERR_CALLBACK;
    }
    const Ev& e = (*ev)[pos];
    if (e.op != op || (e.keyed && e.key != prog->name(key))) {
        if (err.empty()) err = fmt("callback %d is %s, expected ", me, op_str(*this, key, op).c_str()) + e.str();
        return CND_ERR_CALLBACK;
    }
    if (rec) { Ev x = e; if (e.k == Ev::NUM) { x.bits = 0; memcpy(&x.bits, ptr, e.size); } rec->push_back(x); }
    switch (e.k) {
        case Ev::NONE: break;
        case Ev::NUM: case Ev::CNT:
            if (enc && op != OP_STORE_CTX && op != OP_ARR_FIXED && op != OP_ARR_DYNAMIC) memcpy(ptr, &e.bits, e.size);
            else if (!num_equal(e, ptr)) {
                uint64_t v = 0; memcpy(&v, ptr, e.size);
                if (err.empty()) err = fmt("callback %d delivers bits 0x%llX, expected ", me, (unsigned long long)v) + e.str();
            }
            break;
        case Ev::TEXT: {
            if (enc) { *(const char**)ptr = e.s.c_str(); break; }
            const uint8_t* t = (const uint8_t*)ptr; bool nul = op == OP_STR_NULL; int w = op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4;
            if (!t) { if (err.empty()) err = "string without address"; break; }
            if (e.missing) {
                if (nul ? t[0] != 0 : memcmp(t - w, "\0\0\0\0", w) != 0) { if (err.empty()) err = "missing string not empty: " + e.str(); }
                break;
            }
            if (t < buf || t + e.s.size() + (nul ? 1 : 0) > buf + buf_len) { if (err.empty()) err = "string address outside of the data: " + e.str(); break; }
            if (memcmp(t, e.s.data(), e.s.size()) != 0 || (nul && t[e.s.size()] != 0)) { if (err.empty()) err = "string content " + mc::hex(t, e.s.size()) + ", expected " + e.str(); }
            break;
        }
    }
    consume(e);
    return CND_ERR_OK;
}
extern "C" cnd_error_t host_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* ptr) { return ((Host*)ctx->user_ptr)->cb(ctx, key, op, ptr); }

const char* err_name(int e) {
    static const char* n[] = {"OK","OOB","INVALID_OP","VALIDATION","CALLBACK","STACK_OVERFLOW","STACK_UNDERFLOW","CRC_MISMATCH","ARITHMETIC"};
    return e >= 0 && e < 9 ? n[e] : "?";
}

static Result finish(Host& h, cnd_vm_ctx& ctx, int err, const Block& b, const ref::Run&) {
    Result r; r.err = err; r.cursor = ctx.cursor; r.complaint = h.err; r.pos = h.pos; r.ncb = h.ncb;
    r.bytes.assign(b.p, b.p + b.n);
    if (h.after_fail && r.complaint.empty()) r.complaint = fmt("%d callbacks after the host reported an error", h.after_fail);
    if (err < 0 || err > 8) r.complaint = fmt("undocumented result %d", err);
    if (r.complaint.empty() && ctx.cursor > b.n) r.complaint = fmt("cursor %zu beyond the data (%zu)", ctx.cursor, b.n);
    if (err == 0 && h.fail_at < 0 && r.complaint.empty() && !h.complete()) r.complaint = "ended without asking for " + (*h.ev)[h.pos].str();
    if (h.failed) r.pos = h.fail_pos;
    r.host_failed = h.failed; r.fail_query = h.fail_query;
    return r;
}

Result encode(const Program& p, const ref::Run& run, size_t cap, const RunOpts& o) {
    std::unique_ptr<Block> own(o.at ? new Block(*o.at, cap, nullptr, o.fill) : new Block(cap, o.fill)); Block& b = *own;
    cnd_vm_ctx local; cnd_vm_ctx& ctx = o.ctx ? *o.ctx : local;
    if (!o.ctx) memset(&local, 0xCD, sizeof local);
    Host h; h.ev = &run.ev; h.prog = &p; h.enc = true; h.raw_ok = o.raw_ok; h.fail_at = o.fail_at; h.fail_code = o.fail_code; h.buf = b.p; h.buf_len = cap; h.on_cb = o.on_cb;
    cnd_init(&ctx, CND_MODE_ENCODE, &p.prog, b.p, cap, host_cb, &h);
    int e = cnd_execute(&ctx);
    return finish(h, ctx, e, b, run);
}
Result decode(const Program& p, const ref::Run& run, const std::vector<uint8_t>& data, const RunOpts& o) {
    std::unique_ptr<Block> own(o.at ? new Block(*o.at, data.size(), data.data(), 0) : new Block(data)); Block& b = *own;
    cnd_vm_ctx local; cnd_vm_ctx& ctx = o.ctx ? *o.ctx : local;
    if (!o.ctx) memset(&local, 0xCD, sizeof local);
    Host h; h.ev = &run.ev; h.prog = &p; h.raw_ok = o.raw_ok; h.fail_at = o.fail_at; h.fail_code = o.fail_code; h.buf = b.p; h.buf_len = b.n; h.on_cb = o.on_cb; h.rec = o.rec;
    cnd_init(&ctx, CND_MODE_DECODE, &p.prog, b.p, b.n, host_cb, &h);
    int e = cnd_execute(&ctx);
    Result r = finish(h, ctx, e, b, run);
    if (r.complaint.empty() && r.bytes != data) r.complaint = "decoding modified the data";
    return r;
}

} // namespace impl

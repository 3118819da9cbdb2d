// C13: asynchronous file reads and writes transfer exactly the bytes they report.
#include "net.h"
#include <fcntl.h>
#include <sys/stat.h>
namespace {
struct Mod { std::string path, data; u32 seed; int writers = 0; };
std::vector<Mod *> mods; int left, live_ops; u64 n_ops;
void put_model(Mod *m, i64 off, const char *b, i64 n) { if (n <= 0) return; if ((i64)m->data.size() < off + n) m->data.resize(off + n); memcpy(&m->data[off], b, n); }
void same(Mod *m, const char *when) {
    std::string d; bool ok = fs_get(m->path.c_str(), d); SIM_CHECK(ok, "file:gone", "%s no longer exists %s", m->path.c_str(), when);
    if (d == m->data) return; size_t i = 0; while (i < d.size() && i < m->data.size() && d[i] == m->data[i]) i++;
    violation("file:content", "%s: %s holds %zu bytes, the reported writes add up to %zu; they differ at %zu", when, m->path.c_str(), d.size(), m->data.size(), i);
}
// what a completed kernel operation allows the library to report
void judge(bool wr, i64 got, i64 len, i64 pos, i64 size, bool direct, int off, AioRec a, AioRec z) {
    const char *w = wr ? "write" : "read";
    SIM_CHECK(z.submits - a.submits <= 1 && z.completes == z.submits, "file:early", "a %s returned with %d operations submitted and %d completed", w, z.submits - a.submits, z.completes - a.completes);
    if (z.submits == a.submits) { SIM_CHECK(got < 0, "file:stale", "a %s whose submission failed reports %lld", w, (long long)got); return; }
    if (z.last < 0) { SIM_CHECK(got < 0, "file:stale", "a %s that failed with %lld reports %lld", w, (long long)z.last, (long long)got); return; }
    i64 want = direct && !wr ? std::min<i64>(len, std::max<i64>(0, z.last - off)) : z.last;
    SIM_CHECK(got == want, "file:count", "a %s%s of %lld bytes at %lld of a file of %lld transferred %lld and reports %lld", direct ? "direct " : "", w, (long long)len, (long long)pos, (long long)size, (long long)want, (long long)got);
    if (!wr && pos < size && len > 0) SIM_CHECK(got > 0, "file:false-eof", "a read at %lld of a file of %lld bytes reports end of file", (long long)pos, (long long)size);
}
struct H { kfiber_file *f; Mod *m; i64 pos = 0; bool direct = false, w; };
i64 somepos(H &h) {
    i64 sz = h.m->data.size(), al = kgl_aio_align_size;
    switch (W(8)) { case 0: return 0; case 1: return sz; case 2: return sz ? W(sz) : 0; case 3: return sz + W(3 * al); case 4: return al * W(4); case 5: return al * W(4) + 1 + W(al - 1); case 6: return std::max<i64>(0, sz - 1 - W(600)); default: return (1LL << 32) - 5 + W(10); }
}
void check_pos(H &h, const char *op) { i64 t = kfiber_file_tell(h.f); SIM_CHECK(t == h.pos, "file:position", "after a %s the position is %lld, not %lld", op, (long long)t, (long long)h.pos); }
void rd(H &h, i64 len, char *buf, i64 cap, i64 got, AioRec a, bool wild) {
    int fd = kasync_file_get_handle(h.f); AioRec z = aio_rec(fd); int off = h.direct ? (int)(h.pos & (kgl_aio_align_size - 1)) : 0; i64 size = h.m->data.size();
    judge(false, got, len, h.pos, size, h.direct, off, a, z);
    if (got > 0) { const char *p = h.direct ? kfiber_file_adjust(h.f, buf) : buf; SIM_CHECK(p >= buf && p + got <= buf + cap, "file:buffer", "the data of a read lies outside its buffer");
        SIM_CHECK(h.pos + got <= size && !memcmp(p, h.m->data.data() + h.pos, got), "file:content", "a read of %lld bytes at %lld returns other bytes than the file holds", (long long)got, (long long)h.pos); h.pos += got; }
    if (!wild && !h.direct) for (i64 i = std::max<i64>(got, 0); i < cap; i++) SIM_CHECK(buf[i] == (char)0xA5, "file:overrun", "a read that reports %lld bytes changed byte %lld of its buffer", (long long)got, (long long)i);
}
i64 oplen() { return oneof<i64>(S_WORK, {100, 1, 7, 511, 512, 513, 4096, 4097, 10000, 30000}); }
void one(H &h) {
    int fd = kasync_file_get_handle(h.f); u32 op = W(h.w ? 10 : 6); n_ops++; count_op();
    if (op == 0 || op == 1) { i64 p; if (op == 1 && W(3) == 0) { SIM_CHECK(kfiber_file_seek(h.f, seekEnd, 0) != 0 || kfiber_file_tell(h.f) == (i64)h.m->data.size(), "file:position", "a seek to the end reports success and moves to %lld", (long long)kfiber_file_tell(h.f)); h.pos = kfiber_file_tell(h.f); }
        else { p = somepos(h); if (op == 1) SIM_CHECK(kfiber_file_seek(h.f, seekCur, p - h.pos) == 0, "file:position", "a relative seek fails"); else SIM_CHECK(kfiber_file_seek(h.f, seekBegin, p) == 0, "file:position", "a seek fails"); h.pos = p; } check_pos(h, "seek"); return; }
    if (op == 2) { SIM_CHECK(kfiber_file_size(h.f) == (i64)h.m->data.size(), "file:size", "the file has %zu bytes and reports %lld", h.m->data.size(), (long long)kfiber_file_size(h.f)); return; }
    if (op == 3 && W(2)) { bool on = W(2); bool r = kasync_file_direct(h.f, on); if (r) h.direct = on; SIM_CHECK(r || on, "file:direct", "buffered mode is refused"); return; }
    if (op < 6) {   // read
        i64 len = oplen(); i64 al = kgl_aio_align_size, cap = (len + al - 1) / al * al; char *buf = (char *)aio_alloc_buffer(len); memset(buf, 0xA5, cap); AioRec a = aio_rec(fd);
        bool full = !h.direct && W(4) == 0; 
        if (!full) { int got = kfiber_file_read(h.f, buf, len); rd(h, len, buf, cap, got, a, false); }
        else { int rest = len; i64 p0 = h.pos; int f0 = fault_count("aio_submit_fail"); bool ok = kfiber_file_read_full(h.f, buf, &rest); AioRec z = aio_rec(fd); i64 n = len - rest; SIM_CHECK(ok == (rest == 0) && rest >= 0, "file:count", "a full read returns %d with %d bytes to go", ok, rest);
            SIM_CHECK(n == 0 || (p0 + n <= (i64)h.m->data.size() && !memcmp(buf, h.m->data.data() + p0, n)), "file:content", "a full read returns other bytes than the file holds");
            if (!ok) SIM_CHECK((z.submits > a.submits && (z.last < 0 || p0 + n >= (i64)h.m->data.size())) || fault_count("aio_submit_fail") > f0 || cfg.p_aio_fail || aio_in_flight() > 60, "file:false-eof", "a full read stops at %lld of %zu", (long long)(p0 + n), h.m->data.size());
            h.pos += n; }
        check_pos(h, "read"); aio_free_buffer(buf); return;
    }
    i64 len = oplen();
    if (h.direct) { i64 al = kgl_aio_align_size; h.pos = h.pos / al * al; kfiber_file_seek(h.f, seekBegin, h.pos); if (W(6)) len = (len + al - 1) / al * al; }
    if (h.pos > 200000) { h.pos = 0; kfiber_file_seek(h.f, seekBegin, 0); }
    char *buf = (char *)aio_alloc_buffer(len); patfill(++h.m->seed, h.pos, buf, len); AioRec a = aio_rec(fd); bool full = !h.direct && W(3) == 0;
    if (!full) { int got = kfiber_file_write(h.f, buf, len); judge(true, got, len, h.pos, h.m->data.size(), h.direct, 0, a, aio_rec(fd)); put_model(h.m, h.pos, buf, got); if (got > 0) h.pos += got; }
    else { int rest = len; bool ok = kfiber_file_write_full(h.f, buf, &rest); AioRec z = aio_rec(fd); i64 n = len - rest; SIM_CHECK(ok == (rest == 0) && rest >= 0, "file:count", "a full write returns %d with %d bytes to go", ok, rest);
        if (!ok) SIM_CHECK(z.last <= 0 || cfg.p_aio_fail || aio_in_flight() > 60, "file:false-error", "a full write gives up although the last transfer moved %lld bytes", (long long)z.last);
        put_model(h.m, h.pos, buf, n); h.pos += n; }
    check_pos(h, "write"); aio_free_buffer(buf); same(h.m, "after a write");
}
std::string content(u32 seed, i64 n) { std::string s(n, 0); patfill(seed, 0, &s[0], n); return s; }
void handle(Mod *m, int model, int nops, bool direct) {
    kfiber_file *f; if (W(4)) f = kfiber_file_open(m->path.c_str(), (fileModel)model, 0); else { int fd = kfopen(m->path.c_str(), (fileModel)model, KFILE_ASYNC); SIM_CHECK(fd >= 0, "file:open", "%s cannot be opened", m->path.c_str()); f = kfiber_file_bind(fd); SIM_CHECK(f && kasync_file_get_handle(f) == fd, "file:open", "an open file cannot be bound"); probe("bound_file"); } SIM_CHECK(f, "file:open", "%s cannot be opened", m->path.c_str());
    bool w = model != fileRead; if (model == fileWrite || model == fileWriteRead) m->data.clear();
    H h{f, m, 0, false, w && model != fileWrite && model != fileModify}; bool wonly = model == fileWrite || model == fileModify; if (direct && kasync_file_direct(f, true)) h.direct = true; check_pos(h, "open");
    for (int i = 0; i < nops; i++) { if (wonly) {     // reads must fail, writes work
            int fd = kasync_file_get_handle(f); AioRec a = aio_rec(fd); i64 al = kgl_aio_align_size, len = h.direct ? al * (1 + W(3)) : oplen(); char *b = (char *)aio_alloc_buffer(len); patfill(++m->seed, h.pos, b, len);
            if (W(4) == 0) { int g = kfiber_file_read(f, b, len); SIM_CHECK(g < 0, "file:stale", "a read of a file open for writing only reports %d", g); }
            else { if (h.direct) { h.pos = h.pos / al * al; kfiber_file_seek(f, seekBegin, h.pos); } int g = kfiber_file_write(f, b, len); judge(true, g, len, h.pos, m->data.size(), h.direct, 0, a, aio_rec(fd)); put_model(m, h.pos, b, g); if (g > 0) h.pos += g; same(m, "after a write"); }
            check_pos(h, "write"); aio_free_buffer(b); }
        else one(h);
        if (W(4) == 0) kfiber_msleep(W(5)); }
    kfiber_file_close(f);
}
void faults() {
    swarm(FA_STALL | FA_LATE | FA_DISK | FA_EINTR); cfg.p_aio_sync = lvl({100, 512, 1024}); u32 m = W(16);
    if (m & 1) cfg.p_aio_fail = lvl({20, 100, 400}); if (m & 2) cfg.p_aio_err = lvl({20, 100, 400}); if (m & 4) cfg.p_aio_short = lvl({60, 300, 900}); if (W(5) == 0) fs_no_direct(true); if (W(2)) init_aio_align_size();
}
void c13(bool wr, bool many) {
    start_loops(1 + W(3)); Baseline b; faults(); int n = many ? 20 + W(100) : 1 + W(5); u32 dm = W(3);
    i64 cap = 0; for (int i = 0; i < n; i++) { Mod *m = new Mod; m->path = "/f" + std::to_string(i); m->seed = i * 1000; i64 sz = oneof<i64>(S_WORK, {1000, 0, 1, 512, 4095, 4096, 4097, 12288, 20000}); m->data = content(m->seed, sz); fs_put(m->path.c_str(), m->data); if (W(6) == 0 && sz) { i64 x = W(sz); fs_bad_range(m->path.c_str(), x, x + 1); } cap += sz; mods.push_back(m); }
    if (W(3) == 0) fs_capacity(cap + W(30000));
    for (auto m : mods) { int hs = wr ? 1 : 1 + W(3); for (int j = 0; j < hs; j++) { int model = !wr ? fileRead : oneof<int>(S_WORK, {fileReadWrite, fileWriteRead, fileWrite, fileModify}); left++; int ops = many ? 1 + W(3) : 3 + W(12); bool d = dm == 2 ? true : dm == 1 ? W(2) : false; fib(L(W(3)), [=] { handle(m, model, ops, d); left--; }, 131072); } }
    wait_for([] { return left == 0; }, 60000, "file:stalled", "file operations complete");
    { for (auto m : mods) same(m, "at the end"); } SIM_CHECK(aio_in_flight() == 0, "file:in-flight", "transfers are still in flight");
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "file");
}
// callback style: many operations on many files in flight at once on one loop, each with its own argument
struct Op { kasync_file *f; Mod *m; i64 pos, len; char *buf; bool wr, direct; int calls = 0; AioRec a; int loop; };
kev_result cb(KOPAQUE data, void *arg, int got) {
    Op *o = (Op *)arg; SIM_CHECK((Op *)data == o, "file:opaque", "a completion carries another operation's data"); SIM_CHECK(++o->calls == 1, "file:twice", "an operation completed %d times", o->calls); SIM_CHECK(my_loop() == o->loop, "file:loop", "an operation completed on another loop");
    int fd = kasync_file_get_handle(o->f); AioRec z = aio_rec(fd); int off = o->direct && !o->wr ? (int)(o->pos & (kgl_aio_align_size - 1)) : 0; judge(o->wr, got, o->len, o->pos, o->m->data.size(), o->direct, off, o->a, z); count_op();
    if (o->wr) put_model(o->m, o->pos, o->buf, got); else if (got > 0) SIM_CHECK(!memcmp(o->buf + off, o->m->data.data() + o->pos, got), "file:content", "a read returns other bytes than the file holds");
    if (P(2)) { kasync_file_close(o->f); aio_free_buffer(o->buf); xfree(o->f); o->f = nullptr; } live_ops--; return kev_ok;
}
}
SCENARIO(C13, read, 3) { c13(false, false); }
SCENARIO(C13, write, 3) { c13(true, false); }
SCENARIO(C13, many, 1) { c13(W(2), true); }
SCENARIO(C13, callbacks, 2) {
    start_loops(1 + W(3)); Baseline b; faults(); int n = 1 + W(W(4) ? 10 : 300); std::vector<Op *> ops; bool any_direct = W(2);
    for (int i = 0; i < n; i++) { Mod *m = new Mod; m->path = "/f" + std::to_string(i); m->seed = i; m->data = content(i, W(9000)); fs_put(m->path.c_str(), m->data); mods.push_back(m); }
    int rounds = 1 + W(3), started = 0, expect = 0;
    for (int r = 0; r < rounds; r++) for (auto m : mods) { (void)m; }
    for (auto m : mods) { expect++; int l = W(3) % g_loops.size(); bool wr = W(2), dir = any_direct && W(2); i64 len = oplen(), pos = W(10000); u32 sd = ++m->seed;
        post(L(l), [=, &ops, &started] {
            int fd = kfopen(m->path.c_str(), fileReadWrite, KFILE_ASYNC); SIM_CHECK(fd >= 0, "file:open", "%s cannot be opened", m->path.c_str());
            kasync_file *f = (kasync_file *)xmemory_newz(sizeof *f); kgl_selector_module.aio_open(L(l), f, fd); Op *o = new Op; o->f = f; o->m = m; o->wr = wr; o->loop = l; o->direct = dir && kasync_file_direct(f, true); o->len = len; o->pos = pos;
            if (o->direct && wr) { o->len = (len + 4095) / 4096 * 4096; o->pos = pos / 4096 * 4096; } o->buf = (char *)aio_alloc_buffer(o->len); if (wr) patfill(sd, o->pos, o->buf, o->len);
            f->st.offset = o->pos; kasync_file_bind_opaque(f, o); o->a = aio_rec(fd); ops.push_back(o); live_ops++;
            bool ok = wr ? kgl_selector_module.aio_write(f, cb, o->buf, o->len, o) : kgl_selector_module.aio_read(f, cb, o->buf, o->len, o); AioRec z = aio_rec(fd);
            SIM_CHECK(ok == (z.submits > o->a.submits), "file:submit", "a submission returns %d and %d operations were submitted", ok, z.submits - o->a.submits); if (!ok) { o->calls = -1; live_ops--; } started++; }); }
    wait_for([&] { return started == expect && live_ops == 0; }, 30000, "file:stalled", "file operations complete");
    settle(50); { for (auto o : ops) { SIM_CHECK(o->calls == 1 || o->calls == -1, "file:count", "an operation completed %d times", o->calls); if (o->f) { kasync_file_close(o->f); aio_free_buffer(o->buf); xfree(o->f); } } for (auto m : mods) same(m, "at the end"); }
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "file");
}
SCENARIO(C13, open_errors, 1) {
    start_loops(1); Baseline b; int done = 0; int lim = W(2);
    fib(L(0), [&] {
        SIM_CHECK(!kfiber_file_open("/nothing", fileRead, 0), "file:open", "a file that does not exist is opened"); SIM_CHECK(!kfiber_file_open("/nothing", fileReadWrite, 0), "file:open", "a file that does not exist is opened");
        if (lim) { fd_limit(lib_open_fds()); SIM_CHECK(!kfiber_file_open("/x", fileWrite, 0), "file:open", "a file is opened without a descriptor"); fd_limit(0); }
        kfiber_file *f = kfiber_file_open("/x", fileWrite, 0); SIM_CHECK(f, "file:open", "a new file cannot be created"); char c = 'x'; SIM_CHECK(kfiber_file_write(f, &c, 1) == 1 && kfiber_file_size(f) == 1 && kfiber_file_tell(f) == 1, "file:count", "one byte is not written as one"); kfiber_file_close(f);
        f = kfiber_file_open("/x", fileModify, 0); SIM_CHECK(f && kfiber_file_size(f) == 1, "file:truncated", "opening for modification changed the size"); kfiber_file_close(f); f = kfiber_file_open("/x", fileWriteRead, 0); SIM_CHECK(f && kfiber_file_size(f) == 0, "file:truncated", "opening for writing kept the content"); char d; SIM_CHECK(kfiber_file_read(f, &d, 1) == 0, "file:false-eof", "an empty file has bytes"); kfiber_file_close(f); done = 1; }, 131072);
    wait_for([&] { return done; }, 3000, "file:stalled", "file operations complete"); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "file");
}

// C28: atomic counters.
#include "common.h"
namespace {
struct alignas(16) V { int64_t a64; int32_t a32; int32_t before = 0x5a5a5a5a; int16_t a16; int16_t after = 0x5a5a; int32_t cas32; int64_t cas64; int16_t cas16; uint32_t token, ticket; uint64_t token64; uint16_t token16; };
}
SCENARIO(C28, counters, 3) {
    V *v = (V *)malloc(sizeof(V)); memset(v, 0, sizeof *v); v->before = 0x5a5a5a5a; v->after = 0x5a5a; int64_t s64 = oneof<int64_t>(S_WORK, {0, 0xfffffff0LL, -5, 0x7ffffff0LL}); v->a64 = s64; int32_t s32 = oneof<int>(S_WORK, {0, 0xfffe, -3, 0x7ffffff8}); v->a32 = s32; int16_t s16 = oneof<int>(S_WORK, {0, 250, -2, 0x7ff8}); v->a16 = s16;
    int k = 2 + W(4), fin = 0; int64_t d64 = 0; u32 d32 = 0; u16 d16 = 0; int zero32 = 0; u32 n_cas = 0; std::set<u32> seen, tickets; u32 n_tickets = 0; std::set<u64> seen64; bool mono = W(2); u32 tk = 1, expect_sum = 0, sum = 0; u64 expect64 = 0, sum64 = 0; u16 expect16 = 0, sum16 = 0;
    for (int i = 0; i < k; i++) spawn("user", [&] {
        V mine; memset(&mine, 0, sizeof mine); mine.before = 0x5a5a5a5a; mine.after = 0x5a5a; mine.a32 = s32; mine.a64 = s64; mine.a16 = s16;
        for (int n = 4 + P(30); n > 0; n--) {
            count_op();
            switch (P(mono ? 4 : 15)) {
            case 0: { d32++; u32 r = katom_inc(&v->a32); if (mono) SIM_CHECK(seen.insert(r).second, "atomic:result", "two increments returned %u", r); break; }
            case 1: { d64++; u64 r = katom_inc64(&v->a64); if (mono) SIM_CHECK(seen64.insert(r).second, "atomic:result", "two increments returned %llu", (unsigned long long)r); break; }
            case 2: { for (;;) { int32_t c = katom_get(&v->cas32); if (katom_cas(&v->cas32, c, c + 1)) break; } n_cas++; break; }
            case 3: { u32 m = 1 + P(1000); u32 o = katom_add(&v->ticket, m); count_op(); for (u32 q = 0; q < m; q += m > 20 ? 37 : 1) SIM_CHECK(tickets.insert(o + q).second, "atomic:result", "two additions to one counter were given the same range at %u", o + q); n_tickets += m; break; }      // ranges handed out never overlap
            case 4: d32--; katom_dec(&v->a32); break;
            case 5: { int m = (int)P(100000) - 50000; d32 += m; katom_add(&v->a32, m); break; }
            case 6: { int m = (int)P(100000) - 50000; d32 -= m; katom_sub(&v->a32, m); break; }
            case 7: d64--; katom_dec64(&v->a64); break;
            case 8: { int64_t m = ((int64_t)P(1 << 30) << 12) - 1000; d64 += m; katom_add64(&v->a64, m); break; }
            case 9: { int64_t m = ((int64_t)P(1 << 30) << 12) - 1000; d64 -= m; katom_sub64(&v->a64, m); break; }
            case 10: d16++; katom_inc16(&v->a16); break;
            case 11: d16--; katom_dec16(&v->a16); break;
            case 12: for (;;) { int64_t c = katom_get64(&v->cas64); if (katom_cas64(&v->cas64, c, c + 1)) break; } for (;;) { int16_t c = v->cas16; if (katom_cas16(&v->cas16, c, c + 1)) break; } zero32++; break;
            case 13: { u32 t = tk++; u32 w = P(3); if (w == 0) { expect_sum += t; sum += katom_set(&v->token, t); } else if (w == 1) { u64 q = (u64)t << 30 | t; expect64 += q; sum64 += katom_set64(&v->token64, q); } else { expect16 += t; sum16 += katom_set16(&v->token16, t); } break; }       // every value put in comes out once
            case 14: {                                                                             // a counter of this thread alone: every result is known
                int m = (int)P(200000) - 100000; int64_t m64 = (int64_t)m << 14; u32 o = mine.a32; u64 o64 = mine.a64; u16 o16 = mine.a16; bool ok = true;
                switch (P(7)) {
                case 0: ok = katom_add(&mine.a32, m) == o && (u32)mine.a32 == o + m && (u64)katom_add64(&mine.a64, m64) == o64 && (u64)mine.a64 == o64 + m64; break;
                case 1: ok = katom_sub(&mine.a32, m) == o && (u32)mine.a32 == o - m && (u64)katom_sub64(&mine.a64, m64) == o64 && (u64)mine.a64 == o64 - m64; break;
                case 2: ok = katom_inc(&mine.a32) == o + 1 && (u32)mine.a32 == o + 1 && (u64)katom_inc64(&mine.a64) == o64 + 1 && (u64)mine.a64 == o64 + 1 && (u16)katom_inc16(&mine.a16) == (u16)(o16 + 1) && (u16)mine.a16 == (u16)(o16 + 1); break;
                case 3: ok = katom_dec(&mine.a32) == o - 1 && (u32)mine.a32 == o - 1 && (u64)katom_dec64(&mine.a64) == o64 - 1 && (u64)mine.a64 == o64 - 1 && (u16)katom_dec16(&mine.a16) == (u16)(o16 - 1) && (u16)mine.a16 == (u16)(o16 - 1); break;
                case 4: ok = katom_set(&mine.a32, m) == o && mine.a32 == m && (u64)katom_set64(&mine.a64, m64) == o64 && mine.a64 == m64 && katom_set16(&mine.a16, m) == o16 && (u16)mine.a16 == (u16)m; break;
                case 5: ok = katom_cas(&mine.a32, o, m) && mine.a32 == m && katom_cas64(&mine.a64, o64, m64) && mine.a64 == m64 && katom_cas16(&mine.a16, o16, m) && (u16)mine.a16 == (u16)m; break;
                case 6: ok = !katom_cas(&mine.a32, o ^ (1u << P(32)), m) && (u32)mine.a32 == o && !katom_cas64(&mine.a64, o64 ^ (1ull << P(64)), m64) && (u64)mine.a64 == o64 && !katom_cas16(&mine.a16, o16 ^ (1u << P(16)), m) && (u16)mine.a16 == o16; break;
                }
                SIM_CHECK(ok && mine.before == 0x5a5a5a5a && mine.after == 0x5a5a, "atomic:result", "an update of an unshared counter left or returned a wrong value"); break; }
            }
            if (P(6) == 0) sleep_ns(P(50) * US);
        }
        fin++; });
    wait_for([&] { return fin == k; }, 10000, "atomic:blocked", "every thread ends"); sum += v->token; sum64 += v->token64; sum16 += v->token16;
    SIM_CHECK((u32)v->a32 == (u32)s32 + d32 && katom_get(&v->a32) == (u32)s32 + d32, "atomic:lost", "a 32-bit counter is %u after updates that add up to %u", (u32)v->a32, (u32)s32 + d32);
    SIM_CHECK(v->a64 == (int64_t)((u64)s64 + (u64)d64) && katom_get64(&v->a64) == (u64)s64 + (u64)d64, "atomic:lost", "a 64-bit counter is %lld after updates that add up to %lld", (long long)v->a64, (long long)(s64 + d64));
    SIM_CHECK((u16)v->a16 == (u16)(s16 + d16), "atomic:lost", "a 16-bit counter is %u after updates that add up to %u", (u16)v->a16, (u16)(s16 + d16));
    SIM_CHECK(v->cas32 == (int)n_cas && v->cas64 == zero32 && v->cas16 == (int16_t)zero32, "atomic:cas", "compare-and-swap loops counted %d, %lld, %d instead of %u, %d, %d", v->cas32, (long long)v->cas64, v->cas16, n_cas, zero32, zero32);
    SIM_CHECK(v->ticket == n_tickets, "atomic:lost", "a counter of tickets is %u after %u were taken", v->ticket, n_tickets);
    SIM_CHECK(sum == expect_sum && sum64 == expect64 && sum16 == expect16, "atomic:exchange", "an exchanged value was lost or seen twice"); SIM_CHECK(v->before == 0x5a5a5a5a && v->after == 0x5a5a, "atomic:neighbour", "an update of a counter changed its neighbour"); free(v);
}
// the last of several holders finds out, exactly one of them, and only after all others let go
SCENARIO(C28, last_out, 2) {
    int k = 2 + W(5), fin = 0, last = 0, inside = k; u32 *ref = (u32 *)malloc(4); *ref = k; bool dead = false;
    for (int i = 0; i < k; i++) spawn("holder", [&] { for (int n = P(4); n > 0; n--) { katom_inc(ref); SIM_CHECK(!dead, "atomic:early", "the count was zero while a holder was left"); if (P(2)) sleep_ns(P(30) * US); u32 r = katom_dec(ref); SIM_CHECK(r != 0, "atomic:early", "the count reached zero while a holder was left"); } inside--; u32 r = katom_dec(ref); count_op(); if (r == 0) { last++; dead = true; SIM_CHECK(inside == 0, "atomic:early", "the count reached zero while %d holders were left", inside); } fin++; });
    wait_for([&] { return fin == k; }, 10000, "atomic:blocked", "every thread ends"); SIM_CHECK(last == 1, "atomic:last", "%d holders found themselves to be the last", last); free(ref);
}
// counted strings: the text stays as it is while anyone holds it and is freed once, when the last holder lets go
SCENARIO(C28, strings, 2) {
    u64 mark = heap_mark(); int k = 2 + W(5), fin = 0, held = 0; u32 len = oneof(S_WORK, {0u, 1u, 7u, 100u, 3000u}); std::string t(len, 'x'); patfill(9, 0, &t[0], len); bool z = W(3) == 0; for (auto &ch : t) if (!ch) ch = 'n';
    kgl_ref_str_t *s = z ? kstring_from(t.c_str()) : kstring_from2(t.data(), len); SIM_CHECK(s && s->len == len && !memcmp(s->data, t.data(), len), "string:content", "a new string of %u bytes holds something else", len);
    SIM_CHECK(!s->data[len], "string:content", "a new string is not terminated"); kgl_ref_str_t *null = kstring_refs(nullptr); SIM_CHECK(!null && !kstring_from(nullptr), "string:null", "no string became one"); kstring_release(nullptr);
    held = 1; std::vector<kgl_ref_str_t *> mine; for (int i = 0; i < k; i++) { mine.push_back(kstring_refs(s)); held++; SIM_CHECK(mine[i] == s, "string:other", "another reference is another string"); } SIM_CHECK(kstring_get_ref(s) == (u32)held, "string:count", "%u references are counted as %u", held, kstring_get_ref(s));
    auto look = [&](const char *w) { SIM_CHECK(heap_is_live(s) && heap_is_live(s->data), "string:freed", "the string was freed %s while %d references are held", w, held); SIM_CHECK(s->len == len && !memcmp(s->data, t.data(), len), "string:content", "the string changed %s", w); };
    for (int i = 0; i < k; i++) spawn("holder", [&, i] {
        int have = 1;
        for (int n = P(8); n > 0; n--) { if (have > 1 && P(2)) { have--; kstring_release(s); held--; } else { kstring_refs(s); have++; held++; } count_op(); look("in use"); if (P(3) == 0) sleep_ns(P(30) * US); }
        while (have-- > 0) { look("before it was let go"); kstring_release(s); held--; count_op(); } fin++; });
    if (W(2)) { kstring_release(s); held--; }  else { wait_for([&] { return fin == k; }, 10000, "string:blocked", "every thread ends"); look("at the end"); SIM_CHECK(held == 1 && kstring_get_ref(s) == 1, "string:count", "%u references are counted as %u", held, kstring_get_ref(s)); kstring_release(s); held--; }
    wait_for([&] { return fin == k; }, 10000, "string:blocked", "every thread ends"); int c = 0; std::string l = heap_live_since(mark, 3, &c); SIM_CHECK(!heap_is_live(s), "string:leak", "the string is left when nobody holds it: %s", l.c_str());
}

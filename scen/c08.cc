// C08: fiber channels (one loop; not thread safe by design).
#include "common.h"
namespace {
struct Item { int id; int received = 0; bool sending = false, taken = false, ok = false, failed = false; int ack = 0; bool acked = false; };
kfiber_chan *ch; std::vector<Item *> items; int senders, receivers, b_send, b_recv; bool closed, closing; int delivered, sent_ok; bool held = false; int ackers;
Item *mk() { Item *i = new Item; i->id = items.size(); items.push_back(i); return i; }
int do_send() {
    Item *it = mk(); bool was_closed = closed; it->sending = true; b_send++; count_op();
    int r = kfiber_chan_send(ch, (KOPAQUE)it); b_send--; it->sending = false;
    hash_event(0x808, (u64)(u32)r);
    if (was_closed) { SIM_CHECK(r == -1, "chan:send-closed", "a send on a closed channel returned %d", r); }
    if (it->acked) SIM_CHECK(r == it->ack, "chan:ack", "send of item %d returned %d, its receiver acknowledged %d", it->id, r, it->ack);
    else if (it->taken) violation("chan:ack-early", "send of item %d returned %d before its receiver acknowledged it", it->id, r);
    else if (r == 0) { it->ok = true; sent_ok++; }   // its receiver may not have run yet
    else { SIM_CHECK(r == -1 && (closed || closing), "chan:send-fail", "send of item %d returned %d on an open channel", it->id, r); SIM_CHECK(it->received == 0, "chan:send-fail", "send of item %d failed although it was received", it->id); it->failed = true; }
    return r;
}
int do_recv() {
    kfiber_waiter *snd = (kfiber_waiter *)1; KOPAQUE d = nullptr; bool was_closed = closed; b_recv++; bool want = P(2); count_op();
    int waiting = b_send; int r = kfiber_chan_recv(ch, &d, want ? &snd : nullptr); b_recv--; (void)waiting;
    hash_event(0x809, (u64)(u32)r);
    if (r != 0) { SIM_CHECK(r == -1 && (closed || closing), "chan:recv-fail", "recv returned %d on an open channel", r); return r; }
    SIM_CHECK(!was_closed, "chan:recv-closed", "recv on a closed channel delivered an item");
    Item *it = (Item *)d; bool known = false; for (auto x : items) known |= x == it;
    SIM_CHECK(known, "chan:item", "recv delivered something that was never sent");
    SIM_CHECK(++it->received == 1, "chan:twice", "item %d was delivered %d times", it->id, it->received); delivered++;
    if (want && snd) {
        SIM_CHECK(it->sending, "chan:ack-early", "the sender of item %d went on before it was acknowledged", it->id);
        it->taken = true; int a = (int)P(2000) - 1000; ackers++;
        auto ack = [=] { SIM_CHECK(it->sending, "chan:ack-early", "the sender of item %d went on before it was acknowledged", it->id); it->acked = true; it->ack = a; ackers--; kfiber_chan_wakeup(ch, snd, a); };
        u32 m = P(3); if (m == 0) ack(); else if (m == 1) { kfiber_msleep(P(15)); ack(); } else fiber(nullptr, [=] { kfiber_msleep(P(20)); ack(); return 0; });
    }
    return 0;
}
void check_items() {
    for (auto i : items) {
        SIM_CHECK(i->received <= 1, "chan:twice", "item %d was delivered twice", i->id);
        SIM_CHECK(!i->ok || i->received == 1, "chan:send-lost", "send of item %d succeeded but nobody received it", i->id);
        SIM_CHECK(!i->failed || i->received == 0, "chan:send-fail", "send of item %d failed although it was received", i->id);
    }
}
void do_close() {
    closing = true; int r = kfiber_chan_close(ch); closed = true;
    SIM_CHECK(r == 0, "chan:close", "close returned %d", r);
    // every operation that was blocked (except sends whose item is already taken) has failed by now
    int taken = 0; for (auto i : items) taken += i->sending && i->taken;
    SIM_CHECK(b_recv == 0 && b_send == taken, "chan:close-blocked", "after the close %d receivers and %d senders are still blocked", b_recv, b_send - taken);
    if (P(3) == 0) SIM_CHECK(kfiber_chan_close(ch) == 0, "chan:close", "a second close fails");
}
}
SCENARIO(C08, balanced, 2) {       // as many sends as receives: everything completes without a close
    start_loops(1); Baseline b; swarm(FA_EINTR | FA_STALL);
    post_wait(L(0), [] { ch = kfiber_chan_create(); });
    int total = 1 + W(30), s = 0, r = 0, fin = 0, started = 0;
    while (s < total || r < total) {
        bool snd = s < total && (r >= total || W(2)); int left = snd ? total - s : total - r; int n = 1 + W(std::min(left, 6)); if (snd) s += n; else r += n; started++;
        fiber(L(0), [=, &fin] { for (int i = 0; i < n; i++) { if (P(3) == 0) kfiber_msleep(P(10)); if (snd) do_send(); else { int x = do_recv(); (void)x; } } fin++; return 0; });
        if (W(3) == 0) sleep_ms(W(12));
    }
    wait_for([&] { return fin == started && ackers == 0; }, 20000, "chan:blocked", "equal numbers of sends and receives complete");
    SIM_CHECK(delivered == total, "chan:count", "%d of %d items were delivered", delivered, total);
    check_items(); post_wait(L(0), [] { do_close(); }); bool late = false;
    fiber(L(0), [&] { SIM_CHECK(do_send() == -1, "chan:send-closed", "send on a closed channel"); SIM_CHECK(do_recv() == -1, "chan:recv-closed", "recv on a closed channel"); late = true; return 0; });
    wait_for([&] { return late; }, 3000, "chan:closed-blocks", "operations on a closed channel return");
    SIM_CHECK(kfiber_chan_get_ref(ch) == 1, "chan:ref", "reference count %d", kfiber_chan_get_ref(ch)); kfiber_chan_release(ch);
    settle(120); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "chan");
}
SCENARIO(C08, close, 3) {
    start_loops(1); Baseline b; swarm(FA_EINTR | FA_STALL);
    post_wait(L(0), [] { ch = kfiber_chan_create(); });
    int k = 1 + W(10), fin = 0, holders = 0;
    for (int i = 0; i < k; i++) {
        bool snd = W(2); int n = 1 + W(6); bool ref = W(3) == 0; if (ref) kfiber_chan_add_ref(ch);
        fiber(L(0), [=, &fin] { for (int i = 0; i < n; i++) { if (P(3) == 0) kfiber_msleep(P(15)); int r = snd ? do_send() : do_recv(); if (r == -1 && closed && P(2)) break; } if (ref) kfiber_chan_release(ch); fin++; return 0; });
        if (W(4) == 0) sleep_ms(W(12));
    }
    sleep_ms(W(60)); bool cl = false;
    if (W(2)) post(L(0), [&] { do_close(); cl = true; }); else fiber(L(0), [&] { if (P(2)) kfiber_msleep(P(20)); do_close(); cl = true; return 0; });
    wait_for([&] { return cl && fin == k && ackers == 0; }, 10000, "chan:blocked", "every operation ends after the channel was closed");
    check_items(); int ok = 0; for (auto i : items) ok += i->received;
    SIM_CHECK(ok == delivered, "chan:count", "deliveries do not match");
    SIM_CHECK(kfiber_chan_get_ref(ch) == 1, "chan:ref", "reference count %d", kfiber_chan_get_ref(ch)); post_wait(L(0), [] { kfiber_chan_release(ch); });
    settle(120); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "chan");
}
SCENARIO(C08, refs, 1) {     // references taken and dropped from several threads: the channel is freed exactly once
    start_loops(2); Baseline b; ch = kfiber_chan_create(); int k = 2 + W(4), fin = 0;
    for (int i = 0; i < k; i++) { SIM_CHECK(kfiber_chan_add_ref(ch) == ch, "chan:ref", "add_ref returned another channel"); spawn("holder", [&] { int n = P(10); for (int j = 0; j < n; j++) { kfiber_chan_add_ref(ch); if (P(3) == 0) sleep_ns(P(100) * US); kfiber_chan_release(ch); count_op(); } kfiber_chan_release(ch); fin++; }); }
    wait_for([&] { return fin == k; }, 5000, "chan:ref", "holders finish");
    SIM_CHECK(kfiber_chan_get_ref(ch) == 1, "chan:ref", "reference count %d after all holders let go", kfiber_chan_get_ref(ch)); kfiber_chan_release(ch);
    hash_event(0x80a, k); check_clean(b, CL_HEAP, "chan");
}

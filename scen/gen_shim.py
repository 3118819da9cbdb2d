#!/usr/bin/env python3
"""Writes the shim: plain functions around the header-inline API of kasync, compiled like kasync itself (instrumented),
so that scenarios (whose own code runs without preemption) execute the inline code under the scheduler."""
import sys
API = """
int kfiber_create(kfiber_start_func start, void *arg, int len, int stk_size, kfiber **fiber)
kfiber *kfiber_self2()
void kfiber_wakeup_ts(kfiber *fiber, void *obj, int ret)
void kfiber_wakeup(kfiber *fiber, void *obj, int ret)
int kfiber_wait(kgl_base_selectable *bst, void *obj)
int kfiber_wait_result(kfiber *fiber, kev_result result, void *obj)
uint32_t katom_inc(void *v)
kgl_ref_str_t *kstring_refs(const kgl_ref_str_t *s)
void kstring_release(kgl_ref_str_t *s)
kgl_ref_str_t *kstring_from(const char *str)
kgl_ref_str_t *kstring_from2(const char *str, size_t len)
uint32_t kstring_get_ref(const kgl_ref_str_t *s)
uint32_t katom_dec(void *v)
uint32_t katom_add(void *v, int32_t n)
uint32_t katom_sub(void *v, int32_t n)
uint32_t katom_set(void *v, uint32_t n)
uint32_t katom_get(void *v)
bool katom_cas(void *v, int32_t a, int32_t b)
uint64_t katom_inc64(void *v)
int64_t katom_dec64(void *v)
int64_t katom_add64(void *v, int64_t n)
int64_t katom_sub64(void *v, int64_t n)
int64_t katom_set64(void *v, uint64_t n)
uint64_t katom_get64(void *v)
bool katom_cas64(void *v, int64_t a, int64_t b)
int16_t katom_inc16(void *v)
int16_t katom_dec16(void *v)
uint16_t katom_set16(void *v, uint16_t n)
bool katom_cas16(void *v, int16_t a, int16_t b)
int kfiber_net_writev(kconnection *cn, kgl_iovec *buf, int bc)
int kfiber_net_write(kconnection *cn, const char *buf, int len)
bool kfiber_sendfile_full(kconnection *cn, kfiber_file *fp, int *len)
size_t kfiber_net_writev_full(kconnection *cn, kgl_iovec *buf, int *bc)
bool kfiber_net_write_full(kconnection *cn, const char *buf, int *len)
int kfiber_net_readv(kconnection *cn, kgl_iovec *buf, int bc)
int kfiber_net_read(kconnection *cn, char *buf, int len)
bool kfiber_net_read_full(kconnection *cn, char *buf, int *len)
bool kfiber_file_write_full(kfiber_file *fp, const char *buf, int *len)
bool kfiber_file_read_full(kfiber_file *fp, char *buf, int *len)
kfiber_mutex *kfiber_mutex_init()
kfiber_mutex *kfiber_mutex_init2(int num)
int kfiber_mutex_get_limit(kfiber_mutex *m)
void kfiber_mutex_set_limit(kfiber_mutex *m, int limit)
int kfiber_mutex_get_worker(kfiber_mutex *m)
int kfiber_mutex_get_count(kfiber_mutex *m)
int kfiber_mutex_lock(kfiber_mutex *m)
int kfiber_mutex_try_lock(kfiber_mutex *m, int max)
int kfiber_mutex_unlock(kfiber_mutex *m)
void kfiber_mutex_destroy(kfiber_mutex *m)
kfiber_rwlock *kfiber_rwlock_init()
int kfiber_rwlock_rlock(kfiber_rwlock *m)
int kfiber_rwlock_wlock(kfiber_rwlock *m)
int kfiber_rwlock_runlock(kfiber_rwlock *m)
int kfiber_rwlock_wunlock(kfiber_rwlock *m)
void kfiber_rwlock_destroy(kfiber_rwlock *m)
kcond *kcond_init(bool auto_reset)
void kcond_reset(kcond *c)
void kcond_wait(kcond *c)
bool kcond_try_wait(kcond *c, int msec)
void kcond_notice(kcond *c)
void kcond_destroy(kcond *c)
void krw_mutex_init(krw_mutex *m)
void krw_mutex_rlock(krw_mutex *m)
void krw_mutex_wlock(krw_mutex *m)
void krw_mutex_wunlock(krw_mutex *m)
void krw_mutex_runlock(krw_mutex *m)
void kwr_mutex_init(kwr_mutex *m)
void kwr_mutex_rlock(kwr_mutex *m, bool high)
void kwr_mutex_wlock(kwr_mutex *m)
void kwr_mutex_wunlock(kwr_mutex *m)
void kwr_mutex_runlock(kwr_mutex *m)
bool selectable_readhup(kselectable *st, result_callback result, void *arg)
void selectable_remove_readhup(kselectable *st)
kev_result selectable_sendfile(kselectable *st, result_callback result, kgl_iovec *buffer, void *arg)
bool selectable_support_sendfile(kselectable *st)
int selectable_shutdown(kselectable *st)
void selectable_bind(kselectable *st, kselector *selector)
void selectable_bind_opaque(kselectable *st, KOPAQUE data)
KOPAQUE selectable_get_opaque(kselectable *st)
void kserver_set_opaque(kserver *server, kserver_free_opaque f, KOPAQUE data)
KOPAQUE kserver_get_opaque(kserver *server)
void kserver_refs(kserver *server)
void kasync_worker_set(kasync_worker *w, int max_worker, int max_queue)
bool kasync_worker_will_wait(kasync_worker *w)
kconnection *kudp_new(int flags)
int ksocket_addr_len(const sockaddr_i *addr)
uint16_t ksocket_addr_port(const sockaddr_i *addr)
kselector *kgl_get_tls_selector()
int kconnection_self_addr(kconnection *c, sockaddr_i *addr)
void kgl_add_ref_ssl_ctx(kgl_ssl_ctx *c)
void kgl_release_ssl_ctx(kgl_ssl_ctx *c)
kgl_ssl_ctx *kgl_new_ssl_ctx(SSL_CTX *c)
"""
import re
def parse():
    for l in API.strip().splitlines():
        m = re.match(r'(.*?[\s*])(\w+)\((.*)\)$', l)
        ret, name, params = m.group(1).strip(), m.group(2), m.group(3)
        args = ', '.join(re.search(r'(\w+)$', p.strip()).group(1) for p in params.split(',') if p.strip())
        yield ret, name, params, args
h = ['// generated by gen_shim.py', '#pragma once', '#include "kall.h"', 'extern "C" {']
c = ['// generated by gen_shim.py', '#define KSHIM_IMPL', '#include "kall.h"', 'extern "C" {']
for ret, name, params, args in parse():
    h.append(f'{ret} s_{name}({params});')
    h.append(f'#define {name} s_{name}')
    c.append(f'{ret} s_{name}({params}) {{ {"" if ret == "void" else "return "}{name}({args}); }}')
h.append('kev_result s_accept_tramp(KOPAQUE data, void *arg, int got);   // KACCEPT_CALLBACK around s_accept_hook')
h.append('kev_result s_accept_hook(KOPAQUE data, void *arg, int got);      // defined by the scenarios')
c.append('kev_result s_accept_hook(KOPAQUE data, void *arg, int got);')
c.append('KACCEPT_CALLBACK(s_accept_tramp) { return s_accept_hook(data, arg, got); }')
h.append('}'); c.append('}')
out = sys.argv[1]
open(out + '/kshim.h', 'w').write('\n'.join(h) + '\n')
open(out + '/kshim.cc', 'w').write('\n'.join(c) + '\n')

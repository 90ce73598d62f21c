// Definitions of libstdc++ functions that live in the shared library, so that vsym can execute them.
// Bitcode only; the native replay uses the real library.
#define private public
#include <thread>
#undef private
#include <bits/stdc++.h>
extern "C" { bool vf_flat_hash = false; }
extern "C" {
uint64_t vf_sym(const char*, uint32_t);
void vf_fault(const char*);
void vf_unsupported(const char*);
void vf_cond_wait(void* cv, void* m);
void vf_cond_notify(void* cv, int all);
int vf_futex_wait(void* a, uint32_t v);
uint64_t vf_thread_create(void* (*fn)(void*), void* arg);
void vf_thread_join(uint64_t id);
uint64_t vf_thread_self();
void* vf_cur_exc();
void vf_rethrow_ptr(void*) __attribute__((noreturn));
void* vf_make_exc(void*, const void* ti, void* dtor);
uint64_t vf_clock();
}
// ---- exceptions
namespace std {
static char* dup(const char* s) {
  size_t n = __builtin_strlen(s);
  char* p = (char*)malloc(n + 1);
  memcpy(p, s, n + 1);
  return p;
}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
__cow_string::__cow_string() : _M_p(dup("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dup(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(dup(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  if (&o != this) { free((void*)_M_p); _M_p = dup(o._M_p); }
  return *this;
}
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dup(""); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(_M_p, o._M_p); return *this; }
#define EX(N)                                             \
  N::N(const std::string& s) : _M_msg(s) {}               \
  N::N(const char* s) : _M_msg(s, 0) {}                   \
  N::N(N&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  N& N::operator=(N&& o) noexcept { _M_msg = o._M_msg; return *this; } \
  N::N(const N& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  N& N::operator=(const N& o) noexcept { _M_msg = o._M_msg; return *this; } \
  N::~N() noexcept {}                                     \
  const char* N::what() const noexcept { return _M_msg._M_p; }
EX(logic_error)
EX(runtime_error)
#define EXD(N, B)                        \
  N::N(const std::string& s) : B(s) {}   \
  N::N(const char* s) : B(s) {}          \
  N::~N() noexcept {}
EXD(domain_error, logic_error)
EXD(invalid_argument, logic_error)
EXD(length_error, logic_error)
EXD(out_of_range, logic_error)
EXD(range_error, runtime_error)
EXD(overflow_error, runtime_error)
EXD(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
struct VfCat final : error_category {
  const char* n;
  VfCat(const char* s) : n(s) {}
  const char* name() const noexcept override { return n; }
  string message(int) const override { return n; }
  __cow_string _M_message(int) const override { return __cow_string(n, 0); }
};
__cow_string error_category::_M_message(int) const { return __cow_string(); }
static VfCat cg("generic"), cs("system"), cf("future"), ci("iostream");
const error_category& _V2::generic_category() noexcept { return cg; }
const error_category& _V2::system_category() noexcept { return cs; }
const error_category& future_category() noexcept { return cf; }
const error_category& iostream_category() noexcept { return ci; }
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }

// ---- trees
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  auto* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    auto* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  auto* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  auto* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  auto*& root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      auto* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root);
      }
    } else {
      auto* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto*& root = h._M_parent;
  auto*& leftmost = h._M_left;
  auto*& rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    std::swap(y->_M_color, z->_M_color);
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right) leftmost = z->_M_parent;
      else { auto* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (!z->_M_left) rightmost = z->_M_parent;
      else { auto* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotL(xp, root);
          break;
        }
      } else {
        auto* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotR(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- lists, hash tables
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto* const t = this->_M_prev;
    this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept {
  auto* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
static const size_t primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  vf_unsupported("hash table too large");
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t need = ne + ni;
    if (_M_next_resize == 0 && need < 11) need = 11;
    if (need >= nb) return {true, _M_next_bkt(std::max(need + 1, nb * 2))};
    _M_next_resize = nb;
  }
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  if (vf_flat_hash) return seed ^ n;
  const unsigned char* c = (const unsigned char*)p;
  size_t h = seed ^ (n * 31);
  for (size_t i = 0; i < n; i++) h = h * 131 + c[i];
  return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }
// ---- strings
template class basic_string<char>;
template basic_string<char> std::operator+(const char*, const basic_string<char>&);
// ---- threads
struct VfThr { thread::_State* s; };
static void* vfTramp(void* p) {
  auto* s = (thread::_State*)p;
  s->_M_run();
  delete s;
  return nullptr;
}
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id(vf_thread_create(vfTramp, s.release()) + 1); }
void thread::join() {
  if (!joinable()) __throw_system_error(22);
  vf_thread_join(*(uint64_t*)this - 1);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) {} }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { vf_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vf_cond_notify(this, 0); }
void condition_variable::notify_all() noexcept { vf_cond_notify(this, 1); }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { vf_futex_wait(a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
// ---- exception_ptr
void __exception_ptr::exception_ptr::_M_addref() noexcept {}
void __exception_ptr::exception_ptr::_M_release() noexcept { _M_exception_object = nullptr; }
void* __exception_ptr::exception_ptr::_M_get() const noexcept { return _M_exception_object; }
__exception_ptr::exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {}
exception_ptr current_exception() noexcept { void* p = vf_cur_exc(); return *(exception_ptr*)&p; }
void rethrow_exception(exception_ptr e) { void* p = *(void**)&e; vf_rethrow_ptr(p); }
int uncaught_exceptions() noexcept { return 0; }
bool uncaught_exception() noexcept { return false; }
// ---- clocks, randomness
chrono::_V2::system_clock::time_point chrono::_V2::system_clock::now() noexcept { return time_point(nanoseconds(vf_clock())); }
chrono::_V2::steady_clock::time_point chrono::_V2::steady_clock::now() noexcept { return time_point(nanoseconds(vf_clock())); }
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return (unsigned)vf_sym("random_device", 32); }
} // namespace std
namespace __cxxabiv1 {
extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* p, std::type_info* ti, void (*d)(void*)) noexcept { return (__cxa_refcounted_exception*)vf_make_exc(p, ti, (void*)d); }
}
extern "C" {
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (*o == 0) { f(); *o = 2; }
  return 0;
}
void* vf_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* vf_memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
  for (; n; n--, a++, b++) {
    if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
static int vfErrno;
int* __errno_location() { return &vfErrno; }
static int dig(char c) { return (unsigned char)(c - '0') < 10 ? c - '0' : c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long conv(const char* s, char** e, int base, bool isSigned) {
  const char* p = s;
  if ((unsigned char)(*p - '0') >= 10) while (sp(*p)) p++;
  bool neg = false;
  if ((unsigned char)(*p - '0') >= 10 && (*p == '+' || *p == '-')) neg = *p++ == '-';
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned __int128 v = 0;
  bool any = false, over = false;
  for (; dig(*p) < base; p++) {
    any = true;
    v = v * base + dig(*p);
    if (v >> 64) { over = true; v = 1; }
  }
  if (e) *e = (char*)(any ? p : s);
  if (!any) return 0;
  if (isSigned) {
    unsigned __int128 lim = neg ? (unsigned __int128)1 << 63 : ((unsigned __int128)1 << 63) - 1;
    if (over || v > lim) { vfErrno = 34; return (unsigned long)lim; }
  } else if (over) { vfErrno = 34; return ~0ul; }
  return neg ? -(unsigned long)v : (unsigned long)v;
}
long __isoc23_strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, true); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long)conv(s, e, b, true); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return conv(s, e, b, false); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return conv(s, e, b, false); }
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isspace(int c) { return sp((char)c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}

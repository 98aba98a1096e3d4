/* Models of the libstdc++ routines that live in the shared library; linked into the symbolic build only. */
#include "vh.h"
#include <bits/stl_tree.h>
#include <new>
extern "C" void abort(void);
namespace std {
void __throw_length_error(const char *) { abort(); }
void __throw_logic_error(const char *) { abort(); }
void __throw_out_of_range(const char *) { abort(); }
void __throw_out_of_range_fmt(const char *, ...) { abort(); }
void __throw_bad_alloc() { abort(); }
void __throw_bad_array_new_length() { abort(); }
void __throw_invalid_argument(const char *) { abort(); }
void __throw_bad_cast() { abort(); }
typedef _Rb_tree_node_base N;
/* the order of a tree is all that matters to its users, so nothing is rebalanced here */
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black; /* the header alone is red */
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static N *inc(N *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static N *dec(N *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } { N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; } }
N *_Rb_tree_increment(N *x) noexcept { return inc(x); }
const N *_Rb_tree_increment(const N *x) noexcept { return inc(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) noexcept { return dec(x); }
const N *_Rb_tree_decrement(const N *x) noexcept { return dec(const_cast<N *>(x)); }
}
/* streams (harness/cxx/vhstream) and exceptions */
#include <iostream>
#include <stdexcept>
namespace std {
vh_file vh_files[vh_nfiles]; struct null_buf : streambuf { protected: virtual streamsize xsputn(const char *s, streamsize n) { return n; } virtual int overflow(int c) { return c; } };
static null_buf sink; ostream cout(&sink), cerr(&sink), clog(&sink); istream cin(&sink);
/* exceptions carry no text here: nothing observes it and nobody would release it */
__cow_string::__cow_string() : _M_p(0) {} __cow_string::~__cow_string() {} __cow_string::__cow_string(const __cow_string &) noexcept : _M_p(0) {}
exception::~exception() noexcept {} const char *exception::what() const noexcept { return ""; }
runtime_error::runtime_error(const char *) {} runtime_error::runtime_error(const string &) {} runtime_error::runtime_error(const runtime_error &) noexcept {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return ""; }
logic_error::logic_error(const char *) {} logic_error::logic_error(const string &) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return ""; }
}
#include "vh.h"
extern "C" void vh_no_seek() { vh_unsupported("seeking in streams"); }
extern "C" int vh_open_count(int d) { static int n; return n += d; }

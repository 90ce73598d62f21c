#pragma once
namespace folly {
template <class T> class Synchronized { T t; public: template <class F> auto withWLock(F f) { return f(t); } template <class F> auto withRLock(F f) { return f((const T&)t); } };
}

#pragma once
namespace google { namespace protobuf {
class Closure { public: Closure() {} virtual ~Closure() {} virtual void Run() = 0; private: Closure(const Closure&); void operator=(const Closure&); };
template <class A> class sx_Fn1Closure : public Closure { public: sx_Fn1Closure(void (*f)(A), A a) : f_(f), a_(a) {} void Run() { void (*f)(A) = f_; A a = a_; delete this; f(a); } void (*f_)(A); A a_; };
template <class A> Closure* NewCallback(void (*f)(A), A a) { return new sx_Fn1Closure<A>(f, a); }
inline void DoNothing() {}
}}

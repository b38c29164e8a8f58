// Drives the C++ front end (public interface only) and the C interface step by step, on behalf of the simulator.
// Allocations of C++ code go through the simulator, which can make them fail.
#include <adv/AContext.hpp>
#include <adv/ADouble.hpp>
#include "ffi.hpp"

#include <cstdlib>
#include <new>
#include <utility>
#include <vector>

extern "C" void* advsim_cxx_alloc(std::size_t size);
extern "C" void advsim_cxx_free(void* p);
extern "C" void* advsim_track(void* p, int context);

void* operator new(std::size_t n)
{
	void* p = advsim_cxx_alloc(n);
	if (p == nullptr) {
		throw std::bad_alloc();
	}
	return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return advsim_cxx_alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return advsim_cxx_alloc(n); }
void operator delete(void* p) noexcept { advsim_cxx_free(p); }
void operator delete[](void* p) noexcept { advsim_cxx_free(p); }
void operator delete(void* p, std::size_t) noexcept { advsim_cxx_free(p); }
void operator delete[](void* p, std::size_t) noexcept { advsim_cxx_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { advsim_cxx_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { advsim_cxx_free(p); }

// The objects the C interface hands out are noted (the front end's object files call these instead).
#define T(x) static_cast<adv_adouble*>(advsim_track(x, 0))
extern "C" {
adv_acontext* advsim_t_adv_acontext_new(void) { return static_cast<adv_acontext*>(advsim_track(adv_acontext_new(), 1)); }
adv_adouble* advsim_t_adv_acontext_new_independent(adv_acontext* c) { return T(adv_acontext_new_independent(c)); }
adv_adouble* advsim_t_adv_adouble_default(void) { return T(adv_adouble_default()); }
adv_adouble* advsim_t_adv_adouble_copy(const adv_adouble* x) { return T(adv_adouble_copy(x)); }
adv_adouble* advsim_t_adv_adouble_from_value(double x) { return T(adv_adouble_from_value(x)); }
#define BIN(n) void advsim_t_adv_##n(const adv_adouble* a, const adv_adouble* b, adv_adouble** r) { adv_##n(a, b, r); T(*r); }
BIN(op_add) BIN(op_sub) BIN(op_mul) BIN(op_div) BIN(max) BIN(min)
#define UN(n) void advsim_t_adv_##n(const adv_adouble* a, adv_adouble** r) { adv_##n(a, r); T(*r); }
UN(sin) UN(cos) UN(tan) UN(abs) UN(exp) UN(ln)
}

namespace
{
const int ND = 6, NK = 3, NR = 4, NC = 2;
struct Env {
	alignas(adv::ADouble) unsigned char d[ND][sizeof(adv::ADouble)];
	alignas(adv::AContext) unsigned char k[NK][sizeof(adv::AContext)];
	alignas(std::vector<adv::ADouble>) unsigned char v[sizeof(std::vector<adv::ADouble>)];
	adv_adouble* r[NR];
	adv_acontext* c[NC];
	adv::ADouble* arr;
	int arr_len;
	adv::ADouble& D(int i) { return *reinterpret_cast<adv::ADouble*>(d[i]); }
	adv::AContext& K(int i) { return *reinterpret_cast<adv::AContext*>(k[i]); }
	std::vector<adv::ADouble>& V() { return *reinterpret_cast<std::vector<adv::ADouble>*>(v); }
};
adv::ADouble pass(adv::ADouble x) { return x; }
adv::ADouble arith(int op, const adv::ADouble& a, const adv::ADouble& b)
{
	switch (op & 3) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	default: return a / b;
	}
}
adv::ADouble arith_dl(int op, double a, const adv::ADouble& b)
{
	switch (op & 3) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	default: return a / b;
	}
}
adv::ADouble arith_dr(int op, const adv::ADouble& a, double b)
{
	switch (op & 3) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	default: return a / b;
	}
}
adv::ADouble func(int f, const adv::ADouble& a)
{
	switch (f) {
	case 0: return sin(a);
	case 1: return cos(a);
	case 2: return tan(a);
	case 3: return abs(a);
	case 4: return exp(a);
	default: return ln(a);
	}
}
void c_arith(int op, const adv_adouble* a, const adv_adouble* b, adv_adouble** r)
{
	switch (op & 3) {
	case 0: adv_op_add(a, b, r); break;
	case 1: adv_op_sub(a, b, r); break;
	case 2: adv_op_mul(a, b, r); break;
	default: adv_op_div(a, b, r);
	}
}
void c_func(int f, const adv_adouble* a, adv_adouble** r)
{
	switch (f) {
	case 0: adv_sin(a, r); break;
	case 1: adv_cos(a, r); break;
	case 2: adv_tan(a, r); break;
	case 3: adv_abs(a, r); break;
	case 4: adv_exp(a, r); break;
	default: adv_ln(a, r);
	}
}
}

// what: see fam/cxx.rs
extern "C" void* advsim_env_new()
{
	Env* e = static_cast<Env*>(std::calloc(1, sizeof(Env)));
	new (e->v) std::vector<adv::ADouble>();
	return e;
}
extern "C" void advsim_env_free(void* p)
{
	Env* e = static_cast<Env*>(p);
	typedef std::vector<adv::ADouble> V;
	e->V().~V();
	std::free(e);
}
// 0: done, 1: std::bad_alloc, 2: another exception
// other: an object of another environment (read only) instead of D[b], or null
extern "C" int advsim_step(void* p, void* other, int op, int a, int b, int c, int f, double v, double* out)
{
	Env* e = static_cast<Env*>(p);
	Env* o = other ? static_cast<Env*>(other) : e;
	try {
		switch (op) {
		case 0: new (e->d[a]) adv::ADouble(); break;
		case 1: new (e->d[a]) adv::ADouble(v); break;
		case 2: new (e->d[a]) adv::ADouble(o->D(b)); break;
		case 3: new (e->d[a]) adv::ADouble(std::move(e->D(b))); break;
		case 4: e->D(a) = o->D(b); break;
		case 5: e->D(a) = std::move(e->D(b)); break;
		case 6: e->D(a).~ADouble(); break;
		case 7: e->D(a) = arith(f, o->D(b), e->D(c)); break;
		case 8: new (e->d[a]) adv::ADouble(arith(f, o->D(b), e->D(c))); break;
		case 9: e->D(a) = arith_dl(f, v, o->D(b)); break;
		case 10: e->D(a) = arith_dr(f, o->D(b), v); break;
		case 11: e->D(a) = func(f, o->D(b)); break;
		case 12: e->D(a) = (f & 1) ? max(o->D(b), e->D(c)) : min(o->D(b), e->D(c)); break;
		case 13: e->D(a) = v; break;
		case 14: new (e->k[a]) adv::AContext(); break;
		case 15: new (e->k[a]) adv::AContext(std::move(e->K(b))); break;
		case 16: e->K(a) = std::move(e->K(b)); break;
		case 17: e->K(a).~AContext(); break;
		case 18: e->D(a) = o->K(b).new_independent(); break;
		case 19: o->K(b).set_dependent(e->D(a)); break;
		case 20: std::swap(e->D(a), e->D(b)); break;
		case 21: e->D(a) = pass(o->D(b)); break;
		case 22: e->V().push_back(o->D(b)); break;
		case 23: e->V().clear(); break;
		case 24: e->D(a) = e->V()[b]; break;
		case 25: e->V()[a] = o->D(b); break;
		case 26: e->arr = new adv::ADouble[a]; e->arr_len = a; break;
		case 27: delete[] e->arr; e->arr = nullptr; break;
		case 28: e->D(a) = e->arr[b]; break;
		case 29: e->arr[a] = o->D(b); break;
		case 30: e->V().erase(e->V().begin() + a); break;
		case 31: {
			// a longer expression with temporaries
			const adv::ADouble& x = o->D(b);
			const adv::ADouble& y = e->D(c);
			e->D(a) = (x + v) * y - x / (v + abs(y) * y) + max(x, y);
			break;
		}
		case 40: {
			const double w = *out;
			switch (f) {
			case 0: *out = adv::sin(v); break;
			case 1: *out = adv::cos(v); break;
			case 2: *out = adv::tan(v); break;
			case 3: *out = adv::abs(v); break;
			case 4: *out = adv::exp(v); break;
			case 5: *out = adv::ln(v); break;
			case 6: *out = adv::min(v, w); break;
			default: *out = adv::max(v, w);
			}
			break;
		}
		// the C interface
		case 50: e->r[a] = static_cast<adv_adouble*>(advsim_track(adv_adouble_default(), 0)); break;
		case 51: e->r[a] = T(adv_adouble_from_value(v)); break;
		case 52: e->r[a] = T(adv_adouble_copy(e->r[b])); break;
		case 53: adv_adouble_free(e->r[a]); break;
		case 54: c_arith(f, e->r[b], e->r[c], &e->r[a]); T(e->r[a]); break;
		case 55: c_func(f, e->r[b], &e->r[a]); T(e->r[a]); break;
		case 56: (f & 1) ? adv_max(e->r[b], e->r[c], &e->r[a]) : adv_min(e->r[b], e->r[c], &e->r[a]); T(e->r[a]); break;
		case 57: e->c[a] = advsim_t_adv_acontext_new(); break;
		case 58: adv_acontext_free(e->c[a]); break;
		case 59: e->r[a] = T(adv_acontext_new_independent(e->c[b])); break;
		case 60: adv_acontext_set_dependent(e->c[b], e->r[a]); break;
		default: break;
		}
	}
	catch (const std::bad_alloc&) {
		return 1;
	}
	catch (...) {
		return 2;
	}
	return 0;
}

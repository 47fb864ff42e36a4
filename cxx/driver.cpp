// Executes single steps of a history on the C++ and on the C interface.
#include <adv.hpp>
#include "ffi.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <utility>
#include <vector>

static long live_objects = 0;
void* operator new(std::size_t n)
{
	void* p = std::malloc(n ? n : 1);
	if (p == nullptr) {
		std::abort();
	}
	++live_objects;
	return p;
}
void operator delete(void* p) noexcept
{
	if (p != nullptr) {
		--live_objects;
		std::free(p);
	}
}
void operator delete(void* p, std::size_t) noexcept
{
	operator delete(p);
}
extern "C" long drv_live() { return live_objects; }

namespace {

using adv::AContext;
using adv::ADouble;
const int MAX = 8;

template <class T> struct Slot
{
	T* p = nullptr;
	T& operator*() { return *p; }
	template <class V> void put(V&& val)
	{
		if (p == nullptr) {
			// storage of its own, so that reading past it or after its end shows
			p = new (std::malloc(sizeof(T))) T(std::forward<V>(val));
		}
		else {
			*p = std::forward<V>(val);
		}
	}
	void destroy()
	{
		if (p != nullptr) {
			p->~T();
			std::free(static_cast<void*>(p));
			p = nullptr;
		}
	}
};
Slot<ADouble> v[MAX];
Slot<AContext> k[MAX];
adv_adouble* cv[MAX];
adv_acontext* ck[MAX];

ADouble through(ADouble x) { return x; }
bool is(const char* a, const char* b) { return std::strcmp(a, b) == 0; }

template <class A, class B> ADouble binary(const char* op, const A& a, const B& b)
{
	if (is(op, "add")) { return a + b; }
	if (is(op, "sub")) { return a - b; }
	if (is(op, "mul")) { return a * b; }
	if (is(op, "div")) { return a / b; }
	if (is(op, "min")) { return adv::min(a, b); }
	if (is(op, "max")) { return adv::max(a, b); }
	std::abort();
}
ADouble unary(const char* op, const ADouble& a)
{
	if (is(op, "sin")) { return adv::sin(a); }
	if (is(op, "cos")) { return adv::cos(a); }
	if (is(op, "tan")) { return adv::tan(a); }
	if (is(op, "abs")) { return adv::abs(a); }
	if (is(op, "exp")) { return adv::exp(a); }
	if (is(op, "ln")) { return adv::ln(a); }
	std::abort();
}

void cxx_step(const std::string& act, int s, int a, int b, const char* op, double x)
{
	if (act == "default") { v[s].p = new (std::malloc(sizeof(ADouble))) ADouble(); }
	else if (act == "value") { if (v[s].p == nullptr) { v[s].put(x); } else { *v[s] = x; } }
	else if (act == "copy") { const ADouble& t = *v[a]; v[s].put(t); }
	else if (act == "move") { v[s].put(std::move(*v[a])); }
	else if (act == "via") {
		std::vector<ADouble> w;
		for (int i = 0; i < 3; ++i) { w.push_back(*v[a]); }
		w.erase(w.begin());
		w.insert(w.begin(), ADouble(7.0));
		ADouble t = through(w[1]);
		w[0] = std::move(w[2]);
		w.pop_back();
		w.clear();
		v[s].put(through(std::move(t)));
	}
	else if (act == "swap") { std::swap(*v[s], *v[a]); }
	else if (act == "destroy") { v[s].destroy(); }
	else if (act == "knew") { k[s].p = new (std::malloc(sizeof(AContext))) AContext(); }
	else if (act == "krenew") { *k[s] = AContext(); }
	else if (act == "kmove") { k[s].put(std::move(*k[a])); }
	else if (act == "kdestroy") { k[s].destroy(); }
	else if (act == "indep") { v[s].put((*k[a]).new_independent()); }
	else if (act == "dep") { (*k[s]).set_dependent(*v[a]); }
	else if (act == "bin") { v[s].put(binary(op, *v[a], *v[b])); }
	else if (act == "left") { v[s].put(binary(op, x, *v[b])); }
	else if (act == "right") { v[s].put(binary(op, *v[a], x)); }
	else if (act == "un") { v[s].put(unary(op, *v[a])); }
	else { std::abort(); }
}

typedef void (*bin_t)(const adv_adouble*, const adv_adouble*, adv_adouble**);
typedef void (*un_t)(const adv_adouble*, adv_adouble**);
bin_t cbin(const char* op)
{
	return is(op, "add") ? adv_op_add : is(op, "sub") ? adv_op_sub : is(op, "mul") ? adv_op_mul : is(op, "div") ? adv_op_div :
		is(op, "min") ? adv_min : adv_max;
}
un_t cun(const char* op)
{
	return is(op, "sin") ? adv_sin : is(op, "cos") ? adv_cos : is(op, "tan") ? adv_tan : is(op, "abs") ? adv_abs :
		is(op, "exp") ? adv_exp : adv_ln;
}
void cput(int s, adv_adouble* r)
{
	if (cv[s] != nullptr) { adv_adouble_free(cv[s]); }
	cv[s] = r;
}
void ckput(int s, adv_acontext* r)
{
	if (ck[s] != nullptr) { adv_acontext_free(ck[s]); }
	ck[s] = r;
}
void c_step(const std::string& act, int s, int a, int b, const char* op, double x)
{
	adv_adouble* r = nullptr;
	if (act == "default") { cput(s, adv_adouble_default()); }
	else if (act == "value") { cput(s, adv_adouble_from_value(x)); }
	else if (act == "copy") { cput(s, adv_adouble_copy(cv[a])); }
	else if (act == "move") { r = cv[a]; cv[a] = nullptr; cput(s, r); if (s == a) { cput(s, nullptr); } }
	else if (act == "via") { adv_adouble* t = adv_adouble_copy(cv[a]); r = adv_adouble_copy(t); adv_adouble_free(t); cput(s, r); }
	else if (act == "swap") { std::swap(cv[s], cv[a]); }
	else if (act == "destroy") { cput(s, nullptr); }
	else if (act == "knew" || act == "krenew") { ckput(s, adv_acontext_new()); }
	else if (act == "kmove") { adv_acontext* t = ck[a]; ck[a] = nullptr; ckput(s, t); if (s == a) { ckput(s, nullptr); } }
	else if (act == "kdestroy") { ckput(s, nullptr); }
	else if (act == "indep") { cput(s, adv_acontext_new_independent(ck[a])); }
	else if (act == "dep") { adv_acontext_set_dependent(ck[s], cv[a]); }
	else if (act == "bin") { cbin(op)(cv[a], cv[b], &r); cput(s, r); }
	else if (act == "left" || act == "right") {
		adv_adouble* t = adv_adouble_from_value(x);
		if (act == "left") { cbin(op)(t, cv[b], &r); } else { cbin(op)(cv[a], t, &r); }
		adv_adouble_free(t);
		cput(s, r);
	}
	else if (act == "un") { cun(op)(cv[a], &r); cput(s, r); }
	else { std::abort(); }
}

} // namespace

extern "C" void drv_step(int api, const char* act, int s, int a, int b, const char* op, double x)
{
	if (api == 0) { cxx_step(act, s, a, b, op, x); } else { c_step(act, s, a, b, op, x); }
}
extern "C" double drv_plain(const char* op, double x, double y)
{
	if (is(op, "sin")) { return adv::sin(x); }
	if (is(op, "cos")) { return adv::cos(x); }
	if (is(op, "tan")) { return adv::tan(x); }
	if (is(op, "abs")) { return adv::abs(x); }
	if (is(op, "exp")) { return adv::exp(x); }
	if (is(op, "ln")) { return adv::ln(x); }
	if (is(op, "min")) { return adv::min(x, y); }
	return adv::max(x, y);
}
// calls back with a context in which the value of a variable that belongs to no living recording is the only dependent
extern "C" void drv_observe(int api, int s, void (*seen)())
{
	if (api == 0) {
		AContext c;
		ADouble t = *v[s] * ADouble(1.0);
		c.set_dependent(t);
		seen();
	}
	else {
		adv_acontext* c = adv_acontext_new();
		adv_adouble* one = adv_adouble_from_value(1.0);
		adv_adouble* t;
		adv_op_mul(cv[s], one, &t);
		adv_acontext_set_dependent(c, t);
		seen();
		adv_adouble_free(t);
		adv_adouble_free(one);
		adv_acontext_free(c);
	}
}
extern "C" void drv_end(int api, int order)
{
	for (int round = 0; round < 2; ++round) {
		if ((round == 0) == (order == 0)) {
			for (int i = 0; i < MAX; ++i) { if (api == 0) { v[i].destroy(); } else { cput(i, nullptr); } }
		}
		else {
			for (int i = 0; i < MAX; ++i) { if (api == 0) { k[i].destroy(); } else { ckput(i, nullptr); } }
		}
	}
}

extern "C" int vp_main(int argc, char** argv);
int main(int argc, char** argv) { return vp_main(argc, argv); }

// Entry points over an opaque client of the compressed vector: element operations, allocation, functors and client choices are external functions.
#include "stenos/cvector.hpp"
#include <sstream>
extern "C" {
void* vp_alloc(size_t);                 // may throw
void vp_free(void*, size_t) noexcept;
int vp_choice() noexcept;
size_t vp_size() noexcept;
void vp_use(const void*);               // reads an element, may throw
void vp_modify(void*);                  // modifies an element, may throw
bool vp_visit(const void*);             // reads an element, may throw, may stop the iteration
bool vp_update(void*);                  // modifies an element, may throw, may stop the iteration
void vp_elem_ctor(void*);
void vp_elem_copy(void*, const void*);
void vp_elem_move(void*, void*) noexcept;
void vp_elem_assign(void*, const void*);
void vp_elem_massign(void*, void*) noexcept;
void vp_elem_dtor(void*) noexcept;
}
struct E {
	int* p[3];
	E() { vp_elem_ctor(this); }
	E(const E& o) { vp_elem_copy(this, &o); }
	E(E&& o) noexcept { vp_elem_move(this, &o); }
	E& operator=(const E& o) { vp_elem_assign(this, &o); return *this; }
	E& operator=(E&& o) noexcept { vp_elem_massign(this, &o); return *this; }
	~E() { vp_elem_dtor(this); }
};
namespace stenos { template<> struct is_relocatable<E> : std::true_type {}; }
template<class T> struct A {
	using value_type = T;
	using is_always_equal = std::true_type;
	A() noexcept {}
	template<class U> A(const A<U>&) noexcept {}
	T* allocate(size_t n) { return static_cast<T*>(vp_alloc(n * sizeof(T))); }
	void deallocate(T* p, size_t n) noexcept { vp_free(p, n * sizeof(T)); }
};
template<class T, class U> bool operator==(const A<T>&, const A<U>&) noexcept { return true; }
template<class T, class U> bool operator!=(const A<T>&, const A<U>&) noexcept { return false; }
using V = stenos::cvector<E, 0, 1, A<E>>;
using I = V::iterator;
using CI = V::const_iterator;

#define OP extern "C" void
// ---- operations that several threads may run at the same time on one vector ----
OP c_read(const V& v, size_t i) { auto r = v[i]; vp_use(&r.get()); vp_use(&r.get()); }
OP c_at(const V& v, size_t i) { vp_use(&v.at(i).get()); }
OP c_write(V& v, size_t i, const E& e) { v[i] = e; }
OP c_write_at(V& v, size_t i, E& e) { auto r = v.at(i); r.set(std::move(e)); r.set(static_cast<const E&>(e)); }
OP c_assign(V& v, size_t i, const V& w, size_t j) { v[i] = w[j]; }
OP c_move(V& v, size_t i, V& w, size_t j) { v[i] = w[j]; v[i] = v[j]; }
OP c_swap(V& v, size_t i, size_t j) { auto a = v[i]; auto b = v[j]; a.swap(b); }
OP c_take(V& v, size_t i, E* out) { auto a = v[i]; *out = std::move(a.move()); }
OP c_copyref(V& v, size_t i) { auto a = v[i]; auto b = a; vp_use(&b.get()); auto c = static_cast<const V&>(v)[i]; auto d = c; vp_use(&d.get()); }
OP c_const_for_each(const V& v, size_t a, size_t b) { v.for_each(a, b, [](const E& e) { return vp_visit(&e); }); }
OP c_const_for_each_backward(const V& v, size_t a, size_t b) { v.for_each_backward(a, b, [](const E& e) { return vp_visit(&e); }); }
OP c_for_each(V& v, size_t a, size_t b) { v.for_each(a, b, [](E& e) { return vp_update(&e); }); }
OP c_for_each_backward(V& v, size_t a, size_t b) { v.for_each_backward(a, b, [](E& e) { return vp_update(&e); }); }
OP c_iterate(const V& v) { for (auto& r : v) vp_use(&r.get()); }
// every history of one iterator
OP c_citer(const V& v, size_t i)
{
	CI it = v.begin() + i;
	for (;;) switch (vp_choice()) {
		case 0: ++it; break;
		case 1: --it; break;
		case 2: it += (ptrdiff_t)vp_size(); break;
		case 3: vp_use(&(*it).get()); break;
		case 4: it++; break;
		case 5: vp_use(it.operator->()); break;
		case 6: it = CI(it); break;
		case 7: vp_use(&it[(ptrdiff_t)vp_size()].get()); break;
		case 8: it = it + (ptrdiff_t)vp_size(); break;
		default: return;
	}
}
OP c_iter(V& v, size_t i, const E& e)
{
	I it = v.begin() + i;
	for (;;) switch (vp_choice()) {
		case 0: ++it; break;
		case 1: --it; break;
		case 2: it -= (ptrdiff_t)vp_size(); break;
		case 3: *it = e; break;
		case 4: it--; break;
		case 5: vp_use(&(*it).get()); break;
		case 6: it[(ptrdiff_t)vp_size()] = e; break;
		default: return;
	}
}
OP c_riter(V& v, const E& e)
{
	V::reverse_iterator it = v.rbegin();
	for (;;) switch (vp_choice()) {
		case 0: ++it; break;
		case 1: --it; break;
		case 2: it += (ptrdiff_t)vp_size(); break;
		case 3: *it = e; break;
		case 4: vp_use(&(*it).get()); break;
		default: return;
	}
}
OP c_iter_copy(V& v) { I a = v.begin(), b = v.end(); --b; *a = *b; std::swap(*a, *b); }

// ---- operations that need the vector for themselves ----
OP x_construct(V* o) { V v; new (o) V(std::move(v)); }
OP x_construct_alloc(const A<E>& a) { V v(a); v.push_back(E()); }
OP x_construct_count(V* o, size_t n) { new (o) V(n); }
OP x_construct_value(V* o, size_t n, const E& e) { new (o) V(n, e); }
OP x_construct_copy(V* o, const V& v) { new (o) V(v); }
OP x_construct_move_alloc(V* o, V& v) { new (o) V(std::move(v), A<E>()); }
OP x_construct_range(V* o, const E* b, const E* e) { new (o) V(b, e); }
OP x_destroy(V& v) { v.~V(); }
OP x_copy_assign(V& v, const V& w) { v = w; }
OP x_move_assign(V& v, V& w) { v = std::move(w); }
OP x_swap(V& v, V& w) { v.swap(w); }
OP x_push_back(V& v, const E& e) { v.push_back(e); }
OP x_push_back_move(V& v, E& e) { v.push_back(std::move(e)); }
OP x_emplace_back(V& v) { v.emplace_back(); }
OP x_emplace(V& v, size_t i, const E& e) { v.emplace(v.cbegin() + i, e); }
OP x_insert_range(V& v, size_t i, const E* b, const E* e) { v.insert(v.cbegin() + i, b, e); }
OP x_insert_forward(V& v, size_t i, V& w) { v.insert(v.cbegin() + i, w.cbegin(), w.cend()); }
OP x_pop_back(V& v) { v.pop_back(); }
OP x_erase(V& v, size_t i, size_t j) { v.erase(v.cbegin() + i, v.cbegin() + j); }
OP x_resize(V& v, size_t n) { v.resize(n); }
OP x_resize_value(V& v, size_t n, const E& e) { v.resize(n, e); }
OP x_assign_value(V& v, size_t n, const E& e) { v.assign(n, e); }
OP x_assign_range(V& v, const E* b, const E* e) { v.assign(b, e); }
OP x_clear(V& v) { v.clear(); }
OP x_shrink(V& v) { v.shrink_to_fit(); }
OP x_serialize(V& v, void* d, size_t n) { vp_use((void*)v.serialize(d, n)); }
OP x_deserialize(V& v, const void* s, size_t n) { vp_use((void*)v.deserialize(s, n)); }
OP x_serialize_stream(V& v, std::ostream& o) { vp_use((void*)v.serialize(o)); }
OP x_deserialize_stream(V& v, std::istream& i) { vp_use((void*)v.deserialize(i)); }
OP x_istreambuf(std::istream& s) { stenos::istreambuf_iterator<E> it(s), end; for (; it != end; ++it) { const E& e = *it; vp_use(&e); } }
OP x_stats(const V& v) { vp_use((void*)(size_t)(v.memory_footprint() + v.compression_ratio() + v.current_compression_ratio())); }

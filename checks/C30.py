"""C30: compile witnesses.  Every public member of the compressed vector, of its iterators and reference wrappers is named by a witness function for
each kind of element type; the type checker of two compilers decides, and the instantiated bodies (not only the declarations) are type checked.
Read-only access through const objects and the exception/conversion rules are type-level obligations (static_assert).  The C header is compiled as C,
and each function it declares must have a definition with that (unmangled) name in the library's IR."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import build

PRE = r'''
#include "stenos/cvector.hpp"
#include <memory>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <list>
struct Pod { double d; char c[3]; };
inline bool operator==(const Pod& a, const Pod& b) { return a.d == b.d; }
inline bool operator<(const Pod& a, const Pod& b) { return a.d < b.d; }
struct Obj { int* p; Obj(); explicit Obj(int); Obj(const Obj&); Obj(Obj&&) noexcept; Obj& operator=(const Obj&); Obj& operator=(Obj&&) noexcept; ~Obj(); int get() const; };
bool operator==(const Obj& a, const Obj& b);
bool operator<(const Obj& a, const Obj& b);
namespace stenos { template<> struct is_relocatable<Obj> : std::true_type {}; }
template<class T> struct Alloc { using value_type = T; int id; explicit Alloc(int i = 0) noexcept : id(i) {} template<class U> Alloc(const Alloc<U>& o) noexcept : id(o.id) {}
 T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) noexcept { ::operator delete(p); } };
template<class T, class U> bool operator==(const Alloc<T>& a, const Alloc<U>& b) noexcept { return a.id == b.id; }
template<class T, class U> bool operator!=(const Alloc<T>& a, const Alloc<U>& b) noexcept { return a.id != b.id; }
using Ptr = std::unique_ptr<int>;
'''

# what the witness needs of the element type: any / copy (copy constructible and assignable)
ANY = [
    ("default constructor", "V v; (void)v;"),
    ("allocator constructor", "V v(al); (void)v;"),
    ("move constructor", "V v(std::move(a)); (void)v;"),
    ("move constructor with allocator", "V v(std::move(a), al); (void)v;"),
    ("move assignment", "a = std::move(b);"),
    ("count constructor", "V v(n, al); (void)v;"),
    ("swap", "a.swap(b);"),
    ("size/empty/max_size", "(void)ca.size(); (void)ca.empty(); (void)V::max_size();"),
    ("statistics", "(void)ca.memory_footprint(); (void)ca.compression_ratio(); (void)ca.current_compression_ratio();"),
    ("get_allocator", "(void)a.get_allocator(); (void)ca.get_allocator();"),
    ("shrink_to_fit", "a.shrink_to_fit();"),
    ("resize", "a.resize(n);"),
    ("clear", "a.clear();"),
    ("push_back(T&&)", "a.push_back(std::move(t));"),
    ("emplace_back", "auto r = a.emplace_back(std::move(t)); (void)r;"),
    ("insert(pos, T&&)", "typename V::iterator it = a.insert(a.cbegin(), std::move(t)); (void)it;"),
    ("emplace", "typename V::iterator it = a.emplace(a.cbegin(), std::move(t)); (void)it;"),
    ("insert of moved range", "typename V::iterator it = a.insert(a.cbegin(), std::make_move_iterator(pt), std::make_move_iterator(pt + n)); (void)it;"),
    ("pop_back", "a.pop_back();"),
    ("erase", "typename V::iterator it = a.erase(a.cbegin()); it = a.erase(a.cbegin(), a.cend()); (void)it;"),
    ("erase with iterators", "typename V::iterator it = a.erase(a.begin()); it = a.erase(a.begin(), a.end()); (void)it;"),
    ("assignment of moved range", "a.assign(std::make_move_iterator(pt), std::make_move_iterator(pt + n));"),
    ("element access", "const T& x0 = a.at(n).get(); const T& x1 = ca.at(n).get(); const T& x2 = a[n].get(); const T& x3 = ca[n].get(); (void)x0; (void)x1; (void)x2; (void)x3;"),
    ("front/back", "const T& x0 = a.front().get(); const T& x1 = ca.front().get(); const T& x2 = a.back().get(); const T& x3 = ca.back().get(); (void)x0; (void)x1; (void)x2; (void)x3;"),
    ("element assignment", "a[n] = std::move(t); a.at(n) = std::move(t); a.front() = std::move(t); a.back() = std::move(t); *a.begin() = std::move(t);"),
    ("reference wrapper", "auto r = a[n]; auto r2 = r; r.set(std::move(t)); T&& m = r.move(); (void)m; r = std::move(r2); r.swap(r2); (void)r.bucket_index(); (void)r.bucket_pos(); (void)r.vector_data();"),
    ("reference wrapper assigned from value_type of the iterator", "typename V::iterator::value_type val(std::move(t)); a[n] = std::move(val);"),
    ("value_type of the iterator from reference wrapper", "typename V::iterator::value_type val = std::move(*a.begin()); val = std::move(*a.begin()); (void)val;"),
    ("swap of reference wrappers", "using std::swap; swap(a[n], a[n]); auto r = a[n]; auto s = a[n]; swap(r, s);"),
    ("iterators", "typename V::iterator i = a.begin(), e = a.end(); typename V::const_iterator ci = ca.begin(), ce = ca.end(); ci = a.cbegin(); ce = ca.cend(); ci = i; (void)(ci == e); (void)e; (void)ce;"),
    ("default constructed iterators", "typename V::iterator i; typename V::const_iterator j; i = a.begin(); j = ca.begin(); (void)i; (void)j;"),
    ("iterator arithmetic", "auto i = a.begin(); ++i; i++; --i; i--; i += 1; i -= 1; i = i + 1; i = i - 1; d = a.end() - i; (void)i[d].get(); (void)(i == i); (void)(i != i); (void)(i < i); (void)(i <= i); (void)(i > i); (void)(i >= i);"),
    ("const_iterator arithmetic", "auto i = ca.begin(); ++i; i++; --i; i--; i += 1; i -= 1; i = i + 1; i = i - 1; d = ca.end() - i; (void)i[d].get(); (void)(i == i); (void)(i != i); (void)(i < i); (void)(i <= i); (void)(i > i); (void)(i >= i);"),
    ("iterator dereference", "const T& x = (*a.begin()).get(); const T& y = (*ca.begin()).get(); const T* p = a.begin().operator->(); const T* q = ca.begin().operator->(); (void)x; (void)y; (void)p; (void)q;"),
    ("reverse iterators", "typename V::reverse_iterator i = a.rbegin(), e = a.rend(); typename V::const_reverse_iterator ci = ca.rbegin(), ce = ca.rend(); ci = a.crbegin(); ce = ca.crend(); (void)(i != e); (void)(ci != ce); ++i; i++; --i; i--; i += 1; i -= 1; d = e - i; ++ci; ci--; (void)(*i).get(); (void)(*ci).get(); (void)i.base(); (void)i[0].get();"),
    ("reverse iterator assignment", "*a.rbegin() = std::move(t);"),
    ("range for", "for (auto& r : a) (void)r.get(); for (const auto& r : ca) (void)r.get();"),
    ("for_each", "a.for_each(0, n, [](T& x) { (void)x; }); a.for_each(0, n, [](T& x) { (void)x; return true; }); a.for_each(0, n, [](const T&) {}); auto f = [](T&) {}; a.for_each(0, n, f); const auto g = [](T&) {}; n = a.for_each(0, n, g);"),
    ("const for_each", "ca.for_each(0, n, [](const T& x) { (void)x; }); ca.for_each(0, n, [](const T& x) { (void)x; return true; }); n = a.const_for_each(0, n, [](const T&) {}); n = ca.const_for_each(0, n, [](const T&) { return false; });"),
    ("for_each_backward", "a.for_each_backward(0, n, [](T& x) { (void)x; }); n = a.for_each_backward(0, n, [](T& x) { (void)x; return true; });"),
    ("const for_each_backward", "ca.for_each_backward(0, n, [](const T& x) { (void)x; }); n = a.const_for_each_backward(0, n, [](const T&) { return true; }); n = ca.const_for_each_backward(0, n, [](const T&) {});"),
    ("std::move algorithm", "std::move(a.begin(), a.end(), b.begin()); std::move_backward(a.begin(), a.end(), b.end());"),
    ("std::rotate/reverse/swap_ranges", "std::rotate(a.begin(), a.begin() + 1, a.end()); std::reverse(a.begin(), a.end()); std::swap_ranges(a.begin(), a.end(), b.begin());"),
    ("std::sort with comparator", "std::sort(a.begin(), a.end(), [](const auto& x, const auto& y) { return &x.get() < &y.get(); });"),
    ("const access is read only", """
	using ce = decltype(std::declval<const V&>()[0]); using cat = decltype(std::declval<const V&>().at(0)); using cf = decltype(std::declval<const V&>().front()); using cbk = decltype(std::declval<const V&>().back());
	using cd = decltype(*std::declval<const V&>().begin()); using cd2 = decltype(*std::declval<V&>().cbegin()); using cd3 = decltype(*std::declval<const V&>().rbegin()); using ci = decltype(std::declval<const V&>().begin()[0]);
	static_assert(!std::is_assignable<ce, T>::value && !std::is_assignable<cat, T>::value && !std::is_assignable<cf, T>::value && !std::is_assignable<cbk, T>::value, "const element access must be read only");
	static_assert(!std::is_assignable<cd, T>::value && !std::is_assignable<cd2, T>::value && !std::is_assignable<cd3, T>::value && !std::is_assignable<ci, T>::value, "const iterators must be read only");
	static_assert(!std::is_convertible<ce, T&>::value && !std::is_convertible<cat, T&>::value && !std::is_convertible<cd, T&>::value && !std::is_convertible<cf, T&>::value && !std::is_convertible<cbk, T&>::value, "const element access must not give a mutable reference");
	static_assert(!std::is_constructible<typename V::iterator, typename V::const_iterator>::value, "a const_iterator must not convert to an iterator");
	static_assert(!std::is_constructible<typename V::ref_type, typename V::const_ref_type>::value, "a const reference wrapper must not convert to a mutable one");
	static_assert(std::is_convertible<typename V::iterator, typename V::const_iterator>::value, "an iterator converts to a const_iterator");
	static_assert(!std::is_same<typename V::iterator, typename V::const_iterator>::value, "");"""),
    ("const iteration is read only", """
	ca.for_each(0, n, [](auto&& x) { static_assert(std::is_const<typename std::remove_reference<decltype(x)>::type>::value, "const for_each gives read access only"); });
	ca.const_for_each(0, n, [](auto&& x) { static_assert(std::is_const<typename std::remove_reference<decltype(x)>::type>::value, "const for_each gives read access only"); return true; });
	ca.for_each_backward(0, n, [](auto&& x) { static_assert(std::is_const<typename std::remove_reference<decltype(x)>::type>::value, "const for_each gives read access only"); });
	ca.const_for_each_backward(0, n, [](auto&& x) { static_assert(std::is_const<typename std::remove_reference<decltype(x)>::type>::value, "const for_each gives read access only"); return true; });"""),
    ("mutable iteration gives the element", """
	a.for_each(0, n, [](auto&& x) { static_assert(std::is_same<decltype(x), T&>::value, "for_each gives a reference to the element"); });
	a.for_each(0, n, [](auto&& x) { static_assert(std::is_same<decltype(x), T&>::value, "for_each gives a reference to the element"); return true; });
	a.for_each_backward(0, n, [](auto&& x) { static_assert(std::is_same<decltype(x), T&>::value, "for_each gives a reference to the element"); });
	a.for_each_backward(0, n, [](auto&& x) { static_assert(std::is_same<decltype(x), T&>::value, "for_each gives a reference to the element"); return true; });"""),
    ("non const operations are refused on const objects", """
	static_assert(!std::is_assignable<const V&, V>::value, "");
	static_assert(!CanResize<const V&>::value && CanResize<V&>::value && !CanPush<const V&, T>::value && CanPush<V&, T>::value && !CanErase<const V&>::value && CanErase<V&>::value && !CanClear<const V&>::value && CanClear<V&>::value, "");"""),
    ("nothrow move and destruction", "static_assert(std::is_nothrow_move_constructible<V>::value && std::is_nothrow_destructible<V>::value && std::is_nothrow_default_constructible<V>::value, \"\");"),
    ("reference wrapper ownership", """
	static_assert(!std::is_trivially_copyable<typename V::const_ref_type>::value && !std::is_trivially_copyable<typename V::ref_type>::value, "wrappers own a reference count");
	static_assert(!std::is_trivially_copyable<typename V::iterator>::value && !std::is_trivially_copyable<typename V::const_iterator>::value, "iterators own a reference count");"""),
]
COPY = [
    ("value constructor", "V v(n, t, al); (void)v;"),
    ("copy constructor", "V v(ca); (void)v;"),
    ("copy constructor with allocator", "V v(ca, al); (void)v;"),
    ("range constructor", "V v(pt, pt + n, al); (void)v;"),
    ("range constructor (forward)", "V v(ls.begin(), ls.end()); (void)v;"),
    ("range constructor (cvector)", "V v(ca.begin(), ca.end()); (void)v;"),
    ("initializer list constructor", "V v({ t, t }, al); (void)v;"),
    ("copy assignment", "a = ca;"),
    ("resize with value", "a.resize(n, t);"),
    ("push_back(const T&)", "a.push_back(ct);"),
    ("push_back of an element", "a.push_back(a[n]); a.push_back(ca[n]);"),
    ("emplace_back copy", "a.emplace_back(ct);"),
    ("insert(pos, const T&)", "typename V::iterator it = a.insert(a.cbegin(), ct); it = a.insert(a.begin(), ct); (void)it;"),
    ("insert range", "typename V::iterator it = a.insert(a.cbegin(), pt, pt + n); it = a.insert(a.cbegin(), ls.begin(), ls.end()); (void)it;"),
    ("insert range of cvector", "typename V::iterator it = a.insert(a.cbegin(), cb.begin(), cb.end()); (void)it;"),
    ("insert initializer list", "typename V::iterator it = a.insert(a.cbegin(), { ct, ct }); (void)it;"),
    ("insert(index, count, value)", "a.insert(typename V::size_type(0), n, ct);"),
    ("insert(pos, count, value)", "typename V::iterator it = a.insert(a.cbegin(), n, ct); (void)it;"),
    ("assign", "a.assign(n, ct); a.assign(pt, pt + n); a.assign(ls.begin(), ls.end()); a.assign({ ct, ct });"),
    ("conversion to const T&", "const T& x = a[n]; const T& y = ca[n]; const T& z = *a.begin(); const T& w = *ca.begin(); (void)x; (void)y; (void)z; (void)w;"),
    ("conversion to T", "T x = a[n]; T y = ca[n]; T z = *a.begin(); T w = *ca.rbegin(); (void)x; (void)y; (void)z; (void)w;"),
    ("element copy assignment", "a[n] = ct; a[n] = ca[n]; *a.begin() = *ca.begin(); a.at(n) = b.at(n); *a.rbegin() = ct;"),
    ("assignment between iterators", "auto i = a.begin(); auto j = b.begin(); *i = *j; *i = ct;"),
    ("assignment from value_type of the iterator", "typename V::iterator::value_type val(ct); a[n] = val; val = *ca.begin(); val = ct; (void)val.get();"),
    ("std::copy", "std::copy(a.begin(), a.end(), b.begin()); std::copy(ca.begin(), ca.end(), b.begin()); std::copy(ca.begin(), ca.end(), pt); std::copy(pt, pt + n, a.begin()); std::copy_backward(a.begin(), a.end(), b.end());"),
    ("std::fill", "std::fill(a.begin(), a.end(), ct);"),
    ("comparison of elements", "(void)(a[n] == ca[n]); (void)(a[n] < a[n]); (void)(*a.begin() == *ca.begin());"),
    ("std::equal/std::sort/std::find", "(void)std::equal(a.begin(), a.end(), ca.begin()); std::sort(a.begin(), a.end()); std::stable_sort(a.begin(), a.end());"),
    ("set from const T&", "auto r = a[n]; r.set(ct);"),
]
SER = [
    ("serialize to buffer", "n = a.serialize((void*)buf, n);"),
    ("deserialize from buffer", "n = a.deserialize((const void*)buf, n);"),
    ("serialize to stream", "std::ostringstream o; n = a.serialize(o);"),
    ("deserialize from stream", "std::istringstream i; n = a.deserialize(i);"),
    ("istreambuf_iterator", "std::istringstream s; stenos::istreambuf_iterator<T> i(s), e; stenos::istreambuf_iterator<T> m(std::move(i)); (void)(m == e); (void)(m != e); T x = *m; (void)x; ++m;"),
]
KINDS = [
    ("int", "int", "stenos::cvector<int>", "std::allocator<int>()", ANY + COPY + SER),
    ("int with allocator, large blocks", "int", "stenos::cvector<int, 2, 3, Alloc<int>>", "Alloc<int>()", ANY + COPY + SER),
    ("trivially copyable struct", "Pod", "stenos::cvector<Pod>", "std::allocator<Pod>()", ANY + COPY + SER),
    ("non trivially copyable class", "Obj", "stenos::cvector<Obj, 1>", "std::allocator<Obj>()", ANY + COPY),
    ("move-only class", "Ptr", "stenos::cvector<Ptr>", "std::allocator<Ptr>()", ANY),
]
POST = r'''
template<class...> struct Void { using type = void; };
template<class V, class = void> struct CanResize : std::false_type {}; template<class V> struct CanResize<V, typename Void<decltype(std::declval<V>().resize(1))>::type> : std::true_type {};
template<class V, class T, class = void> struct CanPush : std::false_type {}; template<class V, class T> struct CanPush<V, T, typename Void<decltype(std::declval<V>().push_back(std::declval<T>()))>::type> : std::true_type {};
template<class V, class = void> struct CanErase : std::false_type {}; template<class V> struct CanErase<V, typename Void<decltype(std::declval<V>().erase(std::declval<V>().cbegin()))>::type> : std::true_type {};
template<class V, class = void> struct CanClear : std::false_type {}; template<class V> struct CanClear<V, typename Void<decltype(std::declval<V>().clear())>::type> : std::true_type {};
'''


def tu(kind):
    name, t, v, al, wit = kind
    s = PRE + POST
    if t in ("int", "Pod") and v.endswith("<%s>" % t):
        s += "template class %s;\n" % v       # every non-template member
    lines = {}
    for k, (w, body) in enumerate(wit):
        body = " ".join(body.split())
        s += ("#line %d \"witness\"\nnamespace w%d { using T = %s; using V = %s; void f(V& a, V& b, const V& ca, const V& cb, T& t, const T& ct, T* pt, std::list<int>& li, size_t n, std::ptrdiff_t d, char* buf) "
              "{ const auto al = %s; (void)al; (void)cb; (void)li; (void)buf; (void)pt; (void)ct; (void)d; %s %s } }\n") % (
                  k + 1, k, t, v, al, "std::list<T>& ls = *reinterpret_cast<std::list<T>*>(buf);" if "ls." in body else "", body)
        lines[k + 1] = w
    return s, lines


def run(ctx):
    snap = build.snapshot()
    d = build.tmp()
    jobs = []
    for ki, kind in enumerate(KINDS):
        s, lines = tu(kind)
        p = os.path.join(d, "wit%d.cpp" % ki)
        open(p, "w").write(s)
        for cxx, std in (("clang++-18", "c++14"), ("g++", "c++14"), ("clang++-18", "c++17"), ("g++", "c++20")):
            jobs.append((kind, lines, p, cxx, std))

    def one(j):
        kind, lines, p, cxx, std = j
        lim = ["-ferror-limit=0"] if "clang" in cxx else ["-fmax-errors=0"]
        # code generation is not needed: the instantiated bodies are checked by -fsyntax-only
        r = subprocess.run([cxx, "-std=" + std, "-fsyntax-only", "-w", "-march=haswell", "-I" + snap] + lim + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    nw = 0
    for (kind, lines, p, cxx, std), (rc, out) in zip(jobs, res):
        bad = blame(out, lines) if rc else {}
        if rc and not bad:
            bad = {None: (out.strip().splitlines() or ["?"])[0]}
        for k, w in lines.items():
            nw += 1
            ctx.ob(k not in bad)
        for k, msg in bad.items():
            w = lines.get(k, "header")
            ctx.fail("witness:%s:%s" % (w, kind[0]), "`%s` of a compressed vector of %s does not satisfy its documented interface (%s -std=%s): %s" % (w, kind[0], cxx, std, msg[0] if isinstance(msg, tuple) else msg),
                     msg[1] if isinstance(msg, tuple) else "stenos/cvector.hpp")
        ctx.sample("%s, %s -std=%s: %d witnesses type checked" % (kind[0], cxx, std, len(lines)))
    nc = cheader(ctx, snap, d)
    ctx.level = "other"
    ctx.cov["witnesses"] = nw
    ctx.cov["element_types"] = [k[0] for k in KINDS]
    ctx.cov["c_functions"] = nc
    ctx.explanation = ("compile-time witnesses: one function per public member (or group of members) and element type, whose bodies and all instantiated member bodies are type checked by two compilers in four "
                       "configurations; read-only access through const objects by static assertions on the types of every const access; the C header compiled as C (C99, C11, C17), every declared function "
                       "referenced from C and looked up in the library's IR under its C name")


def blame(out, lines):
    """witness line -> (message, place)"""
    bad = {}
    cur = []
    # a diagnostic is an "error:" line with the notes around it ("required from", "in instantiation of"); the witness is the file "witness" in them
    blocks = []
    for l in out.splitlines():
        if re.search(r"\b(fatal )?error: ", l):
            blocks.append([l])
            blocks[-1][0:0] = [x for x in cur]
            cur = []
        elif "gcc" and re.search(r"(In instantiation of|required from|In file included|required by|In function|In static member|In member function|In substitution)", l) and not re.search(r"note: in ", l):
            cur.append(l)
        elif blocks:
            blocks[-1].append(l)
    for b in blocks:
        err = [l for l in b if re.search(r"\berror: ", l)][0]
        m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", err)
        place = "%s:%s" % (m.group(1)[m.group(1).rfind("stenos/"):] if m and "stenos/" in m.group(1) else "witness", m.group(2)) if m else ""
        ks = [int(x) for l in b for x in re.findall(r"(?:^|[ \s])witness:(\d+)", l)]
        k = ks[0] if ks and ks[0] in lines else None
        bad.setdefault(k, ((m.group(3) if m else err)[:240], place))
    return bad


def cheader(ctx, snap, d):
    h = os.path.join(snap, "stenos", "stenos.h")
    txt = open(h).read()
    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
    txt = re.sub(r"//[^\n]*", " ", txt)
    names = sorted(set(re.findall(r"STENOS_EXPORT\b[^;{(]*?\b(\w+)\s*\(", txt)))
    c = os.path.join(d, "hdr.c")
    open(c, "w").write("#include \"stenos/stenos.h\"\n" + "typedef void (*fn)(void);\nfn table[] = {\n" + "".join("\t(fn)%s,\n" % n for n in names) + "};\nstenos_info info;\n")
    for std in ("c99", "c11", "c17"):
        for cc in ("gcc", "clang-18"):
            r = subprocess.run([cc, "-std=" + std, "-fsyntax-only", "-Werror=implicit-function-declaration", "-I" + snap, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ctx.ob(r.returncode == 0)
            if r.returncode:
                e = [l for l in r.stdout.splitlines() if "error" in l]
                ctx.fail("cheader", "the public header does not compile as C (%s -std=%s): %s" % (cc, std, (e or ["?"])[0][:240]), "stenos/stenos.h")
    m = ctx.mod("haswell", "lib-noinl", passes="")
    for n in names:
        ok = n in m.F and not m.F[n].decl
        ctx.ob(ok)
        if not ok:
            ctx.fail("undefined:" + n, "%s is declared in the public C header but the library does not define it with C linkage" % n, "stenos/stenos.h")
    return len(names)

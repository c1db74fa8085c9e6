// A stand-in for nanobind (which is not available here): enough of its interface
// to compile a binding module, recording what is bound.  Values that cross the
// binding are `object's, as they would be Python objects.
#pragma once
#include <array>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

namespace nanobind {

struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct attribute_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct cast_error : std::runtime_error { cast_error() : std::runtime_error("bad cast") {} };
using python_error = std::runtime_error;
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };

enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };

class object;
struct callable_attr;
using args_t = std::vector<object>;

class object
{
public:
    enum Kind { None, Bool, Int, Real, Str, List, Instance, Function };
    Kind kind = None;
    bool b = false;
    __int128 i = 0;
    double d = 0;
    std::string s;
    std::vector<object> l;
    std::type_index type = typeid(void);
    std::shared_ptr<void> p;
    std::function<object(args_t)> f;

    object attr(const char* name) const;
    template <class... A> object operator()(A&&... a) const;
    bool is_none() const { return kind == None; }
    const char* c_str() const { return s.c_str(); }
    size_t size() const { return l.size(); }
    object operator[](size_t k) const { return l.at(k); }
};
using handle = object;
using str_t = object;

namespace detail {

struct Class
{
    std::string name;
    std::map<std::string, std::function<object(object)>> get;
    std::map<std::string, std::function<void(object, object)>> set;
    std::map<std::string, std::function<object(args_t)>> methods;
    std::vector<std::function<object(args_t)>> ctors;
};
struct Registry
{
    std::string module;
    std::map<std::type_index, Class> classes;
    std::map<std::string, std::type_index> by_name;
    std::map<std::string, std::vector<std::function<object(args_t)>>> functions;
};
inline Registry& registry()
{
    static Registry r;
    return r;
}

template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;

template <class T, class = void> struct Caster
{
    // a bound class
    static object to(const T& v, std::shared_ptr<void> owner = nullptr)
    {
        object o;
        o.kind = object::Instance;
        o.type = typeid(T);
        if (!registry().classes.count(o.type)) throw type_error("type is not bound");
        if (owner) o.p = std::shared_ptr<void>(owner, const_cast<T*>(&v));
        else o.p = std::make_shared<T>(v);
        return o;
    }
    static T& from(const object& o)
    {
        if (o.kind != object::Instance || o.type != std::type_index(typeid(T))) throw type_error("incompatible argument");
        return *static_cast<T*>(o.p.get());
    }
};
template <> struct Caster<bool>
{
    static object to(bool v, std::shared_ptr<void> = nullptr) { object o; o.kind = object::Bool; o.b = v; return o; }
    static bool from(const object& o) { if (o.kind != object::Bool) throw type_error("not a bool"); return o.b; }
};
template <class T> struct Caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
{
    static object to(T v, std::shared_ptr<void> = nullptr) { object o; o.kind = object::Int; o.i = v; return o; }
    static T from(const object& o)
    {
        if (o.kind != object::Int || o.i < (__int128)std::numeric_limits<T>::min() || o.i > (__int128)std::numeric_limits<T>::max())
            throw type_error("incompatible integer");
        return (T)o.i;
    }
};
template <class T> struct Caster<T, std::enable_if_t<std::is_floating_point<T>::value>>
{
    static object to(T v, std::shared_ptr<void> = nullptr) { object o; o.kind = object::Real; o.d = v; return o; }
    static T from(const object& o)
    {
        if (o.kind == object::Int) return (T)o.i;
        if (o.kind != object::Real) throw type_error("not a float");
        return (T)o.d;
    }
};
template <> struct Caster<std::string>
{
    static object to(const std::string& v, std::shared_ptr<void> = nullptr) { object o; o.kind = object::Str; o.s = v; return o; }
    static std::string from(const object& o) { if (o.kind != object::Str) throw type_error("not a str"); return o.s; }
};
template <> struct Caster<const char*>
{
    static object to(const char* v, std::shared_ptr<void> = nullptr) { return Caster<std::string>::to(v); }
    static const char* from(const object& o) { if (o.kind != object::Str) throw type_error("not a str"); return o.s.c_str(); }
};
template <> struct Caster<std::string_view>
{
    static object to(std::string_view v, std::shared_ptr<void> = nullptr) { return Caster<std::string>::to(std::string(v)); }
    static std::string_view from(const object& o) { if (o.kind != object::Str) throw type_error("not a str"); return o.s; }
};
template <> struct Caster<std::filesystem::path>
{
    static object to(const std::filesystem::path& v, std::shared_ptr<void> = nullptr) { return Caster<std::string>::to(v.string()); }
    static std::filesystem::path from(const object& o) { return Caster<std::string>::from(o); }
};
template <class T> struct Caster<std::optional<T>>
{
    static object to(const std::optional<T>& v, std::shared_ptr<void> = nullptr) { return v ? Caster<T>::to(*v) : object(); }
    static std::optional<T> from(const object& o) { if (o.kind == object::None) return std::nullopt; return Caster<T>::from(o); }
};
template <> struct Caster<object>
{
    static object to(const object& v, std::shared_ptr<void> = nullptr) { return v; }
    static object from(const object& o) { return o; }
};
template <class T> struct Caster<std::vector<T>>
{
    static object to(const std::vector<T>& v, std::shared_ptr<void> = nullptr)
    {
        object o;
        o.kind = object::List;
        for (size_t k = 0; k < v.size(); k++) o.l.push_back(Caster<T>::to(v[k]));
        return o;
    }
    static std::vector<T> from(const object& o)
    {
        if (o.kind != object::List) throw type_error("not a list");
        std::vector<T> v;
        for (auto& x : o.l) v.push_back(Caster<T>::from(x));
        return v;
    }
};

// Numbers, strings and lists are copied; so is what is returned by value.  What is
// returned by reference is handed out as it is, where the policy allows it.
inline bool& by_reference() { static thread_local bool r = false; return r; }
template <class T> struct is_bound : std::integral_constant<bool, std::is_class<T>::value> {};
template <class T> struct is_bound<std::vector<T>> : std::false_type {};
template <class T> struct is_bound<std::optional<T>> : std::false_type {};
template <> struct is_bound<std::string> : std::false_type {};
template <> struct is_bound<std::string_view> : std::false_type {};
template <> struct is_bound<std::filesystem::path> : std::false_type {};
template <> struct is_bound<object> : std::false_type {};
template <class R> struct Result
{
    template <class F> static object of(F&& f)
    {
        using D = bare<std::remove_pointer_t<R>>;
        if constexpr (std::is_pointer<R>::value && is_bound<D>::value) {
            auto* p = f();
            if (!p) return object();
            return by_reference() ? Caster<D>::to(*p, std::shared_ptr<void>((void*)p, [](void*) {})) : Caster<D>::to(*p);
        } else if constexpr (std::is_lvalue_reference<R>::value && is_bound<D>::value) {
            R v = f();
            return by_reference() ? Caster<D>::to(v, std::shared_ptr<void>((void*)&v, [](void*) {})) : Caster<D>::to(v);
        } else {
            return Caster<bare<R>>::to(f());
        }
    }
};
template <> struct Result<void>
{
    template <class F> static object of(F&& f) { f(); return object(); }
};

template <class F, class R, class... A, size_t... I>
object invoke(F& f, const args_t& a, std::index_sequence<I...>)
{
    if (a.size() != sizeof...(A)) throw type_error("wrong number of arguments");
    return Result<R>::of([&]() -> R { return f(Caster<bare<A>>::from(a[I])...); });
}
template <class R, class... A, class F> std::function<object(args_t)> erase(F f)
{
    return [f](args_t a) mutable { return invoke<F, R, A...>(f, a, std::index_sequence_for<A...>()); };
}
template <class F, class M> struct Lambda;
template <class F, class C, class R, class... A> struct Lambda<F, R (C::*)(A...) const>
{
    static std::function<object(args_t)> wrap(F f) { return erase<R, A...>(f); }
};
template <class F, class C, class R, class... A> struct Lambda<F, R (C::*)(A...)>
{
    static std::function<object(args_t)> wrap(F f) { return erase<R, A...>(f); }
};
template <class F> std::function<object(args_t)> wrap(F f) { return Lambda<F, decltype(&F::operator())>::wrap(f); }
template <class R, class... A> std::function<object(args_t)> wrap(R (*f)(A...)) { return erase<R, A...>(f); }
template <class C, class R, class... A> std::function<object(args_t)> wrap(R (C::*f)(A...))
{
    return erase<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); });
}
template <class C, class R, class... A> std::function<object(args_t)> wrap(R (C::*f)(A...) const)
{
    return erase<R, const C&, A...>([f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); });
}
#if __cplusplus >= 201703L
template <class R, class... A> std::function<object(args_t)> wrap(R (*f)(A...) noexcept) { return wrap((R(*)(A...))f); }
template <class C, class R, class... A> std::function<object(args_t)> wrap(R (C::*f)(A...) const noexcept)
{
    return wrap((R(C::*)(A...) const)f);
}
#endif

template <class... A> struct Overload
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type = {}) const { return f; }
};

} // namespace detail

template <class... A> constexpr detail::Overload<A...> overload_cast{};
constexpr std::true_type const_{};

template <class T> object cast_to(const T& v) { return detail::Caster<T>::to(v); }
template <class T, std::enable_if_t<!std::is_same<detail::bare<T>, object>::value, int> = 0, class... X> object cast(const T& v, X&&...)
{
    return detail::Caster<T>::to(v);
}
template <size_t N> object cast(const char (&v)[N]) { return detail::Caster<std::string>::to(v); }
template <class T> T cast(const object& o) { return detail::Caster<T>::from(o); }

inline std::string repr(const object& o);
inline object object::attr(const char* name) const
{
    object self = *this, r;
    r.kind = Function;
    std::string n = name;
    if (kind == Instance) {
        auto& c = detail::registry().classes.at(type);
        if (c.get.count(n)) return c.get[n](self);
        if (c.methods.count(n)) {
            r.f = [self, n](args_t a) {
                a.insert(a.begin(), self);
                return detail::registry().classes.at(self.type).methods[n](a);
            };
            return r;
        }
    }
    if (n == "__repr__" || n == "__str__") {
        r.f = [self](args_t) { return detail::Caster<std::string>::to(nanobind::repr(self)); };
        return r;
    }
    throw attribute_error(n);
}
template <class... A> object object::operator()(A&&... a) const
{
    if (kind != Function) throw type_error("not callable");
    return f(args_t{cast_to(detail::bare<A>(a))...});
}
inline std::string repr(const object& o)
{
    switch (o.kind) {
    case object::None: return "None";
    case object::Bool: return o.b ? "True" : "False";
    case object::Int: return std::to_string((long long)o.i);
    case object::Real: return std::to_string(o.d);
    case object::Str: return "'" + o.s + "'";
    case object::List: {
        std::string r = "[";
        for (size_t k = 0; k < o.l.size(); k++) r += (k ? ", " : "") + repr(o.l[k]);
        return r + "]";
    }
    case object::Instance: {
        auto& c = detail::registry().classes.at(o.type);
        if (c.methods.count("__repr__")) return c.methods["__repr__"]({o}).s;
        return "<" + c.name + ">";
    }
    default: return "<function>";
    }
}

template <class... A> struct init {};
struct arg
{
    explicit arg(const char* = "") {}
    template <class T> arg& operator=(T&&) { return *this; }
    arg& none(bool = true) { return *this; }
    arg& noconvert(bool = true) { return *this; }
};
struct kw_only {};
struct is_operator {};
struct is_method {};
struct dynamic_attr {};
struct is_weak_referenceable {};
struct sig { explicit sig(const char*) {} };
template <int A, int B> struct keep_alive {};
template <class... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
struct scope {};
namespace literals {
inline arg operator""_a(const char* s, size_t) { return arg(s); }
}

struct accessor      // something to assign to
{
    template <class T> accessor& operator=(T&&) { return *this; }
};
template <class T> struct exception
{
    template <class... X> exception(const X&...) {}
};

class module_
{
public:
    accessor doc_;
    template <class F, class... X> module_& def(const char* name, F f, const X&...)
    {
        detail::registry().functions[name].push_back(detail::wrap(f));
        return *this;
    }
    accessor& doc() { return doc_; }
    accessor attr(const char*) { return accessor(); }
    module_ def_submodule(const char*, const char* = "") { return *this; }
};

template <class T, class... Bases> class class_
{
    detail::Class& c;
    static std::shared_ptr<void> owner(const object& o) { return o.p; }
    static rv_policy policy_of(rv_policy p) { return p; }
    template <class X, class... Y> static rv_policy policy_of(rv_policy p, const X& x, const Y&... y)
    {
        if constexpr (std::is_same<X, rv_policy>::value) p = x;
        return policy_of(p, y...);
    }
    static bool shares(rv_policy p) { return p == rv_policy::reference || p == rv_policy::reference_internal; }

public:
    template <class... X> class_(module_&, const char* name, const X&...) : c(detail::registry().classes[typeid(T)])
    {
        c.name = name;
        detail::registry().by_name.emplace(name, typeid(T));
    }
    template <class... A, class... X> class_& def(init<A...>, const X&...)
    {
        c.ctors.push_back(detail::erase<T, A...>([](A... a) { return T(std::forward<A>(a)...); }));
        return *this;
    }
    template <class F, class... X> class_& def(const char* name, F f, const X&...)
    {
        c.methods[name] = detail::wrap(f);
        return *this;
    }
    template <class F, class... X> class_& def_static(const char* name, F f, const X&...)
    {
        c.methods[name] = detail::wrap(f);
        return *this;
    }
    template <class M, class D, class... X> class_& def_ro(const char* name, D M::*m, const X&... x)
    {
        const bool share = detail::is_bound<D>::value && shares(policy_of(rv_policy::reference_internal, x...));
        c.get[name] = [m, share](object o) {
            auto& v = detail::Caster<T>::from(o).*m;
            if constexpr (detail::is_bound<D>::value) {
                if (share) return detail::Caster<D>::to(v, owner(o));
            }
            return detail::Caster<D>::to(v);
        };
        c.set.erase(name);
        return *this;
    }
    template <class M, class D, class... X> class_& def_rw(const char* name, D M::*m, const X&... x)
    {
        def_ro(name, m, x...);
        c.set[name] = [m](object o, object v) { detail::Caster<T>::from(o).*m = detail::Caster<D>::from(v); };
        return *this;
    }
    template <class G, class... X> class_& def_prop_ro(const char* name, G g, const X&... x)
    {
        auto w = detail::wrap(g);
        const bool share = shares(policy_of(rv_policy::reference_internal, x...));
        c.get[name] = [w, share](object o) {
            struct Scope { bool old = detail::by_reference(); ~Scope() { detail::by_reference() = old; } } scope;
            detail::by_reference() = share;
            object r = w({o});
            // keep what it refers to
            if (share && r.kind == object::Instance && r.p) r.p = std::shared_ptr<void>(r.p.get(), [a = r.p, b = o.p](void*) {});
            return r;
        };
        c.set.erase(name);
        return *this;
    }
    template <class G, class S, class... X> class_& def_prop_rw(const char* name, G g, S s, const X&... x)
    {
        def_prop_ro(name, g, x...);
        auto w = detail::wrap(s);
        c.set[name] = [w](object o, object v) { w({o, v}); };
        return *this;
    }
};

} // namespace nanobind

#define NB_MODULE(name, m)                                        \
    static void standin_module_##name(nanobind::module_& m);      \
    void standin_init()                                           \
    {                                                             \
        nanobind::module_ m_;                                     \
        nanobind::detail::registry().module = #name;              \
        standin_module_##name(m_);                                \
    }                                                             \
    static void standin_module_##name([[maybe_unused]] nanobind::module_& m)

// Drives the Python binding module (python/pymshio.cpp, compiled against the
// stand-in for nanobind) side by side with the C++ structures it binds.
//   pyexec IN OUT
#include "flat.h"
#include <nanobind/nanobind.h>
#include <mshio/exception.h>

#include <csignal>
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>

void standin_init();
namespace nb = nanobind;
using nb::object;

// ---------------------------------------------------------------------------
// The C++ side: every field of every structure, by its C++ name.

// Values <-> text; this is for structures, the others follow.
template <class T, class = void> struct Text
{
    static void put(flat::Out& o, const T& v);
    static void take(flat::In& w, T& v);
};

template <class T> struct Text<T, std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value>>
{
    static void put(flat::Out& o, T v) { o.i(v); }
    static void take(flat::In& w, T& v) { v = (T)w.i(); }
};
template <class T> struct Text<T, std::enable_if_t<std::is_integral<T>::value && std::is_unsigned<T>::value>>
{
    static void put(flat::Out& o, T v) { o.u(v); }
    static void take(flat::In& w, T& v) { v = (T)w.u(); }
};
template <> struct Text<double>
{
    static void put(flat::Out& o, double v) { o.d(v); }
    static void take(flat::In& w, double& v) { v = w.d(); }
};
template <> struct Text<std::string>
{
    static void put(flat::Out& o, const std::string& v) { o.str(v); }
    static void take(flat::In& w, std::string& v) { v = w.str(); }
};
template <class T> struct Text<std::vector<T>>
{
    static void put(flat::Out& o, const std::vector<T>& v)
    {
        o.u(v.size());
        for (auto& x : v) Text<T>::put(o, x);
    }
    static void take(flat::In& w, std::vector<T>& v)
    {
        v.clear();
        v.resize(w.u());
        for (auto& x : v) Text<T>::take(w, x);
    }
};

// A field of some structure, type-erased.
struct Field
{
    std::function<std::string(void*)> get;
    std::function<void(void*, flat::In&)> set;
    std::function<object(flat::In&)> make;             // a Python value out of text
    std::function<std::string(const object&)> show;    // and back
    std::function<void*(void*)> at;
};
struct Struct
{
    std::vector<std::string> order;
    std::map<std::string, Field> fields;
    std::function<std::string(void*)> dump;
};
static std::map<std::string, Struct> g_structs;
static std::map<std::type_index, std::string> g_name;

// What a Python value looks like, by the values it is made of.
static std::string show(const object& o);
static void show_to(flat::Out& out, const object& o)
{
    switch (o.kind) {
    case object::Int: if (o.i < 0) out.i((long long)o.i); else out.u((size_t)o.i); break;
    case object::Real: out.d(o.d); break;
    case object::Str: out.str(o.s); break;
    case object::List:
        out.u(o.l.size());
        for (auto& x : o.l) show_to(out, x);
        break;
    case object::Instance: out.s += g_structs[g_name.at(o.type)].dump(o.p.get()); break;
    default: out.s += " ?";
    }
}
static std::string show(const object& o)
{
    flat::Out out;
    show_to(out, o);
    return out.s;
}

template <class T, class V> void Text<T, V>::put(flat::Out& o, const T& v)
{
    o.s += g_structs[g_name.at(typeid(T))].dump(const_cast<T*>(&v));
}
template <class T, class V> void Text<T, V>::take(flat::In& w, T& v)
{
    Struct& s = g_structs[g_name.at(typeid(T))];
    for (auto& n : s.order) s.fields[n].set(&v, w);
}

template <class S, class T> void field(const char* cls, const char* name, T S::*m)
{
    Struct& s = g_structs[cls];
    s.order.push_back(name);
    Field f;
    f.get = [m](void* p) {
        flat::Out o;
        Text<T>::put(o, static_cast<S*>(p)->*m);
        return o.s;
    };
    f.set = [m](void* p, flat::In& w) { Text<T>::take(w, static_cast<S*>(p)->*m); };
    f.make = [](flat::In& w) {
        T v{};
        Text<T>::take(w, v);
        return nb::detail::Caster<T>::to(v);
    };
    f.at = [m](void* p) { return (void*)&(static_cast<S*>(p)->*m); };
    s.fields[name] = f;
    g_name.emplace(typeid(S), cls);
    s.dump = [cls](void* p) {
        std::string r;
        for (auto& n : g_structs[cls].order) r += g_structs[cls].fields[n].get(p);
        return r;
    };
}
#define FIELD(C, F) field(#C, #F, &mshio::C::F)
static void describe()
{
    FIELD(MeshFormat, version); FIELD(MeshFormat, file_type); FIELD(MeshFormat, data_size);
    FIELD(NodeBlock, entity_dim); FIELD(NodeBlock, entity_tag); FIELD(NodeBlock, parametric);
    FIELD(NodeBlock, num_nodes_in_block); FIELD(NodeBlock, tags); FIELD(NodeBlock, data);
    FIELD(Nodes, num_entity_blocks); FIELD(Nodes, num_nodes); FIELD(Nodes, min_node_tag); FIELD(Nodes, max_node_tag);
    FIELD(Nodes, entity_blocks);
    FIELD(ElementBlock, entity_dim); FIELD(ElementBlock, entity_tag); FIELD(ElementBlock, element_type);
    FIELD(ElementBlock, num_elements_in_block); FIELD(ElementBlock, data);
    FIELD(Elements, num_entity_blocks); FIELD(Elements, num_elements); FIELD(Elements, min_element_tag);
    FIELD(Elements, max_element_tag); FIELD(Elements, entity_blocks);
    FIELD(DataHeader, string_tags); FIELD(DataHeader, real_tags); FIELD(DataHeader, int_tags);
    FIELD(DataEntry, tag); FIELD(DataEntry, num_nodes_per_element); FIELD(DataEntry, data);
    FIELD(Data, header); FIELD(Data, entries);
    FIELD(PointEntity, tag); FIELD(PointEntity, x); FIELD(PointEntity, y); FIELD(PointEntity, z);
    FIELD(PointEntity, physical_group_tags);
#define BOX(C, B) FIELD(C, tag); FIELD(C, min_x); FIELD(C, min_y); FIELD(C, min_z); FIELD(C, max_x); FIELD(C, max_y); \
    FIELD(C, max_z); FIELD(C, physical_group_tags); FIELD(C, B)
    BOX(CurveEntity, boundary_point_tags); BOX(SurfaceEntity, boundary_curve_tags); BOX(VolumeEntity, boundary_surface_tags);
    FIELD(Entities, points); FIELD(Entities, curves); FIELD(Entities, surfaces); FIELD(Entities, volumes);
    FIELD(PhysicalGroup, dim); FIELD(PhysicalGroup, tag); FIELD(PhysicalGroup, name);
    FIELD(MshSpec, mesh_format); FIELD(MshSpec, nodes); FIELD(MshSpec, elements); FIELD(MshSpec, entities);
    FIELD(MshSpec, physical_groups); FIELD(MshSpec, node_data); FIELD(MshSpec, element_data); FIELD(MshSpec, element_node_data);
}

// ---------------------------------------------------------------------------

template <class F> std::string outcome(F f)
{
    try {
        f();
        return "ok";
    } catch (const mshio::UnsupportedFeature&) {
        return "ex UnsupportedFeature";
    } catch (const mshio::InvalidFormat&) {
        return "ex InvalidFormat";
    } catch (const mshio::CorruptData&) {
        return "ex CorruptData";
    } catch (const nb::attribute_error& e) {
        return std::string("ex AttributeError ") + e.what();
    } catch (const nb::type_error& e) {
        return std::string("ex TypeError ") + e.what();
    } catch (const std::runtime_error&) {
        return "ex runtime_error";
    } catch (const std::exception&) {
        return "ex exception";
    }
}

static std::map<std::string, object> O;

static nb::detail::Class& class_of(const object& o)
{
    return nb::detail::registry().classes.at(o.type);
}
static object pyget(const object& o, const std::string& n)
{
    auto& c = class_of(o);
    if (!c.get.count(n)) throw nb::attribute_error(c.name + "." + n);
    return c.get[n](o);
}
static void pyset(const object& o, const std::string& n, const object& v)
{
    auto& c = class_of(o);
    if (!c.set.count(n)) throw nb::attribute_error(c.name + "." + n + " (to set)");
    c.set[n](o, v);
}
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r(1);
    for (char c : s) {
        if (c == '.') r.emplace_back();
        else r.back() += c;
    }
    return r;
}
static object call(const std::string& f, std::vector<object> a)
{
    auto& m = nb::detail::registry().functions;
    if (!m.count(f)) throw nb::attribute_error(f);
    std::string why = "no such signature";
    for (auto& g : m[f]) {
        try {
            return g(a);
        } catch (const nb::type_error& e) {
            why = e.what();
        }
    }
    throw nb::type_error(why);
}

static FILE* g_out;
static void on_alarm(int)
{
    static const char m[] = "hang\n";
    if (write(fileno(g_out), m, sizeof m - 1) < 0) {}
    _exit(98);
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    describe();
    standin_init();
    std::ifstream in(argv[1]);
    g_out = std::fopen(argv[2], "a");
    if (g_out) std::setvbuf(g_out, nullptr, _IOLBF, 1 << 16);
    if (!in || !g_out) return 2;
    std::ofstream null("/dev/null");
    std::cerr.rdbuf(null.rdbuf());
    std::signal(SIGALRM, on_alarm);
    std::string line;
    while (std::getline(in, line)) {
        const char* p = line.c_str();
        flat::In w(p);
        std::string op = w.word(), r;
        alarm(argc > 3 ? (unsigned)std::atoi(argv[3]) : 20);
        if (op == "case") {
            O.clear();
            r = "case " + w.word();
        } else if (op == "end") {
            r = "end";
        } else if (op == "names") {
            auto& reg = nb::detail::registry();
            r = "names " + reg.module;
            for (auto& x : reg.by_name) r += " " + x.first;
            for (auto& x : reg.functions) r += " " + x.first;
        } else if (op == "new") { // new CLASS ID: Python's constructor
            std::string c = w.word(), id = w.word();
            r = outcome([&] {
                auto& reg = nb::detail::registry();
                auto it = reg.by_name.find(c);
                if (it == reg.by_name.end()) throw nb::attribute_error(c);
                auto& ctors = reg.classes.at(it->second).ctors;
                if (ctors.empty()) throw nb::type_error("no constructor");
                for (auto& k : ctors) {
                    try {
                        O[id] = k({});
                        return;
                    } catch (const nb::type_error&) {
                    }
                }
                throw nb::type_error("no default constructor");
            });
            if (r == "ok" && g_name.at(O[id].type) != c) r = "another class: " + g_name.at(O[id].type);
        } else if (op == "pset" || op == "nset" || op == "pget" || op == "nget") { // ID PATH [VALUE], Python's or C++'s
            std::string id = w.word();
            auto path = split(w.word());
            object o = O[id];
            if (o.kind != object::Instance) {
                r = "none";
            } else {
                void* at = o.p.get();
                std::string cls = g_name.at(o.type);
                r = outcome([&] {
                    for (size_t k = 0; k + 1 < path.size(); k++) {
                        void* q = g_structs[cls].fields.at(path[k]).at(at);
                        if (op[0] == 'p') o = pyget(o, path[k]);
                        at = q;
                        // the class of the member
                        cls = path[k] == "mesh_format" ? "MeshFormat" : path[k] == "nodes" ? "Nodes" : path[k] == "elements" ? "Elements"
                            : path[k] == "entities" ? "Entities" : "DataHeader";
                        if (op[0] == 'p' && (o.kind != object::Instance || g_name.at(o.type) != cls)) throw nb::type_error("not a " + cls);
                    }
                    Field& f = g_structs[cls].fields.at(path.back());
                    if (op == "pset") pyset(o, path.back(), f.make(w));
                    else if (op == "nset") f.set(at, w);
                });
                if (r == "ok" && op == "pget") {
                    std::string v;
                    r = outcome([&] { v = show(pyget(o, path.back())); });
                    if (r == "ok") r = "value" + v;
                } else if (r == "ok" && op == "nget") {
                    r = "value" + g_structs[cls].fields.at(path.back()).get(at);
                }
            }
        } else if (op == "passign") { // passign ID MEMBER ID2: a member replaced by another object
            std::string id = w.word(), m = w.word(), x = w.word();
            r = outcome([&] { pyset(O[id], m, O[x]); });
        } else if (op == "repr") {
            object o = O[w.word()];
            std::string before = show(o);
            r = outcome([&] { (void)o.attr("__repr__")(); });
            if (r == "ok" && show(o) != before) r = "changed";
        } else if (op == "empty") {
            object o = O[w.word()];
            bool e = false;
            r = outcome([&] { e = nb::cast<bool>(o.attr("empty")()); });
            if (r == "ok") r = e ? "value 1" : "value 0";
        } else if (op == "load") { // load FILE ID
            std::string f = w.str(), id = w.word();
            O.erase(id);
            r = outcome([&] { O[id] = call("load_msh", {nb::detail::Caster<std::string>::to(f)}); });
        } else if (op == "save") { // save ID FILE
            object o = O[w.word()];
            std::string f = w.str();
            r = outcome([&] { call("save_msh", {nb::detail::Caster<std::string>::to(f), o}); });
        } else if (op == "val") {
            object o = O[w.word()];
            r = outcome([&] { call("validate_spec", {o}); });
        } else if (op == "npe" || op == "dim") {
            object v;
            int t = (int)w.i();
            r = outcome([&] { v = call(op == "npe" ? "nodes_per_element" : "get_element_dim", {nb::detail::Caster<int>::to(t)}); });
            if (r == "ok") r += show(v);
        } else if (op == "set") { // set ID SPEC: natively
            std::string id = w.word();
            r = outcome([&] { O[id] = nb::detail::Caster<mshio::MshSpec>::to(flat::read(w.p)); });
        } else if (op == "get") { // natively
            object o = O[w.word()];
            r = o.kind == object::Instance ? "spec" + flat::write(*static_cast<mshio::MshSpec*>(o.p.get())) : "none";
        } else if (op == "spill") {
            std::string b = w.str(), f = w.str();
            std::ofstream s(f, std::ios::binary);
            s << b;
            s.close();
            r = s ? "ok" : "missing";
        } else if (op == "slurp") {
            std::ifstream f(w.str(), std::ios::binary);
            r = "bytes " + flat::hex(std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()));
        } else if (op == "unlink") {
            r = ::unlink(w.str().c_str()) == 0 ? "ok" : "missing";
        } else {
            r = "unknown-op " + op;
        }
        alarm(0);
        r += '\n';
        std::fwrite(r.data(), 1, r.size(), g_out);
        if (op == "end") std::fflush(g_out);
    }
    std::fclose(g_out);
    return 0;
}

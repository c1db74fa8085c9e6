// Flat text form of a mesh description, shared by the harness programs.
#pragma once
#include <mshio/mshio.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <istream>
#include <sstream>
#include <string>

namespace flat {

inline std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    if (s.empty()) return "-";
    std::string r;
    r.reserve(s.size() * 2);
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
inline std::string unhex(const std::string& s)
{
    if (s == "-") return "";
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r(s.size() / 2, '\0');
    for (size_t i = 0; i < r.size(); i++) r[i] = (char)(v(s[2 * i]) * 16 + v(s[2 * i + 1]));
    return r;
}

struct Out
{
    std::string s;
    void i(long long v) { s += ' '; s += std::to_string(v); }
    void u(size_t v) { s += ' '; s += std::to_string(v); }
    void str(const std::string& v) { s += ' '; s += hex(v); }
    void d(double v)
    {
        uint64_t b;
        std::memcpy(&b, &v, 8);
        char buf[24];
        std::snprintf(buf, sizeof buf, " %llx", (unsigned long long)b);
        s += buf;
    }
    template <class V> void us(const V& v) { u(v.size()); for (auto x : v) u(x); }
    template <class V> void is(const V& v) { u(v.size()); for (auto x : v) i(x); }
    template <class V> void ds(const V& v) { u(v.size()); for (auto x : v) d(x); }
};

inline void data(Out& o, const std::vector<mshio::Data>& q)
{
    o.u(q.size());
    for (auto& x : q) {
        o.u(x.header.string_tags.size());
        for (auto& t : x.header.string_tags) o.str(t);
        o.ds(x.header.real_tags);
        o.is(x.header.int_tags);
        o.u(x.entries.size());
        for (auto& e : x.entries) {
            o.u(e.tag);
            o.i(e.num_nodes_per_element);
            o.ds(e.data);
        }
    }
}
template <class E> void box(Out& o, const E& e)
{
    o.d(e.min_x); o.d(e.min_y); o.d(e.min_z); o.d(e.max_x); o.d(e.max_y); o.d(e.max_z);
}

inline std::string write(const mshio::MshSpec& s)
{
    Out o;
    o.str(s.mesh_format.version);
    o.i(s.mesh_format.file_type);
    o.i(s.mesh_format.data_size);
    o.u(s.nodes.num_entity_blocks); o.u(s.nodes.num_nodes);
    o.u(s.nodes.min_node_tag); o.u(s.nodes.max_node_tag);
    o.u(s.nodes.entity_blocks.size());
    for (auto& b : s.nodes.entity_blocks) {
        o.i(b.entity_dim); o.i(b.entity_tag); o.i(b.parametric); o.u(b.num_nodes_in_block);
        o.us(b.tags);
        o.ds(b.data);
    }
    o.u(s.elements.num_entity_blocks); o.u(s.elements.num_elements);
    o.u(s.elements.min_element_tag); o.u(s.elements.max_element_tag);
    o.u(s.elements.entity_blocks.size());
    for (auto& b : s.elements.entity_blocks) {
        o.i(b.entity_dim); o.i(b.entity_tag); o.i(b.element_type); o.u(b.num_elements_in_block);
        o.us(b.data);
    }
    o.u(s.entities.points.size());
    for (auto& e : s.entities.points) { o.i(e.tag); o.d(e.x); o.d(e.y); o.d(e.z); o.is(e.physical_group_tags); }
    o.u(s.entities.curves.size());
    for (auto& e : s.entities.curves) { o.i(e.tag); box(o, e); o.is(e.physical_group_tags); o.is(e.boundary_point_tags); }
    o.u(s.entities.surfaces.size());
    for (auto& e : s.entities.surfaces) { o.i(e.tag); box(o, e); o.is(e.physical_group_tags); o.is(e.boundary_curve_tags); }
    o.u(s.entities.volumes.size());
    for (auto& e : s.entities.volumes) { o.i(e.tag); box(o, e); o.is(e.physical_group_tags); o.is(e.boundary_surface_tags); }
    o.u(s.physical_groups.size());
    for (auto& g : s.physical_groups) { o.i(g.dim); o.i(g.tag); o.str(g.name); }
    data(o, s.node_data);
    data(o, s.element_data);
    data(o, s.element_node_data);
    o.str(s.nanospline_format.version);
    o.u(s.curves.size());
    for (auto& c : s.curves) {
        o.u(c.curve_tag); o.u(c.curve_type); o.u(c.curve_degree); o.u(c.num_control_points); o.u(c.num_knots);
        o.u(c.with_weights);
        o.ds(c.data);
    }
    o.u(s.patches.size());
    for (auto& c : s.patches) {
        o.u(c.patch_tag); o.u(c.patch_type); o.u(c.degree_u); o.u(c.degree_v); o.u(c.num_control_points);
        o.u(c.num_u_knots); o.u(c.num_v_knots); o.u(c.with_weights);
        o.ds(c.data);
    }
    return o.s;
}

// Reader: white-space separated words.
struct In
{
    const char* p;
    explicit In(const char* s) : p(s) {}
    void skip() { while (*p == ' ') ++p; }
    long long i() { skip(); char* e; long long v = std::strtoll(p, &e, 10); p = e; return v; }
    size_t u() { skip(); char* e; size_t v = std::strtoull(p, &e, 10); p = e; return v; }
    double d()
    {
        skip();
        char* e;
        uint64_t b = std::strtoull(p, &e, 16);
        p = e;
        double v;
        std::memcpy(&v, &b, 8);
        return v;
    }
    std::string word()
    {
        skip();
        const char* q = p;
        while (*p && *p != ' ') ++p;
        return std::string(q, p);
    }
    std::string str() { return unhex(word()); }
    template <class V> void us(V& v) { v.resize(u()); for (auto& x : v) x = u(); }
    template <class V> void is(V& v) { v.resize(u()); for (auto& x : v) x = (int)i(); }
    template <class V> void ds(V& v) { v.resize(u()); for (auto& x : v) x = d(); }
};

// A program sets what differs from the default, as the README does.
template <class V> void put(V& field, V value, V usual = V())
{
    if (std::memcmp(&value, &usual, sizeof value) != 0) field = value;
}
inline void put(std::string& field, std::string value, std::string usual)
{
    if (value != usual) field = value;
}

inline void data(In& o, std::vector<mshio::Data>& q)
{
    q.resize(o.u());
    for (auto& x : q) {
        x.header.string_tags.resize(o.u());
        for (auto& t : x.header.string_tags) t = o.str();
        o.ds(x.header.real_tags);
        o.is(x.header.int_tags);
        x.entries.resize(o.u());
        for (auto& e : x.entries) {
            put(e.tag, o.u());
            put(e.num_nodes_per_element, (int)o.i());
            o.ds(e.data);
        }
    }
}
template <class E> void box(In& o, E& e)
{
    put(e.min_x, o.d()); put(e.min_y, o.d()); put(e.min_z, o.d()); put(e.max_x, o.d()); put(e.max_y, o.d()); put(e.max_z, o.d());
}

inline mshio::MshSpec read(const char* text)
{
    In o(text);
    mshio::MshSpec s;
    put(s.mesh_format.version, o.str(), std::string("4.1"));
    put(s.mesh_format.file_type, (int)o.i());
    put(s.mesh_format.data_size, (int)o.i(), 8);
    put(s.nodes.num_entity_blocks, o.u()); put(s.nodes.num_nodes, o.u());
    put(s.nodes.min_node_tag, o.u()); put(s.nodes.max_node_tag, o.u());
    s.nodes.entity_blocks.resize(o.u());
    for (auto& b : s.nodes.entity_blocks) {
        put(b.entity_dim, (int)o.i()); put(b.entity_tag, (int)o.i()); put(b.parametric, (int)o.i()); put(b.num_nodes_in_block, o.u());
        o.us(b.tags);
        o.ds(b.data);
    }
    put(s.elements.num_entity_blocks, o.u()); put(s.elements.num_elements, o.u());
    put(s.elements.min_element_tag, o.u()); put(s.elements.max_element_tag, o.u());
    s.elements.entity_blocks.resize(o.u());
    for (auto& b : s.elements.entity_blocks) {
        put(b.entity_dim, (int)o.i()); put(b.entity_tag, (int)o.i()); put(b.element_type, (int)o.i()); put(b.num_elements_in_block, o.u());
        o.us(b.data);
    }
    s.entities.points.resize(o.u());
    for (auto& e : s.entities.points) { put(e.tag, (int)o.i()); put(e.x, o.d()); put(e.y, o.d()); put(e.z, o.d()); o.is(e.physical_group_tags); }
    s.entities.curves.resize(o.u());
    for (auto& e : s.entities.curves) { put(e.tag, (int)o.i()); box(o, e); o.is(e.physical_group_tags); o.is(e.boundary_point_tags); }
    s.entities.surfaces.resize(o.u());
    for (auto& e : s.entities.surfaces) { put(e.tag, (int)o.i()); box(o, e); o.is(e.physical_group_tags); o.is(e.boundary_curve_tags); }
    s.entities.volumes.resize(o.u());
    for (auto& e : s.entities.volumes) { put(e.tag, (int)o.i()); box(o, e); o.is(e.physical_group_tags); o.is(e.boundary_surface_tags); }
    s.physical_groups.resize(o.u());
    for (auto& g : s.physical_groups) { put(g.dim, (int)o.i()); put(g.tag, (int)o.i()); g.name = o.str(); }
    data(o, s.node_data);
    data(o, s.element_data);
    data(o, s.element_node_data);
    s.nanospline_format.version = o.str();
    s.curves.resize(o.u());
    for (auto& c : s.curves) {
        c.curve_tag = o.u(); c.curve_type = o.u(); c.curve_degree = o.u(); c.num_control_points = o.u();
        c.num_knots = o.u(); c.with_weights = o.u();
        o.ds(c.data);
    }
    s.patches.resize(o.u());
    for (auto& c : s.patches) {
        c.patch_tag = o.u(); c.patch_type = o.u(); c.degree_u = o.u(); c.degree_v = o.u(); c.num_control_points = o.u();
        c.num_u_knots = o.u(); c.num_v_knots = o.u(); c.with_weights = o.u();
        o.ds(c.data);
    }
    return s;
}

} // namespace flat

// k-d tree of the core behind a C interface
#include <cstring>
#include <pyclustering/container/kdtree.hpp>
#include <pyclustering/container/kdtree_searcher.hpp>

using namespace pyclustering::container;
using pyclustering::dataset;
using pyclustering::point;

struct handle { kdtree tree; std::size_t dim; };

static void * pay(long p) { return (void *) p; }

static void dump(const kdnode::ptr & n, const kdnode::ptr & parent, std::size_t dim, double *& out) {
    // discriminator, payload, parent is right, coordinates, left, right; -1 for no node
    if (!n) { *out++ = -1.0; return; }
    *out++ = (double) n->get_discriminator();
    *out++ = (double) (long) n->get_payload();
    *out++ = (n->get_parent() == parent) ? 1.0 : 0.0;
    *out++ = (double) n->get_data().size();
    for (auto x : n->get_data()) { *out++ = x; }
    dump(n->get_left(), n, dim, out);
    dump(n->get_right(), n, dim, out);
}

static std::size_t put(const kdnode::ptr & n, double * out) {
    if (!n) { return 0; }
    *out = (double) (long) n->get_payload();
    std::memcpy(out + 1, n->get_data().data(), n->get_data().size() * sizeof(double));
    return 1;
}

extern "C" {

handle * kd_new(long n, long dim, const double * data, const long * payloads) {
    dataset points;
    std::vector<void *> p;
    for (long i = 0; i < n; i++) {
        points.emplace_back(data + i * dim, data + (i + 1) * dim);
        if (payloads) { p.push_back(pay(payloads[i])); }
    }
    if (n == 0) { return new handle{ kdtree(), (std::size_t) dim }; }
    return new handle{ kdtree(points, p), (std::size_t) dim };
}

void kd_free(handle * h) { delete h; }

long kd_size(handle * h) { return (long) h->tree.get_size(); }

long kd_insert(handle * h, const double * p, long payload, double * out) {
    return put(h->tree.insert(point(p, p + h->dim), pay(payload)), out);
}

void kd_remove(handle * h, const double * p) { h->tree.remove(point(p, p + h->dim)); }

void kd_remove_payload(handle * h, const double * p, long payload) { h->tree.remove(point(p, p + h->dim), pay(payload)); }

long kd_find(handle * h, const double * p, double * out) { return put(h->tree.find_node(point(p, p + h->dim)), out); }

long kd_find_payload(handle * h, const double * p, long payload, double * out) {
    return put(h->tree.find_node(point(p, p + h->dim), pay(payload)), out);
}

long kd_dump(handle * h, double * out) {
    double * cur = out;
    dump(h->tree.get_root(), nullptr, h->dim, cur);
    return cur - out;
}

// how 0: find_nearest_nodes, 1: find_nearest with a rule, 2: find_nearest_node; distance, payload, coordinates each
long kd_search(handle * h, const double * p, double radius, long how, double * out) {
    const kdtree_searcher s(point(p, p + h->dim), h->tree.get_root(), radius);
    long n = 0;
    auto store = [&](const kdnode::ptr & node, double distance) { *out = distance; put(node, out + 1); out += 2 + h->dim; n++; };
    if (how == 0) {
        std::vector<double> d;
        std::vector<kdnode::ptr> nodes;
        s.find_nearest_nodes(d, nodes);
        if (d.size() != nodes.size()) { return -1; }
        for (std::size_t i = 0; i < d.size(); i++) { store(nodes[i], d[i]); }
    }
    else if (how == 1) {
        s.find_nearest([&](const kdnode::ptr node, const double distance) { store(node, distance); });
    }
    else {
        auto node = s.find_nearest_node();
        if (node) { store(node, -1.0); }
    }
    return n;
}

}

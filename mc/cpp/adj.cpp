// Operation sequences of the adjacency collections against a matrix of weights, and the structures of the connectors.
#include <pyclustering/container/adjacency_bit_matrix.hpp>
#include <pyclustering/container/adjacency_connector.hpp>
#include <pyclustering/container/adjacency_factory.hpp>
#include <pyclustering/container/adjacency_list.hpp>
#include <pyclustering/container/adjacency_matrix.hpp>
#include <pyclustering/container/adjacency_weight_list.hpp>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>

using namespace pyclustering::container;

static std::string history;
static long states = 0, transitions = 0;

[[noreturn]] static void fail(const std::string & m) {
    std::printf("FAILED %s; after: %s\n", m.c_str(), history.c_str());
    std::fflush(stdout);
    std::exit(10);
}

using model = std::map<std::pair<std::size_t, std::size_t>, double>;

static void compare(const adjacency_collection & c, const model & m, const std::size_t n, const std::vector<std::size_t> & nodes) {
    states++;
    if (c.size() != n) { fail("size() is " + std::to_string(c.size())); }
    const auto * weighted = dynamic_cast<const adjacency_weight_collection *>(&c);
    for (std::size_t i : nodes) {
        std::vector<std::size_t> expected, neighbors(3, 7);
        for (std::size_t j : nodes) {
            auto it = m.find({ i, j });
            const bool there = it != m.end();
            if (c.has_connection(i, j) != there) { fail("has_connection(" + std::to_string(i) + ", " + std::to_string(j) + ") is " + (there ? "false" : "true")); }
            if (weighted && weighted->get_connection_weight(i, j) != (there ? it->second : 0.0)) {
                fail("the weight of (" + std::to_string(i) + ", " + std::to_string(j) + ") is " + std::to_string(weighted->get_connection_weight(i, j)));
            }
            if (there) { expected.push_back(j); }
        }
        c.get_neighbors(i, neighbors);
        std::sort(neighbors.begin(), neighbors.end());
        if (neighbors != expected) { fail("the neighbors of " + std::to_string(i) + " are wrong (" + std::to_string(neighbors.size()) + " of them)"); }
    }
}

struct operation { char code; std::size_t i, j; double w; };

static std::string name(const operation & o) {
    switch (o.code) {
    case 's': return "set(" + std::to_string(o.i) + "," + std::to_string(o.j) + ") ";
    case 'e': return "erase(" + std::to_string(o.i) + "," + std::to_string(o.j) + ") ";
    case 'w': return "weight(" + std::to_string(o.i) + "," + std::to_string(o.j) + "," + std::to_string(o.w) + ") ";
    case 'c': return "copy ";
    case 'a': return "assign ";
    case 'm': return "move ";
    case 'v': return "move-assign ";
    case 'x': return "clear ";
    default: return "refuse(" + std::to_string(o.i) + "," + std::to_string(o.j) + ") ";
    }
}

template <class T>
static void refuse(T & c, const operation & o) {
    for (int k = 0; k < 2; k++) {
        try {
            if (k) { c.set_connection(o.i, o.j); } else { c.erase_connection(o.i, o.j); }
        }
        catch (std::out_of_range &) { continue; }
        fail("a connection of a node that does not exist has been accepted");
    }
}

template <class T>
static void explore(const T & before, const model & known, std::size_t n, const std::vector<std::size_t> & nodes, const std::vector<operation> & ops, int depth) {
    for (const operation & o : ops) {
        const std::size_t mark = history.size();
        history += name(o);
        transitions++;
        T object(before);
        model m = known;
        auto * weighted = dynamic_cast<adjacency_weight_collection *>(&object);
        switch (o.code) {
        case 's': object.set_connection(o.i, o.j); m[{ o.i, o.j }] = 1.0; break;
        case 'e': object.erase_connection(o.i, o.j); m.erase({ o.i, o.j }); break;
        case 'w': weighted->set_connection_weight(o.i, o.j, o.w); if (o.w != 0.0) { m[{ o.i, o.j }] = o.w; } else { m.erase({ o.i, o.j }); } break;
        case 'r': refuse(object, o); break;
        case 'x': object.clear(); if (object.size() != 0) { fail("clear() leaves nodes"); } history.resize(mark); continue;
        case 'c': case 'a': case 'm': case 'v': {
            T other(n + 1);
            other.set_connection(0, n);
            other.set_connection(n, 0);
            if (o.code == 'c') { T copy(object); object.set_connection(nodes[0], nodes[1]); object.erase_connection(nodes[1], nodes[0]); compare(copy, m, n, nodes); T back(copy); object = back; }
            else if (o.code == 'a') { other = object; compare(other, m, n, nodes); object.set_connection(nodes[0], nodes[1]); object.erase_connection(nodes[1], nodes[0]); compare(other, m, n, nodes); object = other; const T & same = object; object = same; }
            else if (o.code == 'm') { T moved(std::move(object)); compare(moved, m, n, nodes); object = moved; }
            else { other = std::move(object); compare(other, m, n, nodes); object = other; }
            break;
        }
        }
        compare(object, m, n, nodes);
        if (depth > 1) { explore(object, m, n, nodes, ops, depth - 1); }
        history.resize(mark);
    }
}

template <class T>
static void sequences(std::size_t n, const std::vector<std::size_t> & nodes, int depth, bool weights, bool bits, long part, long parts) {
    std::vector<operation> ops;
    for (std::size_t i : nodes) {
        for (std::size_t j : nodes) {
            ops.push_back({ 's', i, j, 0 });
            ops.push_back({ 'e', i, j, 0 });
            if (weights) { for (double w : { 2.0, -1.5, 0.0, 1.0 }) { ops.push_back({ 'w', i, j, w }); } }
        }
    }
    for (char c : std::string("camvx")) { ops.push_back({ c, 0, 0, 0 }); }
    if (bits) {
        for (std::size_t bad : { n, n + 1, n + 64, n * 64 + 1, (std::size_t) -1 }) {
            ops.push_back({ 'r', bad, 0, 0 });
            ops.push_back({ 'r', 0, bad, 0 });
        }
    }
    T start(n);
    compare(start, model(), n, nodes);
    for (std::size_t k = 0; k < ops.size(); k++) {
        if ((long) k % parts != part) { continue; }
        // the first operation is fixed here, the rest is explored
        history.clear();
        model m;
        T object(start);
        const operation & o = ops[k];
        if (o.code == 's' || o.code == 'e' || (o.code == 'w')) {
            history = name(o);
            transitions++;
            if (o.code == 's') { object.set_connection(o.i, o.j); m[{ o.i, o.j }] = 1.0; }
            else if (o.code == 'e') { object.erase_connection(o.i, o.j); }
            else {
                dynamic_cast<adjacency_weight_collection *>(static_cast<adjacency_collection *>(&object))->set_connection_weight(o.i, o.j, o.w);
                if (o.w != 0.0) { m[{ o.i, o.j }] = o.w; }
            }
            compare(object, m, n, nodes);
            explore(object, m, n, nodes, ops, depth - 1);
        }
        else {
            explore(object, m, n, nodes, { o }, 1);
        }
    }
}

static bool adjacent(connection_t type, std::size_t w, std::size_t a, std::size_t b, std::size_t n) {
    if (a == b) { return false; }
    if (type == connection_t::CONNECTION_ALL_TO_ALL) { return true; }
    if (type == connection_t::CONNECTION_NONE) { return false; }
    if (type == connection_t::CONNECTION_LIST_BIDIRECTIONAL) { return a + 1 == b || b + 1 == a; }
    const long r1 = a / w, c1 = a % w, r2 = b / w, c2 = b % w;
    const long dr = std::labs(r1 - r2), dc = std::labs(c1 - c2);
    (void) n;
    return type == connection_t::CONNECTION_GRID_FOUR ? dr + dc == 1 : dr <= 1 && dc <= 1;
}

static const connection_t TYPES[] = { connection_t::CONNECTION_NONE, connection_t::CONNECTION_ALL_TO_ALL, connection_t::CONNECTION_GRID_FOUR,
                                      connection_t::CONNECTION_GRID_EIGHT, connection_t::CONNECTION_LIST_BIDIRECTIONAL };

static std::shared_ptr<adjacency_collection> make(int kind, std::size_t n) {
    if (kind == 0) { return std::make_shared<adjacency_list>(n); }
    if (kind == 1) { return std::make_shared<adjacency_matrix>(n); }
    if (kind == 2) { return std::make_shared<adjacency_bit_matrix>(n); }
    return std::make_shared<adjacency_weight_list>(n);
}

static void check_structure(const adjacency_collection & c, connection_t type, std::size_t w, std::size_t n, const std::set<double> * values) {
    model m;
    std::vector<std::size_t> nodes;
    std::set<double> used;
    const auto * weighted = dynamic_cast<const adjacency_weight_collection *>(&c);
    for (std::size_t i = 0; i < n; i++) {
        nodes.push_back(i);
        for (std::size_t j = 0; j < n; j++) {
            if (!adjacent(type, w, i, j, n)) { continue; }
            double v = 1.0;
            if (values) {
                v = weighted->get_connection_weight(i, j);
                if (!values->count(v)) { fail("the weight " + std::to_string(v) + " of a connection has not been generated"); }
                if (!used.insert(v).second) { fail("a generated weight is used for two connections"); }
            }
            m[{ i, j }] = v;
        }
    }
    compare(c, m, n, nodes);
}

static std::set<double> generated;
static double generate() { const double v = 2.0 + 0.5 * (double) generated.size(); generated.insert(v); return v; }

static void structures(std::size_t limit) {
    for (std::size_t n = 0; n <= limit; n++) {
        std::size_t root = 0;
        while (root * root < n) { root++; }
        for (connection_t type : TYPES) {
            const bool grid = type == connection_t::CONNECTION_GRID_FOUR || type == connection_t::CONNECTION_GRID_EIGHT;
            for (int kind = 0; kind < 4; kind++) {
                for (int dirty = 0; dirty < 2; dirty++) {
                    history = "structure " + std::to_string((int) type) + " of " + std::to_string(n) + " nodes, storage " + std::to_string(kind) + (dirty ? ", used before" : "");
                    transitions++;
                    auto c = make(kind, n);
                    if (dirty && n) { c->set_connection(0, n - 1); c->set_connection(n - 1, 0); c->set_connection(0, 0); }
                    adjacency_connector<adjacency_collection> connector;
                    bool refused = false;
                    try { connector.create_structure(type, *c); } catch (std::exception &) { refused = true; }
                    if (refused != (grid && root * root != n)) { fail(refused ? "refused" : "a grid that is not a square is accepted"); }
                    if (!refused) { check_structure(*c, type, root, n, nullptr); }
                }
            }
            for (int kind = 0; kind < 3; kind++) {
                if (grid && root * root != n) { continue; }
                history = "unweighted factory " + std::to_string((int) type) + " of " + std::to_string(n) + " nodes, storage " + std::to_string(kind);
                transitions++;
                check_structure(*adjacency_unweight_factory::create_collection(n, (adjacency_unweight_t) kind, type), type, root, n, nullptr);
                if (kind < 2) {
                    history = "weighted factory " + std::to_string((int) type) + " of " + std::to_string(n) + " nodes, storage " + std::to_string(kind);
                    check_structure(*adjacency_weight_factory::create_collection(n, (adjacency_weight_t) kind, type), type, root, n, nullptr);
                    history += " with weights";
                    generated.clear();
                    auto weighted = adjacency_weight_factory::create_collection(n, (adjacency_weight_t) kind, type, generate);
                    check_structure(*weighted, type, root, n, &generated);
                }
            }
        }
    }
    for (std::size_t w = 0; w <= 8; w++) {
        for (std::size_t h = 0; h <= 8; h++) {
            for (std::size_t n : { w * h, w * h + 1, w * h - 1 }) {
                if (n > 70) { continue; }
                for (int type = 0; type < 5; type++) {
                    for (int kind = 0; kind < 4; kind++) {
                        history = "grid " + std::to_string(type) + " " + std::to_string(w) + " x " + std::to_string(h) + " of " + std::to_string(n) + " nodes, storage " + std::to_string(kind);
                        transitions++;
                        auto c = make(kind, n);
                        if (n) { c->set_connection(0, n - 1); c->set_connection(n - 1, 0); }
                        adjacency_connector<adjacency_collection> connector;
                        bool refused = false;
                        try { connector.create_grid_structure(TYPES[type], w, h, *c); } catch (std::exception &) { refused = true; }
                        if (refused != (n != w * h || (type != 2 && type != 3))) { fail(refused ? "refused" : "accepted"); }
                        if (!refused) { check_structure(*c, TYPES[type], w, n, nullptr); }
                    }
                }
            }
        }
    }
}

int main(int argc, char ** argv) {
    const std::string what = argv[1];
    auto num = [&](int i) { return i < argc ? std::atol(argv[i]) : 0L; };
    if (what == "structures") { structures((std::size_t) num(2)); }
    else {
        const int kind = (int) num(2), depth = (int) num(4);
        const std::size_t n = (std::size_t) num(3);
        const long part = num(5), parts = num(6);
        std::vector<std::size_t> nodes;
        if (n <= 4) { for (std::size_t i = 0; i < n; i++) { nodes.push_back(i); } }
        else { for (std::size_t i : { (std::size_t) 0, (std::size_t) 31, (std::size_t) 32, (std::size_t) 63, (std::size_t) 64, n - 1 }) { if (i < n) { nodes.push_back(i); } } nodes.erase(std::unique(nodes.begin(), nodes.end()), nodes.end()); }
        if (kind == 0) { sequences<adjacency_list>(n, nodes, depth, false, false, part, parts); }
        else if (kind == 1) { sequences<adjacency_matrix>(n, nodes, depth, true, false, part, parts); }
        else if (kind == 2) { sequences<adjacency_bit_matrix>(n, nodes, depth, false, true, part, parts); }
        else { sequences<adjacency_weight_list>(n, nodes, depth, true, false, part, parts); }
    }
    std::printf("EXPLORED states=%ld transitions=%ld\n", states, transitions);
    return 0;
}

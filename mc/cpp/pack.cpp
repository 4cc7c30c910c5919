// Echo of packages through the containers of the core. See c26.py.
#include <pyclustering/interface/pyclustering_package.hpp>
#include <list>
#include <string>
#include <vector>

template <class T>
static pyclustering_package * flat(const pyclustering_package * p) {
    std::vector<T> v;
    p->extract(v);
    return create_package(&v);
}

template <class T>
static pyclustering_package * nested(const pyclustering_package * p, int how) {
    std::vector<std::vector<T>> v;
    p->extract(v);
    if (how == 0) { return create_package(&v); }
    if (how == 1) {
        std::vector<std::vector<T> *> pointers;
        for (auto & row : v) { pointers.push_back(&row); }
        return create_package(&pointers);
    }
    pyclustering_package * out = create_package_container(v.size());
    for (std::size_t i = 0; i < v.size(); i++) {
        pyclustering_package * row = nullptr;
        if (how == 2) { row = create_package(&v[i]); }
        else if (how == 4) { std::list<T> l(v[i].begin(), v[i].end()); row = create_package(&l); }
        else {                          // element by element
            row = create_package<T>(v[i].size(), T());
            for (std::size_t j = 0; j < v[i].size(); j++) { row->template at<T>(j) = p->at<T>(i, j); }
        }
        static_cast<pyclustering_package **>(out->data)[i] = row;
    }
    return out;
}

extern "C" pyclustering_package * echo(const pyclustering_package * p, int type, int how) {
    switch (type * 10 + how) {
        case 0: return flat<int>(p);
        case 10: return flat<unsigned int>(p);
        case 20: return flat<float>(p);
        case 30: return flat<double>(p);
        case 40: return flat<long>(p);
        case 70: return flat<std::size_t>(p);
        default: break;
    }
    switch (type) {
        case 0: return nested<int>(p, how - 1);
        case 1: return nested<unsigned int>(p, how - 1);
        case 2: return nested<float>(p, how - 1);
        case 3: return nested<double>(p, how - 1);
        case 4: return nested<long>(p, how - 1);
        case 7: return nested<std::size_t>(p, how - 1);
        default: return nullptr;
    }
}

extern "C" pyclustering_package * echo_text(const char * s, int how) {
    if (how == 0) { return create_package(s); }
    std::string text(s);
    return create_package(text);
}

extern "C" pyclustering_package * repeat_value(unsigned long n, double x, unsigned long k, int what) {
    if (what == 0) { return create_package<double>(n, x); }
    return create_package<std::size_t>(n, k);
}

// index beyond the size is refused: 1 if so
extern "C" int refuses(const pyclustering_package * p, unsigned long row, unsigned long column, int two) {
    try {
        if (two) { (void) p->at<double>(row, column); } else { (void) p->at<double>(row); }
    } catch (const std::out_of_range &) { return 1; }
    return 0;
}

extern "C" void release(pyclustering_package * p) { delete p; }

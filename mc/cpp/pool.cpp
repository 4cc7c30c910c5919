// Scenarios of the thread pool, the spinlock and the parallel loops; see c25.py for the grammar.
#include <pyclustering/parallel/parallel.hpp>
#include <pyclustering/parallel/spinlock.hpp>
#include <pyclustering/parallel/thread_pool.hpp>

#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>

#include "sched.hpp"

using namespace pyclustering::parallel;

#define UNSEEN __attribute__((no_sanitize("thread"), noinline))

static const int MAX_TASKS = 16;

struct shared {
    int runs[MAX_TASKS];            // written by the bodies, read by the clients after a wait: has to be synchronized
    int watched[MAX_TASKS];         // the same for the checks of the harness only
    bool added[MAX_TASKS];
    bool open;
};

static shared * S;
static int given;

UNSEEN static void watch(int k) { S->watched[k]++; }
UNSEEN static int unfinished(int n) { int r = 0; for (int i = 0; i < n; i++) { r += S->added[i] && S->watched[i] == 0; } return r; }
UNSEEN static void added(int k) { S->added[k] = true; }
UNSEEN static void open_gate() { S->open = true; }
UNSEEN static bool gate() { return S->open; }
UNSEEN static void reset() { std::memset(S, 0, sizeof(*S)); given = 0; }
UNSEEN static int next_task() { return given++; }
UNSEEN static int given_tasks() { return given; }
UNSEEN static void refused(int k) { S->watched[k] = 1; }
UNSEEN static int watched(int k) { return S->watched[k]; }

static task::proc body(int k, bool gated) {
    return [k, gated]() {
        if (gated) { mc::wait_until([]() { return gate(); }); }
        S->runs[k]++;
        watch(k);
    };
}

static void wait_task(const task::ptr & t, int k) {
    t->wait_ready();
    mc::check(S->runs[k] != 0, "wait_ready() returned before the task has run");
    mc::check(S->runs[k] == 1, "a task has been executed twice");
}

// a add, f add if free, g add a gated task, h the same if free, n add a task that adds another one, o open the gate,
// w wait for the last task, v wait for the first one, t another thread waits for the last task, s the same for the first one,
// u another thread adds a task and waits for it (pool is not destroyed meanwhile), j join these threads; at the end the pool
// is destroyed and the threads are joined.
static void pool_scenario(int size, const std::string & program) {
    reset();
    std::vector<task::ptr> tasks;
    std::vector<int> ids;
    std::vector<std::thread> others;
    int limit = size == 0 ? (int) thread_pool::DEFAULT_POOL_SIZE : size;
    {
        thread_pool * pool = size == 0 ? new thread_pool() : new thread_pool((std::size_t) size);
        mc::check((int) pool->size() == limit, "the pool does not have the size that was asked for");
        for (char op : program) {
            switch (op) {
            case 'a': case 'g': {
                int k = next_task();
                tasks.push_back(pool->add_task(body(k, op == 'g')));
                ids.push_back(k);
                added(k);
                mc::check(tasks.back() != nullptr, "add_task() returned nothing");
                break;
            }
            case 'n': {
                int k = next_task(), m = next_task();
                tasks.push_back(pool->add_task([k, m, pool]() {
                    pool->add_task(body(m, false));
                    S->runs[k]++;
                    watch(k);
                }));
                ids.push_back(k);
                added(k);
                break;
            }
            case 'f': case 'h': {
                int before = given_tasks();
                int k = next_task();
                task::ptr t = pool->add_task_if_free(body(k, op == 'h'));
                if (t) {
                    mc::check(unfinished(before) < limit, "add_task_if_free() accepted a task although all the workers have work");
                    tasks.push_back(t);
                    ids.push_back(k);
                    added(k);
                }
                else {
                    mc::check(before >= limit, "add_task_if_free() refused a task of a pool which has more workers than it ever got tasks");
                    refused(k);
                }
                break;
            }
            case 'o': open_gate(); break;
            case 'w': if (!tasks.empty()) { wait_task(tasks.back(), ids.back()); } break;
            case 'v': if (!tasks.empty()) { wait_task(tasks.front(), ids.front()); } break;
            case 't': case 's': {
                if (tasks.empty()) { break; }
                task::ptr t = op == 't' ? tasks.back() : tasks.front();
                int k = op == 't' ? ids.back() : ids.front();
                others.emplace_back([t, k]() { wait_task(t, k); });
                break;
            }
            case 'u': {
                int k = next_task();
                others.emplace_back([pool, k]() {
                    task::ptr t = pool->add_task(body(k, false));
                    added(k);
                    wait_task(t, k);
                });
                break;
            }
            case 'j': for (auto & o : others) { o.join(); } others.clear(); break;
            default: mc::fail("harness: unknown operation");
            }
        }
        open_gate();
        delete pool;
    }
    long mask = 0;
    for (int k = 0; k < given_tasks(); k++) {
        mc::check(watched(k) != 0, "a task of a destroyed pool has never been executed");
        mc::check(watched(k) == 1, "a task has been executed twice");
        mask = mask * 3 + watched(k);
    }
    for (auto & o : others) { o.join(); }
    mc::outcome(mask * 16 + (long) tasks.size());
}

// l: lock, r: try_lock until it succeeds, y: one attempt
static void spin_scenario(int threads, const std::string & program) {
    reset();
    spinlock lock;
    int counter = 0, inside = 0, expected = 0;
    auto work = [&](bool) {
        for (char op : program) {
            if (op == 'y') {
                if (!lock.try_lock()) { continue; }
            }
            else if (op == 'r') {
                while (!lock.try_lock()) { std::this_thread::yield(); }
            }
            else {
                lock.lock();
            }
            mc::check(inside == 0, "two threads are inside of the spinlock");
            inside = 1;
            int value = counter;
            mc::point();
            counter = value + 1;
            expected++;
            inside = 0;
            lock.unlock();
        }
    };
    std::vector<std::thread> others;
    for (int i = 1; i < threads; i++) { others.emplace_back(work, true); }
    work(false);
    for (auto & o : others) { o.join(); }
    mc::check(lock.try_lock(), "the spinlock is not free after all the threads have released it");
    mc::check(!lock.try_lock(), "the spinlock has been taken twice");
    mc::check(counter == expected, "an update under the spinlock is lost");
    mc::check(program.find('y') != std::string::npos || counter == threads * (int) program.size(), "an update under the spinlock is lost");
    mc::outcome(counter);
}

template <typename T>
static void for_scenario(T start, T end, T step, int threads, int form) {
    reset();
    const int size = (int) (end - start) + 3 * (int) step + 8;
    std::vector<int> runs(size, 0);
    const T base = start;
    bool invalid = false;
    auto action = [&runs, base, size, &invalid](const T i) {
        const long at = (long) (i - base) + 4;
        if (at < 0 || at >= size) { invalid = true; return; }
        runs[at]++;
    };
    if (form == 0) { parallel_for(start, end, step, action, (std::size_t) threads); }
    else if (form == 1) { parallel_for(start, end, step, action); }
    else { parallel_for((std::size_t) start, (std::size_t) end, [&action](std::size_t i) { action((T) i); }); }
    mc::check(!invalid, "the body of parallel_for is called with an index out of the range");
    for (int at = 0; at < size; at++) {
        const long i = at - 4;
        const bool wanted = i >= 0 && i < (long) (end - start) && i % (long) step == 0;
        if (runs[at] != (wanted ? 1 : 0)) {
            mc::fail("parallel_for called its body " + std::to_string(runs[at]) + " times for start + " + std::to_string(i) + (wanted ? " (of the range)" : " (not of the range)"));
        }
    }
    mc::outcome(size);
}

static void each_scenario(int n, int threads, bool container) {
    reset();
    std::vector<int> items(n), runs(n, 0);
    for (int i = 0; i < n; i++) { items[i] = i; }
    auto action = [&runs](const int i) { runs[i]++; };
    if (container) { parallel_for_each(items, action); }
    else { parallel_for_each(items.begin(), items.end(), action, (std::size_t) threads); }
    for (int i = 0; i < n; i++) {
        if (runs[i] != 1) { mc::fail("parallel_for_each called its body " + std::to_string(runs[i]) + " times for element " + std::to_string(i)); }
    }
    mc::outcome(n);
}

int main(int argc, char ** argv) {
    std::vector<std::string> a(argv + 1, argv + argc);
    auto num = [&a](std::size_t i) { return i < a.size() ? std::atol(a[i].c_str()) : 0L; };
    S = new shared();
    mc::options opt;
    opt.bound = (int) num(0);
    opt.limit = num(1);
    opt.race_free = !std::getenv("MC_ALLOW_RACES");
    const std::string & what = a[2];
    std::function<void()> scenario;
    if (what == "pool") { scenario = [&]() { pool_scenario((int) num(3), a[4]); }; }
    else if (what == "spin") { scenario = [&]() { spin_scenario((int) num(3), a[4]); }; }
    else if (what == "for") {
        const std::string type = a[3];
        const long s = num(4), e = num(5), p = num(6), t = num(7), f = num(8);
        if (type == "size_t") { scenario = [=]() { for_scenario<std::size_t>(s, e, p, t, f); }; }
        else if (type == "int") { scenario = [=]() { for_scenario<int>(s, e, p, t, f); }; }
        else { scenario = [=]() { for_scenario<long>(s, e, p, t, f); }; }
    }
    else { scenario = [&]() { each_scenario((int) num(3), (int) num(4), num(5) != 0); }; }
    return mc::explore(scenario, opt);
}

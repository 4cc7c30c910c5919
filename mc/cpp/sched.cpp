// See sched.hpp. Compiled without instrumentation. The code under test is compiled with -fsanitize=thread, but linked with
// the functions below instead of the sanitizer's runtime: the memory accesses that take part in a data race (found with
// vector clocks) become scheduling points, and so do all atomic operations except for 32-bit additions (reference counts).
// The pthread functions, sched_yield and the futex of std::future are replaced, so that whatever facility of the standard
// library is used ends here. Memory released during an execution is kept until its end: an access to it is an error.
#include "sched.hpp"

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <future>
#include <map>
#include <set>
#include <thread>
#include <unordered_map>
#include <vector>

#include <cerrno>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace {

const int MAX_THREADS = 8;
const std::size_t STACK = 256 * 1024;

struct clock_t_ {
    std::uint32_t v[MAX_THREADS] = {};
    void join(const clock_t_ & o) { for (int i = 0; i < MAX_THREADS; i++) { if (o.v[i] > v[i]) { v[i] = o.v[i]; } } }
};

struct eh_globals { void * a; unsigned b; };

enum kind { RUN, LOCK, WAIT, JOIN, YIELD, TEST, DONE };

struct fiber {
    int id;
    ucontext_t ctx;
    char * stack = nullptr;
    void * (*start)(void *) = nullptr;
    void * arg = nullptr;
    kind state = RUN;
    void * object = nullptr;            // what it waits for
    void * mutex = nullptr;             // to be taken after a condition
    bool signaled = false;
    bool timed = false;
    int target = -1;                    // joined thread
    long seen = 0;                      // effects seen when it yielded
    const std::function<bool()> * test = nullptr;
    void * last_failed = nullptr;
    int failed = 0;
    bool joined = false;
    std::uint32_t last = 0;             // its own clock when it ended
    clock_t_ clock;
    void * once_callable = nullptr;
    void (*once_call)() = nullptr;
    eh_globals eh = { nullptr, 0 };
    int internal = 0;
};

struct cell {                           // shadow of eight bytes
    std::uintptr_t key = 0;
    long run = 0;
    bool freed = false;
    std::int8_t writer[8];
    std::uint32_t write_clock[8];
    void * write_pc[8];
    std::uint32_t read_clock[MAX_THREADS][8];
    void * read_pc[MAX_THREADS];
};

const std::size_t CELLS = 1 << 18;
cell * cells = nullptr;

fiber fibers[MAX_THREADS];
int amount = 0;
fiber * current = nullptr;
ucontext_t root;
bool active = false;

std::map<void *, int> * owners;          // mutexes held
std::map<void *, clock_t_> * clocks;     // of synchronization objects
std::vector<void *> * graveyard;
std::set<void *> * racy;                 // program counters of racy accesses
bool racy_grown = false;
bool try_seen = false, try_grown = false;

struct decision { int taken, arity; };
std::vector<decision> * tape;
std::size_t position = 0;
int preemptions = 0;
long effects = 0, steps = 0, run_number = 0, idle_rounds = 0;
long unwatched = 0, total_steps = 0, executions = 0, switches = 0, data_races = 0;
std::vector<std::pair<int, const char *>> * trace;
std::set<long> * outcomes;
mc::options opt;
int internal = 0;

struct quiet { quiet() { internal++; } ~quiet() { internal--; } };


eh_globals * eh() { return reinterpret_cast<eh_globals *>(abi::__cxa_get_globals()); }

void report(const std::string & message) {
    active = false;
    std::string out = "FAILED " + message + "\nschedule:";
    int last = -1;
    for (auto & t : *trace) {
        if (t.first != last) { out += "\n  T" + std::to_string(t.first) + ":"; last = t.first; }
        out += std::string(" ") + t.second;
    }
    out += "\nchoices:";
    for (auto & d : *tape) { out += " " + std::to_string(d.taken); }
    out += "\n";
    (void) !::write(1, out.data(), out.size());
    ::_exit(10);
}

int pick(int n) {
    if (n <= 1) { return 0; }
    if (position < tape->size()) {
        decision & d = (*tape)[position++];
        if (d.arity != n) { report("harness: the replay diverged"); }
        return d.taken;
    }
    tape->push_back({ 0, n });
    position++;
    return 0;
}

bool enabled(fiber & f) {
    switch (f.state) {
    case RUN:   return true;
    case LOCK:  return owners->find(f.object) == owners->end();
    case WAIT:  return (f.signaled || f.timed) && owners->find(f.mutex) == owners->end();
    case JOIN:  return fibers[f.target].state == DONE;
    case YIELD: return f.seen != effects;
    case TEST:  return (*f.test)();
    default:    return false;
    }
}

void switch_to(fiber * next) {
    if (next == current) { return; }
    fiber * previous = current;
    switches++;
    previous->once_callable = std::__once_callable;
    previous->once_call = std::__once_call;
    previous->eh = *eh();
    previous->internal = internal;
    current = next;
    std::__once_callable = next->once_callable;
    std::__once_call = next->once_call;
    *eh() = next->eh;
    swapcontext(&previous->ctx, &next->ctx);
    internal = previous->internal;
}

// Chooses who continues; the state of the current thread has been set.
void reschedule(const char * what) {
    quiet q;
    total_steps++;
    if (++steps > opt.steps) { report("an execution does not end (more than " + std::to_string(opt.steps) + " steps)"); }
    if (trace->size() < 4000) { trace->push_back({ current->id, what }); }

    int options[MAX_THREADS + MAX_THREADS], count = 0;
    bool self = current->state != DONE && enabled(*current);
    if (self) { options[count++] = current->id; }
    bool may = !self || preemptions < opt.bound;
    if (may) {
        for (int i = 0; i < amount; i++) {
            if (&fibers[i] != current && enabled(fibers[i])) { options[count++] = i; }
        }
    }
    if (count == 0) {
        // only spinning threads are left: give each of them two more rounds
        bool spinning = false, done = true;
        for (int i = 0; i < amount; i++) {
            spinning |= fibers[i].state == YIELD;
            done &= fibers[i].state == DONE;
        }
        if (done) {
            fiber * self_fiber = current;
            (void) self_fiber;
            setcontext(&root);
        }
        if (spinning && ++idle_rounds <= 2) {
            effects++;
            steps--;
            trace->pop_back();
            return reschedule(what);
        }
        std::string message = spinning ? "threads spin forever:" : "deadlock:";
        static const char * names[] = { "running", "locking a mutex", "waiting on a condition", "joining", "spinning", "waiting for a task or a condition of the scenario", "done" };
        for (int i = 0; i < amount; i++) { message += " T" + std::to_string(i) + " " + names[fibers[i].state] + ","; }
        message.pop_back();
        report(message);
    }
    int normal = count;
    if (opt.spurious && preemptions < opt.bound) {
        for (int i = 0; i < amount; i++) {
            if (fibers[i].state == WAIT && !fibers[i].signaled && owners->find(fibers[i].mutex) == owners->end()) { options[count++] = i; }
        }
    }
    int k = pick(count);
    if (k >= normal) { fibers[options[k]].signaled = true; preemptions++; }
    else if (self && k > 0) { preemptions++; }
    fiber * next = &fibers[options[k]];
    switch_to(next);
}

void effect() { effects++; idle_rounds = 0; }

void release(void * object) {
    auto & c = (*clocks)[object];
    c.join(current->clock);
    current->clock.v[current->id]++;
}

void acquire(void * object) {
    auto it = clocks->find(object);
    if (it != clocks->end()) { current->clock.join(it->second); }
}

void visible(const char * what) {
    current->state = RUN;
    reschedule(what);
}

void finish() {
    {
        quiet q;
        current->state = DONE;
        current->last = current->clock.v[current->id];
        release(current);
        effect();
    }
    reschedule("exit");
    std::abort();
}

void trampoline() {
    internal = 0;
    current->start(current->arg);
    finish();
}

int spawn(void * (*start)(void *), void * arg) {
    int slot = 0;                       // that of a joined thread whose end is known to have happened before, if any
    while (slot < amount && !(current && fibers[slot].state == DONE && fibers[slot].joined && current->clock.v[slot] >= fibers[slot].last)) { slot++; }
    if (slot == MAX_THREADS) { report("harness: too many threads"); }
    fiber & f = fibers[slot];
    char * stack = f.stack ? f.stack : static_cast<char *>(std::malloc(STACK));
    const std::uint32_t before = slot < amount ? f.clock.v[slot] : 0;
    f.~fiber();
    new (&f) fiber();
    f.id = slot;
    if (slot == amount) { amount++; }
    f.stack = stack;
    f.start = start;
    f.arg = arg;
    if (current) {
        f.clock = current->clock;
        current->clock.v[current->id]++;
    }
    f.clock.v[f.id] = before + 1;
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, trampoline, 0);
    return f.id;
}

cell & shadow(std::uintptr_t key) {
    std::size_t h = (key * 0x9E3779B97F4A7C15ull) >> 46;
    for (std::size_t i = 0; ; i++) {
        cell & c = cells[(h + i) & (CELLS - 1)];
        if (c.run == run_number && c.key == key) { return c; }
        if (c.run != run_number) {
            c.key = key;
            c.run = run_number;
            c.freed = false;
            std::memset(c.writer, -1, sizeof(c.writer));
            std::memset(c.read_clock, 0, sizeof(c.read_clock));
            return c;
        }
        if (i > 4096) {                 // full: the rest of the memory is not watched
            static cell other;
            other.freed = false;
            std::memset(other.writer, -1, sizeof(other.writer));
            std::memset(other.read_clock, 0, sizeof(other.read_clock));
            unwatched++;
            return other;
        }
    }
}

void add_racy(void * pc) {
    if (pc && racy->insert(pc).second) { racy_grown = true; }
}

std::string where(void * pc) {
    Dl_info info;
    if (!dladdr(pc, &info)) { return "?"; }
    int status = 0;
    char * name = info.dli_sname ? abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status) : nullptr;
    char offset[32];
    std::snprintf(offset, sizeof(offset), "+%#lx", (unsigned long) ((char *) pc - (char *) info.dli_fbase));
    return std::string(name ? name : info.dli_sname ? info.dli_sname : "?").substr(0, 100) + offset;
}

void race(void * a, void * b) {
    data_races++;
    if (opt.race_free) { report("a data race (accesses of two threads to the same memory without synchronization, one being a write): in " + where(a) + " and in " + where(b)); }
}

void access(void * address, std::size_t size, bool write, void * pc) {
    if (!active || internal || !current) { return; }
    if (address == (void *) &std::__once_callable || address == (void *) &std::__once_call) { return; }     // one for each thread
    quiet q;
    if (racy->count(pc)) {
        visible(write ? "write" : "read");
        if (write) { effect(); }
    }
    const std::uintptr_t begin = reinterpret_cast<std::uintptr_t>(address), end = begin + (size > 32768 ? 32768 : size);
    const int me = current->id;
    for (std::uintptr_t at = begin; at < end; ) {
        cell & c = shadow(at >> 3);
        if (c.freed) { report(std::string(write ? "a write to" : "a read of") + " memory that has been released, in " + where(pc)); }
        for (; at < end; at++) {
            const int k = at & 7;
            if (c.writer[k] >= 0 && c.writer[k] != me && c.write_clock[k] > current->clock.v[(int) c.writer[k]]) {
                add_racy(c.write_pc[k]);
                add_racy(pc);
                race(c.write_pc[k], pc);
            }
            if (write) {
                for (int i = 0; i < amount; i++) {
                    if (i != me && c.read_clock[i][k] > current->clock.v[i]) { add_racy(c.read_pc[i]); add_racy(pc); race(c.read_pc[i], pc); }
                }
                c.writer[k] = (std::int8_t) me;
                c.write_clock[k] = current->clock.v[me];
                c.write_pc[k] = pc;
            }
            else {
                c.read_clock[me][k] = current->clock.v[me];
                c.read_pc[me] = pc;
            }
            if (k == 7) { at++; break; }
        }
    }
}

void atomic_access(void * address, bool is_point, bool acquires, bool releases) {
    if (!active || internal || !current) { return; }
    if (is_point) { visible("atomic"); }
    quiet q;
    cell & c = shadow(reinterpret_cast<std::uintptr_t>(address) >> 3);
    if (c.freed) { report("an atomic operation on memory that has been released"); }
    if (acquires) { acquire(address); }
    if (releases) { release(address); }
}

void changed(void * address, bool different) {
    if (!active || internal || !current) { return; }
    if (different) {
        effect();
        current->failed = 0;
    }
    else {
        if (current->last_failed == address) { current->failed++; } else { current->failed = 1; current->last_failed = address; }
        if (current->failed > 2) { quiet q; current->failed = 0; current->state = YIELD; current->seen = effects; reschedule("spin"); current->state = RUN; }
    }
}

void * run_scenario(void * p) {
    (*static_cast<const std::function<void()> *>(p))();
    return nullptr;
}

}

namespace mc {

void fail(const std::string & message) { report(message); ::_exit(10); }

void point() { if (active) { quiet q; visible("point"); } }

void wait_until(const std::function<bool()> & condition) {
    quiet q;
    while (!condition()) {
        current->test = &condition;
        current->state = TEST;
        reschedule("wait");
        current->state = RUN;
    }
}

int choose(int n) { quiet q; return pick(n); }

void outcome(long value) { quiet q; outcomes->insert(value); }

int explore(const std::function<void()> & scenario, const options & p_opt) {
    opt = p_opt;
    owners = new std::map<void *, int>();
    clocks = new std::map<void *, clock_t_>();
    graveyard = new std::vector<void *>();
    racy = new std::set<void *>();
    tape = new std::vector<decision>();
    trace = new std::vector<std::pair<int, const char *>>();
    outcomes = new std::set<long>();
    cells = static_cast<cell *>(std::calloc(CELLS, sizeof(cell)));
    long restarts = 0, discarded = 0;
    volatile bool complete = true;
    while (true) {
        amount = 0;
        current = nullptr;
        position = 0;
        preemptions = 0;
        steps = effects = idle_rounds = 0;
        internal = 0;
        run_number++;
        owners->clear();
        clocks->clear();
        trace->clear();
        int id = spawn(run_scenario, const_cast<std::function<void()> *>(&scenario));
        volatile bool ended = false;
        getcontext(&root);
        if (!ended) {
            ended = true;
            current = &fibers[id];
            std::__once_callable = nullptr;
            std::__once_call = nullptr;
            *eh() = { nullptr, 0 };
            active = true;
            setcontext(&current->ctx);
        }
        active = false;
        internal = 0;
        *eh() = { nullptr, 0 };
        current = nullptr;
        executions++;
        if (position != tape->size()) { report("harness: the replay diverged (shorter)"); }
        for (void * p : *graveyard) { std::free(p); }
        graveyard->clear();
        if (executions + discarded >= opt.limit) { complete = false; break; }
        if (racy_grown || try_grown) {          // new scheduling points: start again
            racy_grown = try_grown = false;
            discarded += executions;
            executions = 0;
            outcomes->clear();
            restarts++;
            tape->clear();
            continue;
        }
        while (!tape->empty() && tape->back().taken + 1 >= tape->back().arity) { tape->pop_back(); }
        if (tape->empty()) { break; }
        tape->back().taken++;
    }
    std::printf("EXPLORED first=%ld executions=%ld discarded=%ld steps=%ld switches=%ld racy=%zu outcomes=%zu complete=%d bound=%d unwatched=%ld\n",
                outcomes->empty() ? 0 : *outcomes->begin(), executions, discarded, total_steps, switches, racy->size(), outcomes->size(), (int) complete, opt.bound, unwatched);
    std::fflush(stdout);
    return 0;
}

}

// --------------------------------------------------------------------------------------------------- memory
void * operator new(std::size_t n) { void * p = std::malloc(n ? n : 1); if (!p) { throw std::bad_alloc(); } return p; }
void * operator new[](std::size_t n) { return operator new(n); }
void operator delete(void * p) noexcept {
    if (!p) { return; }
    if (active && !internal && current) {
        quiet q;
        std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
        std::size_t n = malloc_usable_size(p);
        for (std::uintptr_t key = a >> 3; key <= (a + n - 1) >> 3 && key < (a >> 3) + 4096; key++) {
            cell & c = shadow(key);
            if (c.freed && key == a >> 3) { report("memory is released twice"); }
            c.freed = true;
        }
        graveyard->push_back(p);
        return;
    }
    std::free(p);
}
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void * p, std::size_t) noexcept { operator delete(p); }

// --------------------------------------------------------------------------------------------------- library
unsigned int std::thread::hardware_concurrency() noexcept {
    const char * v = std::getenv("MC_HWC");
    return v ? (unsigned) std::atoi(v) : 2;
}

extern "C" {

int pthread_create(pthread_t * out, const pthread_attr_t *, void * (*start)(void *), void * arg) {
    quiet q;
    int id = spawn(start, arg);
    effect();
    *out = (pthread_t) (id + 1);
    return 0;
}

int pthread_join(pthread_t t, void ** value) {
    quiet q;
    int id = (int) t - 1;
    current->target = id;
    current->state = JOIN;
    reschedule("join");
    current->state = RUN;
    acquire(&fibers[id]);
    fibers[id].joined = true;
    if (value) { *value = nullptr; }
    return 0;
}

int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return current ? (pthread_t) (current->id + 1) : (pthread_t) 1; }

int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t * m) {
    if (active && current && owners->count(m)) { report("a locked mutex is destroyed"); }
    return 0;
}

static void freed_check(void * p) {
    cell & c = shadow(reinterpret_cast<std::uintptr_t>(p) >> 3);
    if (c.freed) { report("an operation on a mutex or a condition that has been destroyed"); }
}

int pthread_mutex_lock(pthread_mutex_t * m) {
    if (!active || !current) { return 0; }
    quiet q;
    auto it = owners->find(m);
    if (it != owners->end() && it->second == current->id) { report("deadlock: a thread locks a mutex which it holds"); }
    current->object = m;
    current->state = LOCK;
    reschedule("lock");
    current->state = RUN;
    freed_check(m);
    (*owners)[m] = current->id;
    acquire(m);
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t * m) {
    if (!active || !current) { return 0; }
    quiet q;
    if (!try_seen) { try_seen = try_grown = true; }
    visible("trylock");
    if (owners->count(m)) { return EBUSY; }
    (*owners)[m] = current->id;
    acquire(m);
    effect();
    return 0;
}

int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const timespec *) { return pthread_mutex_lock(m); }

int pthread_mutex_unlock(pthread_mutex_t * m) {
    if (!active || !current) { return 0; }
    quiet q;
    if (try_seen) { visible("unlock"); }
    freed_check(m);
    auto it = owners->find(m);
    if (it == owners->end() || it->second != current->id) { report("a mutex is unlocked by a thread that does not hold it"); }
    owners->erase(it);
    release(m);
    effect();
    return 0;
}

static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
    quiet q;
    visible("wait");
    freed_check(c);
    auto it = owners->find(m);
    if (it == owners->end() || it->second != current->id) { report("a condition is waited for without its mutex"); }
    owners->erase(it);
    release(m);
    effect();
    current->object = c;
    current->mutex = m;
    current->signaled = false;
    current->timed = timed;
    current->state = WAIT;
    reschedule("sleep");
    bool signaled = current->signaled;
    current->state = RUN;
    current->object = nullptr;
    (*owners)[m] = current->id;
    acquire(m);
    return (timed && !signaled) ? ETIMEDOUT : 0;
}

int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t * c) {
    if (active && current) {
        for (int i = 0; i < amount; i++) {
            if (fibers[i].state == WAIT && fibers[i].object == c && !fibers[i].signaled) { report("a condition is destroyed while a thread waits for it"); }
        }
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec *) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec *) { return cond_wait(c, m, true); }

int pthread_cond_signal(pthread_cond_t * c) {
    if (!active || !current) { return 0; }
    quiet q;
    visible("signal");
    freed_check(c);
    int waiting[MAX_THREADS], n = 0;
    for (int i = 0; i < amount; i++) {
        if (fibers[i].state == WAIT && fibers[i].object == c && !fibers[i].signaled) { waiting[n++] = i; }
    }
    if (n) { fibers[waiting[pick(n)]].signaled = true; }
    effect();
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t * c) {
    if (!active || !current) { return 0; }
    quiet q;
    visible("broadcast");
    freed_check(c);
    for (int i = 0; i < amount; i++) {
        if (fibers[i].state == WAIT && fibers[i].object == c) { fibers[i].signaled = true; }
    }
    effect();
    return 0;
}

int pthread_once(pthread_once_t * control, void (*fn)()) {
    if (!active || !current) {
        if (*control == 0) { *control = 2; fn(); }
        return 0;
    }
    {
        quiet q;
        visible("once");
        std::function<bool()> ready = [control]() { return *control != 1; };
        while (*control == 1) { current->test = &ready; current->state = TEST; reschedule("once"); current->state = RUN; }
        acquire(control);
        if (*control == 2) { return 0; }
        *control = 1;
    }
    int saved = internal;
    internal = 0;
    try { fn(); } catch (...) { *control = 0; internal = saved; effect(); throw; }
    internal = saved;
    quiet q;
    *control = 2;
    release(control);
    effect();
    return 0;
}

int sched_yield() {
    if (!active || !current) { return 0; }
    quiet q;
    current->state = YIELD;
    current->seen = effects;
    reschedule("yield");
    current->state = RUN;
    return 0;
}

int nanosleep(const timespec *, timespec *) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const timespec *, timespec *) { return sched_yield(); }

}

namespace std {

static bool futex_wait(unsigned * address, unsigned value) {
    quiet q;
    volatile unsigned * a = address;
    std::function<bool()> ready = [a, value]() { return *a != value; };
    mc::wait_until(ready);
    acquire(address);
    return true;
}

bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned * a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { return futex_wait(a, v); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) { if (active && current) { effect(); } }
#if __GNUC__ >= 11
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned * a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { return futex_wait(a, v); }
#endif

}

// --------------------------------------------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) { access(p, sizeof(void *), true, PC); } }
void __tsan_vptr_read(void ** p) { access(p, sizeof(void *), false, PC); }
void __tsan_read_range(void * p, std::size_t n) { if (n) { access(p, n, false, PC); } }
void __tsan_write_range(void * p, std::size_t n) { if (n) { access(p, n, true, PC); } }

#define PLAIN(N) \
    void __tsan_read##N(void * p) { access(p, N, false, PC); } \
    void __tsan_write##N(void * p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void * p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void * p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void * p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void * p) { access(p, N, true, PC); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)

#define ACQUIRES(mo) ((mo) != 0 && (mo) != 3)
#define RELEASES(mo) ((mo) >= 3)

#define RMW(BITS, T, NAME, EXPR, IS_POINT) \
    T __tsan_atomic##BITS##_##NAME(volatile T * p, T v, int mo) { \
        atomic_access((void *) p, IS_POINT, ACQUIRES(mo), RELEASES(mo)); T old = *p; (void) v; *p = (T) (EXPR); changed((void *) p, *p != old); return old; }

#define ATOMIC(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T * p, int mo) { atomic_access((void *) p, true, ACQUIRES(mo), false); return *p; } \
    void __tsan_atomic##BITS##_store(volatile T * p, T v, int mo) { atomic_access((void *) p, true, false, RELEASES(mo)); *p = v; if (active && current) { effect(); } } \
    RMW(BITS, T, exchange, v, true) \
    RMW(BITS, T, fetch_add, old + v, BITS != 32) \
    RMW(BITS, T, fetch_sub, old - v, BITS != 32) \
    RMW(BITS, T, fetch_and, old & v, true) \
    RMW(BITS, T, fetch_or, old | v, true) \
    RMW(BITS, T, fetch_xor, old ^ v, true) \
    RMW(BITS, T, fetch_nand, ~(old & v), true) \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T * p, T * e, T v, int mo, int) { \
        atomic_access((void *) p, true, ACQUIRES(mo), RELEASES(mo)); T old = *p; if (old == *e) { *p = v; changed((void *) p, true); return 1; } *e = old; changed((void *) p, false); return 0; } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T * p, T * e, T v, int a, int b) { return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T * p, T e, T v, int a, int b) { __tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, a, b); return e; }

ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)

void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

}

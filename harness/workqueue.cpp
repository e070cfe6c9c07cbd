// C09, C10, C11, C12, C13, C16: WorkQueue and work blocks
#include "sim.h"

#include <gmlc/containers/WorkQueue.hpp>

#include <chrono>
#include <climits>
#include <cstddef>
#include <cstring>
#include <future>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>

using namespace sim;
using gmlc::containers::BasicWorkBlock;
using gmlc::containers::NullWorkBlock;
using gmlc::containers::WorkBlock;
using gmlc::containers::WorkQueue;

namespace {
enum K { ADD, ADDV, WAIT, POLL, SIZE, RATIO, CLOSE, REARM, HELP, SLEEP, YIELD, OPEN, NOTHING, MANY, OTHER, KN };
const char* const kNames[] = {"addWorkBlock", "addWorkBlock(vector)", "wait for result", "isFinished",
                              "numBlock/isEmpty", "setPriorityRatio", "closeWorkerQueue", "re-arm and add",
                              "getWorkBlock+execute", "sleep", "yield", "open gate", "addWorkBlock(null)", "many addWorkBlock", "use of another pool", nullptr};
const char* const probeNames[] = {"worker_idle_seen", "task_threw", "nested_submission", "duplicate_submission",
                                  "rearmed", "helper_ran_block", "closed_with_pending", "closed_while_running",
                                  "second_closer", "submission_after_close", "constructor_failed",
                                  "submission_failed", "zero_workers", "low_before_medium", "medium_before_low",
                                  "high_first", "vector_submission", "pending_at_idle_all_busy", "asked_in_vain_with_pending",
                                  "finished_block_submitted", "pending_counted", "block_moved", "hundreds_of_blocks", "another_pool", "result_of_class_type", "failed_replacement_of_work", nullptr};
enum P { P_IDLE, P_THREW, P_NESTED, P_DUP, P_REARM, P_HELP, P_CLPEND, P_CLRUN, P_CL2, P_AFTER, P_CTORFAIL, P_SUBFAIL,
         P_ZERO, P_LOWFIRST, P_MEDFIRST, P_HIGHFIRST, P_VEC, P_BUSY, P_NOTHING, P_FINSUB, P_COUNTED, P_MOVED, P_MANY, P_OTHER, P_RICH, P_KEPT };

// par: 0 workers, 1 mode bits
enum Par { PW, PMODE, PRATIO };
enum Mode { M_PROMPT = 1, M_ORDER = 2, M_CLOSE = 4, M_DTOR = 8, M_GATE = 32 };

// behaviour bits of a block
enum Kind { K_INT, K_VOID, K_NULL, K_CUSTOM };
// how a block is made
enum Form { FM_CALL, FM_TASK, FM_LATER, FM_MOVED, FM_REPLACED, FM_RESET, FM_KEPT };
int beh(int kind, int yields, int sleep, bool thr, bool nested, int nprio, int form = 0)
{
    return kind | yields << 2 | sleep << 4 | int(thr) << 6 | int(nested) << 7 | nprio << 8 | form << 10;
}
struct Blk {
    std::shared_ptr<BasicWorkBlock> p;
    std::shared_ptr<WorkBlock<int>> pi;
    std::shared_ptr<WorkBlock<void>> pv;
    std::shared_ptr<WorkBlock<Elem>> pe;  // an integer block whose result is an object
    bool defined, gate;
    int kind, yields, sleep, nprio, form;
    bool thr, nested;
    int armed;  // how often it may run
    int inProg;  // number of submissions in the program
    int exec, ended;
    int subBegun, subs;  // submissions begun / returned
    int finSubs;  // submissions begun when a custom block finished
    bool required;  // ever submitted as required
    int prio;
    u64 subInv, subRet, start;
    u64 batch;  // same non-zero value: submitted together, in index order
    int seen;  // arming whose result was checked
};
// single blocks, those their tasks submit, and those submitted by the hundred
constexpr int NB1 = 80, NB = 500;
struct World {
    WorkQueue* wq;
    int nb;  // blocks of this run are below
    int mode;
    int workers, wFirst, wLast;  // fibers of the workers
    int running;
    u64 lastEnd[32];
    bool sawHalt[32];  // a worker that may not start anything any more
    bool inTask[32];
    int helping;  // helpers asking for or executing work
    // mediums since the last low that used the ratio: lower and upper bound
    // (which of the two picks a low made is not always observable)
    int med, medHi;
    int passed;  // mediums that overtook waiting lows (several workers)
    int ratio;
    bool gateOpen, closing, closed;
    int closers;
    bool nulls;  // null pointers were submitted: they come out as they went in
    int nullEntries;  // how many
    Blk b[NB];
};
World* W;
bool isWorker(int f) { return f >= W->wFirst && f < W->wLast; }

const char* const dtorName = "destructor";
struct TaskError {
    int id;
};
void submit(int id, int prio);
void runBody(int id);

// a block type of the user's own
class CustomBlock: public BasicWorkBlock {
  public:
    explicit CustomBlock(int i): id(i) {}
    void execute() override
    {
        // may be queued more than once
        bool late = fin.load();
        if (late) {
            // somebody may have taken it before it had finished
            Quiet q;
            Blk& B = W->b[id];
            if (!B.required && B.finSubs == 1)
                fail("executed-twice", "block %d had finished before it was submitted again, and was executed again", id);
        }
        if (started.exchange(true)) return;
        runBody(id);
        fin.store(true);
        Quiet q;
        W->b[id].finSubs = W->b[id].subBegun;
    }
    bool isFinished() const override { return fin.load(); }
    std::atomic<bool> started{false}, fin{false};
    int id;
};

void orderCheck(int id)
{
    // W and blocks are harness state: called under Quiet
    Blk& B = W->b[id];
    u64 win = W->lastEnd[self()];
    int slack = W->workers - 1;
    int hi = 0, same = 0, lowP = 0, medP = 0;
    bool prioHigh = B.prio >= 2;
    for (int i = 0; i < W->nb; ++i) {
        Blk& X = W->b[i];
        if (i == id || !X.defined || X.exec || X.kind == K_NULL) continue;
        if (B.batch && X.batch == B.batch && i < id) ++same;
        if (!X.subs) continue;
        bool pend = win && X.subRet < win;
        bool xh = X.prio >= 2;
        if ((xh && prioHigh) || X.prio == B.prio)
            if (X.subRet < B.subInv) ++same;
        if (!pend) continue;
        if (xh) ++hi;
        else if (X.prio == 1) ++lowP;
        else ++medP;
    }
    if (same > slack)
        fail("order-not-fifo",
             "block %d started although %d block(s) of the same priority submitted before it had not been taken yet",
             id, same);
    if (!prioHigh && hi > slack)
        fail("high-not-first", "%s priority block %d started although %d high priority block(s) were pending",
             B.prio == 1 ? "low" : "medium", id, hi);
    if (prioHigh) {
        if (lowP || medP) probe(P_HIGHFIRST);
        return;
    }
    if (W->workers == 1) {
        if (B.prio == 0) {
            if (lowP && W->med >= W->ratio)
                fail("low-starved", "medium block %d started after %d medium blocks in a row with a ratio of %d although %d low priority block(s) were pending",
                     id, W->med, W->ratio, lowP);
            if (lowP) probe(P_MEDFIRST);
        } else {
            if (medP && W->medHi < W->ratio)
                fail("low-too-early", "low priority block %d started after only %d of %d medium blocks although %d medium block(s) were pending",
                     id, W->medHi, W->ratio, medP);
            if (medP) probe(P_LOWFIRST);
        }
    } else if (B.prio == 0 && lowP > slack && ++W->passed > (i64(W->ratio) + 2) * W->workers)
        fail("low-starved", "medium block %d started, the %dth since a low one with a ratio of %d, although %d low priority block(s) were pending throughout",
             id, W->passed, W->ratio, lowP);
    if (B.prio == 1) W->passed = 0;
    if (B.prio == 0) {
        ++W->med;
        ++W->medHi;
    } else if (W->workers > 1)
        W->med = W->medHi = 0;
    else if (W->medHi >= W->ratio) {
        bool sure = W->med >= W->ratio && win && B.subs && B.subRet < win;
        W->med = 0;
        if (sure) W->medHi = 0;
    }
}

void begin(int id)
{
    u64 s = seq();
    Quiet q;
    Blk& B = W->b[id];
    note("task starts", id);
    ++B.exec;
    if (!B.subBegun) fail("executed-unsubmitted", "block %d was executed although it was never submitted", id);
    if (B.exec > B.armed)
        fail("executed-twice", "block %d was executed %d times but armed only %d times", id, B.exec, B.armed);
    if (W->closed && W->workers > 0)
        fail("executed-after-shutdown", "block %d started after the work queue had been shut down", id);
    if (isWorker(self()) && W->wq && W->wq->getWorkerCount() == 0) {
        // the shutdown is under way: at most what this worker had taken already
        if (W->sawHalt[self()])
            fail("started-during-shutdown",
                 "block %d was started by a worker that had finished its last one after the shutdown had begun", id);
        W->sawHalt[self()] = true;
    }
    if (W->mode & M_ORDER) orderCheck(id);
    B.start = s;
    W->inTask[self()] = true;
    ++W->running;
}
void end(int id)
{
    u64 s = seq();
    Quiet q;
    note("task ends", id);
    ++W->b[id].ended;
    W->lastEnd[self()] = s;
    W->inTask[self()] = false;
    if (isWorker(self()) && W->wq && W->wq->getWorkerCount() == 0) W->sawHalt[self()] = true;
    --W->running;
}

void runBody(int id)
{
    NoSut ns;
    Blk& B = W->b[id];
    const char* saved = fiberOp(self());
    opname("task");
    begin(id);
    int y, sl, np;
    bool nested, gate;
    {
        Quiet q;
        y = B.yields;
        sl = B.sleep;
        np = B.nprio;
        nested = B.nested;
        gate = B.gate;
    }
    for (int i = 0; i < y; ++i) yield();
    // only a worker waits: a helper has to get to the end of its program
    if (gate && isWorker(self()))
        for (;;) {
            bool open;
            {
                Quiet q;
                open = W->gateOpen;
            }
            if (open) break;
            sleepNs(700000);
        }
    if (sl) sleepNs(u64(sl) * sl * 700000);
    if (nested && id < 40) {
        probe(P_NESTED);
        submit(id + 40, np);
        opname("task");
    }
    end(id);
    opname(saved);
}
bool rich(int id) { return id % 5 == 3; }
int taskInt(int id)
{
    runBody(id);
    bool thr;
    int n;
    {
        Quiet q;
        thr = W->b[id].thr;
        n = W->b[id].exec;
    }
    if (thr) {
        probe(P_THREW);
        throw TaskError{id};
    }
    return id * 100 + n;
}

Elem taskElem(int id) { return Elem(taskInt(id)); }

template<class R, class F>
std::shared_ptr<WorkBlock<R>> makeAs(int id, int form, F f)
{
    using gmlc::containers::make_shared_workBlock;
    using gmlc::containers::make_workBlock;
    switch (form) {
        case FM_TASK:
            if (id & 1) return make_shared_workBlock(std::packaged_task<R()>(f));
            return std::shared_ptr<WorkBlock<R>>(make_workBlock(std::packaged_task<R()>(f)));
        case FM_LATER: {
            auto b = std::make_shared<WorkBlock<R>>();
            if (id & 1) b->updateWorkFunction(f);
            else b->updateTask(std::packaged_task<R()>(f));
            return b;
        }
        case FM_REPLACED: {
            // made with other work, which is replaced before or after it was executed
            struct Other {
                bool may;
                R operator()() const
                {
                    if (!may) fail("replaced-work-executed", "work was executed that had been replaced");
                    return R();
                }
            };
            auto b = std::make_shared<WorkBlock<R>>(Other{(id & 2) != 0});
            if (id & 2) b->execute();
            if (id & 1) b->updateWorkFunction(f);
            else b->updateTask(std::packaged_task<R()>(f));
            return b;
        }
        case FM_RESET: {
            auto b = make_shared_workBlock(f);
            b->reset();
            return b;
        }
        case FM_KEPT: {
            // its work stays the same when it cannot be replaced
            struct Broken {
                Broken() = default;
                Broken(const Broken&) { throw 5; }
                R operator()() const { fail("replaced-work-executed", "work was executed that was never accepted"); }
            };
            auto b = make_shared_workBlock(f);
            auto early = b->get_future();
            bool threw = false;
            try {
                if (id & 1) {
                    b->updateWorkFunction(Broken());
                } else {
                    std::packaged_task<R()> taken([]() -> R { return Broken()(); });
                    (void)taken.get_future();
                    b->updateTask(std::move(taken));
                }
            }
            catch (int) {
                threw = true;
            }
            catch (const std::future_error&) {
                threw = true;
            }
            if (!threw) fail("no-exception", "work that cannot be stored was accepted");
            if (early.wait_for(std::chrono::seconds(0)) == std::future_status::ready)
                fail("wrong-result", "a failed replacement of the work gave the block a result");
            if (b->isFinished()) fail("still-finished", "a failed replacement of the work finished the block");
            probe(P_KEPT);
            return b;
        }
        case FM_MOVED: {
            WorkBlock<R> first(f);
            auto b = std::make_shared<WorkBlock<R>>(std::move(first));
            if (id & 1) return b;
            auto c = std::make_shared<WorkBlock<R>>();
            *c = std::move(*b);
            return c;
        }
        default:
            if (id & 1) return make_shared_workBlock(std::move(f));
            return std::shared_ptr<WorkBlock<R>>(make_workBlock(f));
    }
}
void makeBlock(int id)
{
    Blk& B = W->b[id];
    switch (B.kind) {
        case K_INT:
            if (rich(id)) {
                B.pe = makeAs<Elem>(id, B.form, [id] { return taskElem(id); });
                B.p = B.pe;
                break;
            }
            B.pi = makeAs<int>(id, B.form, [id] { return taskInt(id); });
            B.p = B.pi;
            break;
        case K_VOID:
            B.pv = makeAs<void>(id, B.form, [id] { (void)taskInt(id); });
            B.p = B.pv;
            break;
        case K_NULL: B.p = std::make_shared<NullWorkBlock>(); break;
        default: B.p = std::make_shared<CustomBlock>(id);
    }
    if (B.kind != K_NULL && B.p->isFinished())
        fail("finished-too-early", "block %d reports finished although it has just been made", id);
}
void define(int id, int bits, int prio)
{
    Blk& B = W->b[id];
    ++B.inProg;
    if (B.defined) return;
    B.defined = true;
    B.kind = bits & 3;
    B.yields = bits >> 2 & 3;
    B.sleep = bits >> 4 & 3;
    B.thr = (bits >> 6 & 1) && B.kind < K_NULL;
    B.nested = (bits >> 7 & 1) && B.kind != K_NULL;
    B.nprio = bits >> 8 & 3;
    B.form = bits >> 10 & 7;
    B.prio = prio;
    B.armed = 1;
    makeBlock(id);
    if (B.nested && id < 40) define(id + 40, beh(id % 2 ? K_INT : K_VOID, 0, 0, false, false, 0), B.nprio);
}
WorkQueue::WorkPriority wp(int p)
{
    switch (p) {
        case 1: return WorkQueue::WorkPriority::low;
        case 2: return WorkQueue::WorkPriority::high;
        case 3: return WorkQueue::WorkPriority::required;
        default: return WorkQueue::WorkPriority::medium;
    }
}
void subBegin(int id, int prio)
{
    Quiet q;
    Blk& B = W->b[id];
    if (B.subBegun++ && B.armed == 1) probe(P_DUP);
    if (prio == 3) B.required = true;
    if (B.ended) probe(P_FINSUB);
    if (B.subBegun == 1) {
        B.prio = prio;
        B.subInv = 0;
    }
}
// an add returned: pending from now on
void subEnd(int id, u64 inv)
{
    u64 s = seq();
    Quiet q;
    Blk& B = W->b[id];
    if (!B.subs) {
        B.subRet = s;
        B.subInv = inv;
    }
    ++B.subs;
}
void submit(int id, int prio)
{
    std::shared_ptr<BasicWorkBlock> p;
    bool closedBefore;
    {
        Quiet q;
        if (!W->b[id].defined) return;
        closedBefore = W->closed;
    }
    p = W->b[id].p;
    subBegin(id, prio);
    u64 inv = seq();
    try {
        {
            Quiet q;
            if (!W->b[id].subInv) W->b[id].subInv = inv;
        }
        Sut s;
        W->wq->addWorkBlock(std::move(p), wp(prio));
    }
    catch (const std::bad_alloc&) {
        Quiet q;
        --W->b[id].subBegun;
        probe(P_SUBFAIL);
        note("submission failed", id);
        return;
    }
    if (closedBefore) probe(P_AFTER);
    subEnd(id, inv);
}
// blocks until the block's result is there, checks it
void awaitBlock(int id, bool must)
{
    Blk& B = W->b[id];
    {
        Quiet q;
        // a re-armed block whose submission failed is nobody's to wait for
        if (!B.defined || !B.subs || B.subs < B.armed || B.kind == K_NULL) return;
        if (W->closing) return;
        (void)must;
    }
    int armed;
    {
        Quiet q;
        armed = B.armed;
    }
    if (B.kind == K_CUSTOM) {
        for (int i = 0; !B.p->isFinished(); ++i) {
            if (i > 2000) fail("never-executed", "block %d was submitted but never executed", id);
            sleepNs(10000000);
        }
        return;
    }
    try {
        if (B.kind == K_INT) {
            int v;
            if (B.pe) {
                v = ((id & 1) ? B.pe->getReturnVal() : B.pe->get_future().get()).get();
                probe(P_RICH);
            } else
                v = (id & 1) ? B.pi->getReturnVal() : B.pi->get_future().get();
            if (B.thr) fail("exception-lost", "block %d threw but its result is the value %d", id, v);
            if (v != id * 100 + armed)
                fail("wrong-result", "block %d returned %d instead of %d", id, v, id * 100 + armed);
        } else {
            B.pv->wait();
            if (!(id & 1)) {
                B.pv->get_future().get();
                if (B.thr) fail("exception-lost", "block %d threw but its future holds no exception", id);
            } else
                B.pv->getReturnVal();
        }
    }
    catch (const TaskError& e) {
        if (!B.thr || e.id != id) fail("wrong-exception", "block %d delivered the exception of block %d", id, e.id);
    }
    Quiet q;
    if (B.ended < armed) fail("result-too-early", "the result of block %d was delivered before it ran", id);
}
void closeIt()
{
    {
        Quiet q;
        if (W->closing) probe(P_CL2);
        W->closing = true;
        for (int i = 0; i < W->nb; ++i)
            if (W->b[i].subs && !W->b[i].exec) {
                probe(P_CLPEND);
                break;
            }
        if (W->running) probe(P_CLRUN);
    }
    u64 t0 = now();
    {
        Sut s;
        W->wq->closeWorkerQueue();
    }
    (void)t0;
    u64 s = seq();
    (void)s;
    Quiet q;
    W->closed = true;
    note("closed");
    for (int i = W->wFirst; i < W->wLast; ++i)
        if (!fiberDone(i))
            fail("worker-survives-shutdown", "shutdown returned while worker thread %d was still running", i);
    if (W->running && W->workers > 0)
        fail("worker-survives-shutdown", "shutdown returned while %d task(s) were still executing", W->running);
    for (int i = 0; i < W->nb; ++i)
        if (W->b[i].exec != W->b[i].ended && W->workers > 0)
            fail("task-abandoned", "shutdown returned while block %d had started but not ended", i);
}

// how many blocks were in the pool's queues at some time since inv: most is
// minus the number of blocks that had been started by then
void pendingBounds(u64 inv, long most, long& lo, long& hi)
{
    Quiet q;
    lo = -W->helping;
    for (int i = W->wFirst; i < W->wLast; ++i)
        if (!fiberDone(i) && !W->inTask[i]) --lo;
    hi = most + W->nullEntries;
    for (int i = 0; i < W->nb; ++i) {
        Blk& X = W->b[i];
        if (!X.defined) continue;
        hi += X.subBegun;
        if (X.subs && X.armed == 1 && !X.exec && X.kind != K_NULL && X.subRet < inv) ++lo;
    }
    if (lo < 0) lo = 0;
    if (W->workers == 0) hi = lo = 0;
}

// the i-th priority of many
int manyPrio(const Op& op, int i)
{
    int x = op.c >> 14 & 7;
    return x < 4 ? x : x == 4 ? i & 1 : x == 5 ? i % 3 : x == 6 ? i % 7 == 6 : 2 + (i & 1);
}

void runOp(const Op& op)
{
    opname(kNames[op.k]);
    switch (op.k) {
        case ADD: submit(op.a, op.b); break;
        case ADDV: {
            int n = 1 + (op.c >> 16);
            std::vector<std::shared_ptr<BasicWorkBlock>> v;
            probe(P_VEC);
            u64 inv = seq();
            for (int i = 0; i < n; ++i) {
                if (i == 1 && (op.c >> 13 & 1)) {
                    v.push_back(nullptr);
                    Quiet q;
                    W->nulls = true;
                    ++W->nullEntries;
                }
                v.push_back(W->b[op.a + i].p);
                subBegin(op.a + i, op.b);
                Quiet q;
                if (!W->b[op.a + i].subInv) {
                    W->b[op.a + i].subInv = inv;
                    W->b[op.a + i].batch = inv;
                }
            }
            try {
                Sut s;
                W->wq->addWorkBlock(v, wp(op.b));
            }
            catch (const std::bad_alloc&) {
                Quiet q;
                probe(P_SUBFAIL);
                for (int i = 0; i < n; ++i) --W->b[op.a + i].subBegun;
                break;
            }
            for (int i = 0; i < n; ++i) subEnd(op.a + i, inv);
            break;
        }
        case WAIT: {
            // only wait for what has been submitted: a shrunk program must
            // not turn into a self-made deadlock
            bool ok;
            {
                Quiet q;
                ok = !(W->mode & M_CLOSE);
            }
            if (ok) awaitBlock(op.a, false);
            break;
        }
        case POLL: {
            bool def;
            {
                Quiet q;
                def = W->b[op.a].defined;
            }
            if (!def) break;
            int before;
            {
                Quiet q;
                before = W->b[op.a].armed;
            }
            bool f = W->b[op.a].p->isFinished();
            Quiet q;
            Blk& B = W->b[op.a];
            if (f && B.kind != K_NULL && B.armed == before && B.ended < before)
                fail("finished-too-early", "block %d reports finished before it ran to its end", op.a);
            break;
        }
        case SIZE: {
            u64 inv = seq();
            long most = 0;
            {
                Quiet q;
                for (int i = 0; i < W->nb; ++i) most -= W->b[i].exec;
            }
            size_t nb = W->wq->numBlock();
            bool em;
            {
                long lo, hi;
                pendingBounds(inv, most, lo, hi);
                Quiet q;
                if (!W->closing && (long(nb) < lo || long(nb) > hi))
                    fail("wrong-count", "numBlock() is %zu although between %ld and %ld blocks were pending", nb, lo, hi);
                if (!W->closing && lo) probe(P_COUNTED);
            }
            inv = seq();
            most = 0;
            {
                Quiet q;
                for (int i = 0; i < W->nb; ++i) most -= W->b[i].exec;
            }
            em = W->wq->isEmpty();
            {
                long lo, hi;
                pendingBounds(inv, most, lo, hi);
                Quiet q;
                if (!W->closing && (em ? lo > 0 : hi <= 0))
                    fail("wrong-emptiness", "isEmpty() is %d although between %ld and %ld blocks were pending", int(em), lo, hi);
            }
            int n = W->wq->getWorkerCount();
            Quiet q;
            if (n != W->workers && !(W->closing && n == 0))
                fail("worker-count", "getWorkerCount() is %d for a pool of %d", n, W->workers);
            break;
        }
        case RATIO: {
            W->wq->setPriorityRatio(op.a);
            Quiet q;
            W->ratio = op.a > 0 ? op.a : 4;
            break;
        }
        case CLOSE: closeIt(); break;
        case REARM: {
            Blk& B = W->b[op.a];
            bool ok;
            {
                Quiet q;
                ok = B.defined && B.inProg == 1 && B.subs == B.armed && B.kind < K_NULL && !W->closing &&
                    B.armed < 3;
            }
            if (!ok || !B.p->isFinished()) break;
            probe(P_REARM);
            {
                Quiet q;
                ++B.armed;
            }
            int id = op.a;
            if (op.b % 4 == 3) {
                if (B.pe) *B.pe = WorkBlock<Elem>([id] { return taskElem(id); });
                else if (B.pi) *B.pi = WorkBlock<int>([id] { return taskInt(id); });
                else *B.pv = WorkBlock<void>([id] { (void)taskInt(id); });
            } else if (op.b % 3 == 0) {
                if (B.pe) B.pe->reset();
                else if (B.pi) B.pi->reset();
                else B.pv->reset();
            } else if (op.b % 3 == 1) {
                if (B.pe) B.pe->updateWorkFunction([id] { return taskElem(id); });
                else if (B.pi) B.pi->updateWorkFunction([id] { return taskInt(id); });
                else B.pv->updateWorkFunction([id] { (void)taskInt(id); });
            } else {
                if (B.pe) B.pe->updateTask(std::packaged_task<Elem()>([id] { return taskElem(id); }));
                else if (B.pi) B.pi->updateTask(std::packaged_task<int()>([id] { return taskInt(id); }));
                else B.pv->updateTask(std::packaged_task<void()>([id] { (void)taskInt(id); }));
            }
            if (B.p->isFinished()) fail("still-finished", "block %d reports finished right after being re-armed", id);
            submit(op.a, B.prio);
            break;
        }
        case HELP: {
            u64 inv = seq();
            {
                Quiet q;
                ++W->helping;
            }
            auto b = W->wq->getWorkBlock();
            if (!b) {
                // (a pool without workers holds no blocks)
                // every block pending before and after must be in the hands of
                // somebody who has taken it but not started it yet
                Quiet q;
                int hands = W->helping - 1, which = -1, pend = 0;
                for (int i = W->wFirst; i < W->wLast; ++i)
                    if (!fiberDone(i) && !W->inTask[i]) ++hands;
                for (int i = 0; i < W->nb; ++i) {
                    Blk& X = W->b[i];
                    if (!X.defined || !X.subs || X.exec || X.kind == K_NULL || X.subRet > inv) continue;
                    ++pend;
                    which = i;
                }
                if (pend > hands && W->workers > 0 && !W->closing && !W->nulls)
                    fail("pending-work-not-found",
                         "getWorkBlock() found nothing although %d block(s) such as %d were pending throughout the call", pend, which);
                if (pend) probe(P_NOTHING);
            }
            if (b && !b->isFinished()) {
                probe(P_HELP);
                b->execute();
            }
            Quiet q;
            --W->helping;
            break;
        }
        case MANY: {
            for (int i = 0; i < op.b; ++i) submit(op.a + i, manyPrio(op, i));
            if (op.b > 99) probe(P_MANY);
            break;
        }
        case OTHER: {
            // pools do not know of each other
            probe(P_OTHER);
            NoFault nf;
            WorkQueue own(op.a & 1);
            own.setPriorityRatio(1 + (op.a >> 1 & 1));
            int sum = 0;
            std::vector<std::shared_ptr<WorkBlock<int>>> v;
            for (int i = 0; i < 1 + op.b; ++i) {
                v.push_back(gmlc::containers::make_shared_workBlock([i] { return 7000 + i; }));
                own.addWorkBlock(v.back(), wp((op.b + i) & 3));
            }
            for (auto& b : v) sum += b->getReturnVal() - 7000;
            if (sum != op.b * (op.b + 1) / 2) fail("wrong-result", "the blocks of another pool returned a sum of %d", sum);
            if (own.getWorkerCount() != (op.a & 1)) fail("worker-count", "another pool has %d workers", own.getWorkerCount());
            if (op.a & 8) own.closeWorkerQueue();
            break;
        }
        case SLEEP: sleepNs(u64(op.a) * 100000); break;
        case YIELD: yield(); break;
        case NOTHING: {
            std::shared_ptr<BasicWorkBlock> none;
            Sut s;
            W->wq->addWorkBlock(none, wp(op.b));
            break;
        }
        case OPEN: {
            Quiet q;
            W->gateOpen = true;
            break;
        }
        default: break;
    }
    opname("");
}

void idle(u64)
{
    if (!W || !W->wq) return;
    if (W->closing) {
        // whoever shuts the queue down may only wait for tasks to end
        if (!(W->mode & M_PROMPT)) return;
        for (int i = 0; i < nfibers(); ++i) {
            const char* o = fiberOp(i);
            if ((o != kNames[CLOSE] && o != dtorName) || !fiberBlocked(i)) continue;
            int alive = 0, busy = 0;
            for (int k = W->wFirst; k < W->wLast; ++k) {
                if (fiberDone(k)) continue;
                ++alive;
                if (!__builtin_strcmp(fiberOp(k), "task")) ++busy;
            }
            if (alive && !busy)
                fail("shutdown-waits", "thread %d waits in %s for the passage of time although no task is running", i, o);
        }
        return;
    }
    int pend = 0, which = -1;
    for (int i = 0; i < W->nb; ++i) {
        Blk& X = W->b[i];
        if (X.defined && X.subs && X.exec < X.armed && X.subs >= X.armed && X.kind != K_NULL) {
            ++pend;
            which = i;
        }
    }
    int busy = 0;
    // a worker that is executing a task is not idle
    for (int i = W->wFirst; i < W->wLast; ++i)
        if (fiberDone(i) || !__builtin_strcmp(fiberOp(i), "task")) ++busy;
    int idleW = (W->wLast - W->wFirst) - busy;
    if (idleW > 0) probe(P_IDLE);
    if (pend && idleW == 0) probe(P_BUSY);
    if (pend && idleW > 0 && (W->mode & M_PROMPT))
        fail("idle-worker-with-pending-work",
             "nothing but the passage of time can happen, %d worker(s) are idle, and submitted block %d has not been started",
             idleW, which);
}

// a block that is moved takes its progress and its result along
template<class R>
void movedBlock(Blk& B, WorkBlock<R>& from, int id, bool fin)
{
    probe(P_MOVED);
    NoFault nf;
    WorkBlock<R> a(std::move(from));
    if (a.isFinished() != fin)
        fail("finished-flag-lost", "block %d reports finished %d after a move, %d before", id, int(a.isFinished()), int(fin));
    WorkBlock<R> b;
    b = std::move(a);
    if (b.isFinished() != fin)
        fail("finished-flag-lost", "block %d reports finished %d after a move assignment, %d before", id, int(b.isFinished()), int(fin));
    if (!fin) {
        if (B.exec) return;
        // still to be done, by its new holder
        {
            Quiet q;
            ++B.subBegun;
            B.defined = true;
            B.nested = false;
            W->closed = false;
            W->mode &= ~M_ORDER;
        }
        b.execute();
        Quiet q;
        if (!b.isFinished() || B.exec != 1)
            fail("not-exactly-once", "moved block %d was executed %d times by execute()", id, B.exec);
        B.defined = false;
    }
    try {
        if constexpr (std::is_void_v<R>) {
            b.wait();
            b.get_future().get();
            if (B.thr) fail("exception-lost", "moved block %d threw but its future holds no exception", id);
        } else {
            int v;
            if constexpr (std::is_same_v<R, Elem>) {
                // asking twice gives the same
                if (!B.thr && b.getReturnVal().get() != b.getReturnVal().get())
                    fail("wrong-result", "moved block %d returned two results", id);
                v = b.getReturnVal().get();
            } else
                v = b.getReturnVal();
            if (B.thr || v != id * 100 + B.armed)
                fail("wrong-result", "moved block %d returned %d instead of %d", id, v, id * 100 + B.armed);
        }
    }
    catch (const TaskError& e) {
        if (!B.thr || e.id != id) fail("wrong-exception", "moved block %d delivered the exception of block %d", id, e.id);
    }
}

void body(const Program& p)
{
    alignas(World) static char mem[sizeof(World)];
    {
        Quiet q;
        int nb = NB1;
        for (auto& t : p.th)
            for (auto& o : t)
                if (o.k == MANY) nb = NB;
        memset(mem, 0, offsetof(World, b) + sizeof(Blk) * size_t(nb));
        W = reinterpret_cast<World*>(mem);
        W->nb = nb;
        W->mode = p.p(PMODE);
        W->ratio = 4;
        W->workers = p.p(PW);
    }
    onIdle = idle;
    if (W->workers == 0) probe(P_ZERO);
    for (auto& t : p.th)
        for (auto& o : t) {
            if (o.k == ADD) define(o.a, o.c, o.b);
            if (o.k == MANY)
                for (int i = 0; i < o.b; ++i) define(o.a + i, o.c & 0x1FFF, manyPrio(o, i));
            if (o.k == ADDV)
                for (int i = 0; i <= (o.c >> 16); ++i) define(o.a + i, o.c & 0x1FFF, o.b);
        }
    if (W->mode & M_GATE) W->b[0].gate = true;
    int f0 = nfibers();
    W->wFirst = f0;
    opname("constructor");
    try {
        Sut s;
        W->wq = new WorkQueue(W->workers == 4 ? -1 : W->workers);
    }
    catch (const std::system_error&) {
        W->wq = nullptr;
    }
    catch (const std::bad_alloc&) {
        W->wq = nullptr;
    }
    if (!W->wq) {
        probe(P_CTORFAIL);
        for (int i = f0; i < nfibers(); ++i)
            if (!fiberDone(i))
                fail("worker-survives-failed-construction", "the constructor threw but worker thread %d still runs", i);
        NoFault nf;
        W->wFirst = nfibers();
        Sut s;
        W->wq = new WorkQueue(W->workers == 4 ? -1 : W->workers);
    }
    {
        Quiet q;
        W->wLast = nfibers();
        // hardware concurrency is 2 in the simulator
        if (W->workers == 4) W->workers = 3;
        if (W->wLast - W->wFirst != W->workers)
            fail("worker-count", "%d worker threads were started for a pool of %d", W->wLast - W->wFirst, W->workers);
    }
    struct Th {
        const std::vector<Op>* ops;
        void operator()() const
        {
            for (auto& o : *ops) runOp(o);
        }
    };
    Th th[8];
    int id[8];
    int n = int(p.th.size());
    if (n > 8) n = 8;
    if (n) {
        th[0].ops = &p.th[0];
        th[0]();
    }
    for (int i = 1; i < n; ++i) {
        th[i].ops = &p.th[i];
        id[i] = go(&th[i]);
    }
    for (int i = 1; i < n; ++i) join(id[i]);
    runOp(Op{OPEN, 0, 0, 0});
    opname("final phase");
    bool closing;
    {
        Quiet q;
        closing = W->closing;
    }
    if (!closing && !(W->mode & (M_CLOSE | M_DTOR))) {
        NoFault nf;
        // nested submissions become visible as their parents finish
        for (int i = 0; i < W->nb; ++i) awaitBlock(i, true);
        for (int i = 0; i < W->nb; ++i) {
            Blk& B = W->b[i];
            bool c;
            {
                Quiet q;
                c = B.defined && B.subs && B.subs >= B.armed;
            }
            if (!c) continue;
            for (int k = 0; !B.p->isFinished(); ++k) {
                if (k > 200) fail("finished-flag-lost", "block %d ran but never reports finished", i);
                sleepNs(k < 10 ? 1000 : 1000000000);
            }
            Quiet q;
            if (B.kind != K_NULL && (B.exec != B.armed || B.ended != B.armed))
                fail("not-exactly-once", "block %d was executed %d times, armed %d times", i, B.exec, B.armed);
        }
        // duplicates of finished blocks may still sit in the queue
        for (int k = 0; W->wq->numBlock() != 0 || !W->wq->isEmpty(); ++k) {
            if (k > 100)
                fail("queue-not-empty", "all work is done but numBlock() is %zu, isEmpty() is %d", W->wq->numBlock(),
                     int(W->wq->isEmpty()));
            sleepNs(k < 50 ? 1000 : 1000000000);
        }
    }
    opname(dtorName);
    {
        Quiet q;
        W->closing = true;
        if (W->running) probe(P_CLRUN);
    }
    {
        Sut s;
        delete W->wq;
    }
    {
        Quiet q;
        W->closed = true;
        for (int i = W->wFirst; i < W->wLast; ++i)
            if (!fiberDone(i))
                fail("worker-survives-shutdown", "the destructor returned while worker thread %d was still running", i);
        W->wq = nullptr;
    }
    opname("after destruction");
    for (int i = 0; i < W->nb; ++i) {
        // what is reported must stay true after the pool is gone
        Blk& B = W->b[i];
        if (!B.defined) continue;
        bool fin = B.p->isFinished();
        {
            Quiet q;
            if (B.kind != K_NULL && B.exec == B.armed && B.ended == B.armed && !fin)
                fail("finished-flag-lost", "block %d ran but does not report finished after the pool is gone", i);
            if (B.kind != K_NULL && B.exec < B.armed && fin)
                fail("finished-too-early", "block %d never ran but reports finished", i);
            B.defined = false;
        }
        if (B.pi) movedBlock(B, *B.pi, i, fin);
        if (B.pe) movedBlock(B, *B.pe, i, fin);
        if (B.pv) movedBlock(B, *B.pv, i, fin);
        B.pi.reset();
        B.pe.reset();
        B.pv.reset();
        B.p.reset();
    }
}

struct Gen {
    Rng& r;
    Program& p;
    int next{1};
    bool nulls{true};
    int behav(bool sleeps, bool nest)
    {
        // an empty block takes a turn of its priority without being seen
        int kind = r.chance(3, 4) ? int(r.below(2)) : nulls && r.chance(1, 5) ? K_NULL : K_CUSTOM;
        return beh(kind, r.chance(1, 3) ? int(r.below(3)) : 0, sleeps && r.chance(1, 3) ? int(r.below(4)) : 0,
                   r.chance(1, 6), nest && r.chance(1, 5), int(r.below(4)), r.chance(1, 4) ? int(r.below(7)) : 0);
    }
};

enum Flavour { EXEC, PROMPT, ORDERF, SHUT, FAULTS, RACES };
void genCommon(Rng& r, Program& p, Config& c, int fl, int tier)
{
    static const int wk[] = {0, 1, 1, 1, 2, 2, 2, 3, 3, 4};
    int workers = wk[r.below(10)];
    int mode = 0;
    if (fl == PROMPT || fl == ORDERF) workers = 1 + int(r.below(3));
    if (fl == ORDERF && r.chance(2, 3)) workers = 1;
    if (fl == PROMPT) mode |= M_PROMPT;
    if (fl == ORDERF) mode |= M_ORDER;

    bool closeOps = false;
    if (fl == SHUT) {
        closeOps = r.chance(2, 3);
        mode |= closeOps ? M_CLOSE : M_DTOR;
        if (r.chance(1, 6)) workers = 0;
        else if (!workers) workers = 2;
    }
    if ((fl == RACES || fl == FAULTS) && r.chance(1, 4)) mode |= M_DTOR;
    // helpers that ask for work while the workers are held up
    bool asking = fl == PROMPT && r.chance(1, 4);
    if (asking && r.chance(2, 3)) workers = 1;
    if (workers && !asking && r.chance(1, 14)) workers = 5 + int(r.below(4));
    bool gate = (fl == ORDERF || asking) && r.chance(3, 4);
    if (gate) mode |= M_GATE;
    p.par = {workers, mode, 0};
    int nt = 1 + int(r.below(3));
    if (fl == ORDERF && r.chance(1, 2)) nt = 1;
    p.th.resize(size_t(nt + 1));
    Gen g{r, p};
    g.nulls = fl != ORDERF;
    int budget = tier ? 30 : 22;
    bool sleeps = r.chance(1, 3), nest = r.chance(1, 2), vecs = r.chance(1, 3), dups = fl != ORDERF && r.chance(1, 3);
    bool helps = fl != SHUT && fl != ORDERF && fl != PROMPT && r.chance(1, 4), rearm = fl != SHUT && r.chance(1, 3);
    if (fl == ORDERF) rearm = false;
    bool ratios = r.chance(1, 2);
    static const int oddRatios[] = {256, 65536, 1000000, INT_MAX, INT_MIN, 257, 100};
    if (ratios || asking) {
        int ratio = asking ? 1 + int(r.below(2)) : int(r.below(8)) - 2;
        if (!asking && r.chance(1, 10)) ratio = oddRatios[r.below(7)];
        p.th[0].push_back({RATIO, ratio, 0, 0});
    }
    if (gate) p.th[0].push_back({ADD, 0, int(r.below(4)), beh(K_CUSTOM, 0, 0, false, false, 0)});
    if (asking && gate && r.chance(2, 3)) p.th[0].push_back({SLEEP, 20, 0, 0});
    if (asking) helps = true;
    std::vector<int> mine[9];
    bool large = r.chance(1, 40);
    int nextMany = NB1;
    auto many = [&] {
        int n = r.chance(1, 2) ? 10 + int(r.below(40)) : 30 + int(r.below(270));
        if (n > NB - nextMany) n = NB - nextMany;
        int kind = r.chance(3, 4) ? int(r.below(2)) : K_CUSTOM;
        Op o{MANY, nextMany, n, beh(kind, 0, 0, false, false, 0) | int(r.below(8)) << 14};
        nextMany += n;
        return o;
    };
    if (large) {
        c.maxsteps = 2000000;
        if (r.chance(1, 2)) p.th[0].push_back({RATIO, int(r.below(60)), 0, 0});
        do p.th[0].push_back(many());
        while (r.chance(2, 3));
    }
    u32 prioBias = r.below(3);
    auto prio = [&] {
        if (prioBias == 0) return int(r.below(4));
        if (prioBias == 1) return int(r.below(2));
        return r.chance(1, 4) ? int(r.below(4)) : r.chance(2, 3) ? 0 : 1;
    };
    for (int t = 0; t <= nt; ++t) {
        auto& th = p.th[size_t(t)];
        int n = t == 0 ? int(r.below(gate ? 12 : 4)) : 1 + int(r.below(fl == ORDERF ? 10 : 7));
        for (int i = 0; i < n && budget > 0; ++i) {
            --budget;
            if (sleeps && r.chance(1, 5)) th.push_back({SLEEP, int(r.below(40)), 0, 0});
            if (large && nextMany < NB && r.chance(1, 6)) {
                th.push_back(many());
                continue;
            }
            u32 x = r.below(20);
            if (asking && t > 0 && r.chance(1, 3)) {
                th.push_back({HELP, 0, 0, 0});
                continue;
            }
            if (x < 11 || mine[t].empty()) {
                if (vecs && r.chance(1, 3)) {
                    int k = 1 + int(r.below(4));
                    if (g.next + k > 39) break;
                    int bits = g.behav(sleeps, nest) | (g.nulls && !asking && r.chance(1, 6) ? 1 << 13 : 0) | (k - 1) << 16;
                    th.push_back({ADDV, g.next, prio(), bits});
                    for (int j = 0; j < k; ++j) mine[t].push_back(g.next++);
                } else {
                    if (g.next > 38) break;
                    th.push_back({ADD, g.next, prio(), g.behav(sleeps, nest)});
                    mine[t].push_back(g.next++);
                }
            } else if (x < 14) {
                if (fl != SHUT && t > 0 && fl != ORDERF && !gate) th.push_back({WAIT, mine[t][r.below(u32(mine[t].size()))], 0, 0});
                else th.push_back({SLEEP, 1 + int(r.below(10)), 0, 0});
            } else if (x < 15)
                th.push_back({POLL, mine[t][r.below(u32(mine[t].size()))], 0, 0});
            else if (x < 16)
                th.push_back({SIZE, 0, 0, 0});
            else if (x < 17 && dups) {
                int b = 1 + int(r.below(u32(g.next - 1)));
                th.push_back({ADD, b, prio(), g.behav(false, false)});
            } else if (x < 18 && helps)
                th.push_back({HELP, 0, 0, 0});
            else if (x < 20 && rearm) {
                int b = mine[t][r.below(u32(mine[t].size()))];
                if (r.chance(1, 2) && !gate) th.push_back({WAIT, b, 0, 0});
                if (r.chance(1, 2)) th.push_back({SLEEP, 2, 0, 0});
                th.push_back({REARM, b, int(r.below(12)), 0});
            } else if (r.chance(1, 6))
                th.push_back({NOTHING, 0, int(r.below(4)), 0});
            else if (r.chance(1, 4))
                th.push_back({POLL, 1 + int(r.below(u32(g.next - 1))), 0, 0});
        }
    }
    if (closeOps) {
        int k = 1 + int(r.below(3));
        for (int i = 0; i < k; ++i) {
            auto& th = p.th[1 + r.below(u32(nt))];
            th.insert(th.begin() + r.below(u32(th.size() + 1)), Op{CLOSE, 0, 0, 0});
        }
    }
    if (r.chance(1, 16))
        for (u32 i = 0, n = 1 + r.below(2); i < n; ++i) {
            auto& th = p.th[r.below(u32(nt + 1))];
            th.insert(th.begin() + r.below(u32(th.size() + 1)), Op{OTHER, int(r.below(16)), int(r.below(5)), 0});
        }
    if (r.chance(1, 3)) {
        c.pf[F_SPURIOUS] = r.chance(1, 2) ? 1500 : 6000;
        c.maxf = 1 + r.below(4);
    }
    if (r.chance(1, 5)) {
        c.pf[F_TIMEJUMP] = 1500;
        c.maxf += 1 + r.below(3);
    }
    if (fl != PROMPT && fl != ORDERF && r.chance(1, 6)) {
        c.pf[F_STALL] = 500;
        c.maxf += 1 + r.below(2);
    } else
        p.par[PMODE] |= M_PROMPT;
    if (fl == FAULTS) {
        c.maxf += 1 + r.below(3);
        u32 rate = r.chance(1, 2) ? 6000 : 20000;
        if (r.chance(2, 3)) c.pf[F_THREAD] = rate;
        if (r.chance(2, 3) || !c.pf[F_THREAD]) c.pf[F_ALLOC] = rate / 2;
    }
    if (fl == RACES) c.race = true;
}
void gen9(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, EXEC, t); }
void gen10(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, PROMPT, t); }
void gen11(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, ORDERF, t); }
void gen12(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, SHUT, t); }
void gen16(Rng& r, int t, Program& p, Config& c) { genCommon(r, p, c, FAULTS, t); }
void gen13(Rng& r, int t, Program& p, Config& c)
{
    genCommon(r, p, c, r.chance(1, 4) ? SHUT : RACES, t);
    c.race = true;

}

Scenario sc[] = {
    {"C09", "work_execution", 10, gen9, body, nullptr, kNames, probeNames},
    {"C10", "work_promptness", 10, gen10, body, nullptr, kNames, probeNames},
    {"C11", "work_order", 10, gen11, body, nullptr, kNames, probeNames},
    {"C12", "work_shutdown", 10, gen12, body, nullptr, kNames, probeNames},
    {"C16", "work_faults", 10, gen16, body, nullptr, kNames, probeNames},
    {"C13", "work_races", 14, gen13, body, nullptr, kNames, probeNames},
};
const char* const real[] = {"gmlc/containers/WorkQueue.hpp", "gmlc/containers/SimpleQueue.hpp", nullptr};
Register reg(sc, sizeof sc / sizeof sc[0], real);
}  // namespace

from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C11 import *


class Task:
    """a task of the pool"""


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return False


def scheduler(V, reporting=False):
    """any completion order, any abort; a, b arbitrary cases, d an arbitrary dependency, r an arbitrary resource"""
    runs = V.mod("runs")
    PR = V.cls("runs", "ParallelRunner")
    CR = V.cls("reports", "CaseReports")
    P = Probe(V)
    started, finished = V.ghost(VSet()), V.ghost(VSet())
    holder = V.cell(V.str("holder"), "holder", StrT)
    stop = V.cell(False, "stop", BoolT)
    todo = V.set(StrT, "todo")

    def ready_of(task):
        def ready():
            b = V.bool("ready")
            if b:
                finished.add(unpack(tasks.case(task), StrT))
            return b
        return ready
    V.schema(Task, ready=ready_of)
    tasks = Tasks(V, Task)

    class Pool:
        def apply_async(self, func, args=(), kwds=None):
            V.ensure("the batch of one case is started", V.both(func is batch, len(args) == 1))
            name = args[0]
            n = pack(name)
            V.ensure("only cases of the run are started", V.sym(t_mem(todo.term, n)))
            V.ensure("a case is started at most once", V.neg(name in started))
            V.ensure("every dependency that is part of the run is done before a case is started",
                     V.sym(z3.Implies(z3.And(n == P.a, P.dep(P.a), t_mem(todo.term, P.d)), t_mem(finished.term, P.d))))
            V.ensure("no other running case has the same resource",
                     V.sym(z3.Implies(z3.And(n == P.a, P.uses(P.a), P.uses(P.b), t_mem(started.term, P.b)), t_mem(finished.term, P.b))))
            started.add(name)
            if V.sym(P.uses(n)):
                holder.v = name
            return tasks.task(name)

    class Runner(PR):
        @property
        def _abort(self):
            stop.v = V.either(stop.v, V.bool("abort"))
            return stop.v

        def plan(self, todo):
            V.ensure("a resource is reserved only while a case that uses it has not been seen to finish",
                     V.sym(z3.Implies(t_mem(self.reserved_resources.term, P.r), z3.And(P.uses(pack(holder.v)), t_mem(started.term, pack(holder.v)),
                                                                                       z3.Not(t_mem(self.done.term, pack(holder.v)))))))
            L = V.list(StrT, "planned")
            planned_facts(V, P, L, self.todo, todo, self.done, self.reserved_resources)
            return L
    batch = V.any("run_batch")
    posts = Posts(V, V.path("batches"))
    V.patch(CR, "of_file", staticmethod(lambda file: V.new(CR, cases=posts.records(file))))
    V.patch(runs.time, "sleep", lambda s: None)
    left = V.int("left")
    runner = V.new(Runner, todo=todo, done=VSet(), reserved_resources=VSet(), dependencies=P.deps, resources=P.res, pool=Pool(), run_batch=batch,
                   batches_dir=posts.batches, lock=Lock(), left=left, reports=VList(term=s_empty, et=posts.rt), cases=V.list(StrT, "cases"),
                   case_durations=V.dict(StrT, RealT, "durations"))
    thread_hints(V, P, tasks, runner, todo, started, finished, holder)
    if reporting:
        V.assume(V.sym(left.t == t_card(todo.term)))
        report_hints(V, P, posts, runner, todo)
    r = V.run(runner.thread_function)
    V.ensure("the scheduler ends normally", r.ok)
    whole(V, todo, runner.done)
    V.ensure("without an abort it ends only when every case has been started and has finished",
             V.sym(z3.Or(bterm(stop.v), z3.Implies(t_mem(todo.term, P.a), t_mem(finished.term, P.a)))))
    if reporting:
        V.ensure("every case that is done has its report", V.sym(posts.exactly(runner.reports.toterm(), runner.done.term)))
        V.ensure("as many reports are to come as cases are not done", V.sym(iterm(runner.left) == t_card(todo.term) - t_card(runner.done.term)))
        V.ensure("one report for each case that is done", V.sym(s_len(runner.reports.toterm()) == t_card(runner.done.term)))

from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C11 import *
from contracts.sched_common import *


@contract("runs.ParallelRunner.plan")
def plan(V):
    """for two arbitrary cases a and b, an arbitrary dependency d and an arbitrary resource r"""
    PR = V.cls("runs", "ParallelRunner")
    P = Probe(V)
    todo_all, done, reserved, todo = V.set(StrT, "todo"), V.set(StrT, "done"), V.set(AnyT, "reserved"), V.set(StrT, "asked for")
    runner = V.new(PR, todo=todo_all, done=done, reserved_resources=reserved, dependencies=P.deps, resources=P.res,
                   case_durations=V.dict(StrT, RealT, "durations"), cases=V.list(StrT, "cases"))
    plan_hints(V, P, todo_all, done, reserved)
    before = reserved.term
    r = V.run(runner.plan, todo)
    V.ensure("planning returns normally", r.ok)
    L = r.value.toterm()
    I_ = z3.Implies
    V.ensure("only cases that were asked for are planned", V.sym(I_(s_mem(L, P.a), t_mem(todo.term, P.a))))
    V.ensure("every dependency that is part of the run is done", V.sym(I_(z3.And(s_mem(L, P.a), P.dep(P.a), t_mem(todo_all.term, P.d)), t_mem(done.term, P.d))))
    V.ensure("no resource in use", V.sym(I_(z3.And(s_mem(L, P.a), P.uses(P.a)), z3.Not(t_mem(before, P.r)))))
    V.ensure("no resource used by two planned cases", V.sym(z3.Not(z3.And(s_mem(L, P.a), s_mem(L, P.b), P.uses(P.a), P.uses(P.b)))))
    V.ensure("planning reserves nothing", V.sym(runner.reserved_resources.term == before))


@contract("runs.ParallelRunner.thread_function")
def thread(V):
    """any completion order, any abort; a, b arbitrary cases, d an arbitrary dependency, r an arbitrary resource"""
    scheduler(V)


class Suite:
    """contracts of get_case, method_dependencies and method_resources: functions of the name / the method"""

    def get_case(self, name):
        return self.parts.case(name)

    def method_dependencies(self, method, selection, cache_out_dir=None):
        self.parts.ask(method, selection, cache_out_dir)
        return self.parts.deps(method)

    def method_resources(self, method):
        return self.parts.res(method)


@contract("runs.ParallelRunner.__init__")
def init(V):
    """the scheduler's state reflects the declarations: a arbitrary case, d arbitrary name, r arbitrary resource"""
    runs = V.mod("runs")
    CR = V.cls("reports", "CaseReports")
    V.io_ok = True
    cases = V.list(StrT, "cases")
    parts = Parts(V, cases)
    suite = Suite()
    suite.parts = parts
    init_hints(V, parts)
    config = V.dict(StrT, AnyT, "config")
    config["parallel"] = 4
    r = V.run(runs.ParallelRunner, V.path("exp"), V.path("out"), suite, cases, config, V.any("setup"),
              V.new(CR, cases=V.list(TupT(StrT, AnyT, RealT), "recorded")))
    V.ensure("creating the scheduler ends normally", r.ok)
    p = r.value
    a = parts.name
    V.ensure("exactly the given cases are to be run", V.sym(t_mem(p.todo.term, pack(a)) == s_mem(cases.toterm(), pack(a))))
    V.assume(V.sym(s_mem(cases.toterm(), pack(a))))
    V.ensure("a case waits for exactly its dependencies", V.sym(t_mem(p.dependencies[a].term, parts.d) == s_mem(parts.deps_term(), parts.d)))
    V.ensure("a case holds exactly its resources", V.sym(t_mem(p.resources[a].term, parts.r) == s_mem(parts.res_term(), parts.r)))
    V.ensure("nothing is done or reserved yet", V.both(len(p.done) == 0, len(p.reserved_resources) == 0, V.neg(p._abort)))


@contract("dependencies.Resource")
def resource(V):
    """arbitrary identifiers and port numbers"""
    d = V.mod("dependencies")
    a, b = V.str("identifier a"), V.str("identifier b")
    x, y = V.any("value x"), V.any("value y")
    ra, rb = d.Resource(x, a), d.Resource(y, b)
    V.ensure("two resources are the same exactly when their identifiers are", V.sym(bterm(ra == rb) == bterm(a == b)))
    V.ensure("the value is kept", V.both(ra.value is x, rb.value is y))
    V.ensure("equal resources have equal hashes", V.sym(z3.Implies(bterm(ra == rb), bterm(hash(ra) == hash(rb)))))
    V.ensure("without an identifier the value identifies", d.Resource(a).identifier == a)
    i, j = V.int("i"), V.int("j")
    p, q = d.port(i), d.port(j)
    V.ensure("two ports are the same exactly when their numbers are", V.sym(bterm(p == q) == bterm(i == j)))
    V.ensure("a port is not its number", V.neg(p == d.Resource(i)))
    V.ensure("the port number is the value", p.value == i)


from contracts.C10 import direct as dependencies_of


class Plain:
    pass


@contract("tests.Tests.method_resources")
def resources_of(V):
    """the resources of a test are those its decorator declared"""
    tests = V.mod("tests")
    m = Plain()
    res = V.list(AnyT, "resources")
    has = V.choose(2, "declares resources") == 1
    if has:
        m._resources = res
    r = V.run(V.new(tests.Tests, cases=VList(conc=[])).method_resources, m)
    V.ensure("finding the resources returns normally", r.ok)
    if has:
        V.ensure("exactly the declared resources", V.sym(r.value.toterm() == res.toterm()))
    else:
        V.ensure("no resources", len(r.value) == 0)


@contract("dependencies.depends_on")
def declared(V):
    """what a decorator declares, apart: tests as dependencies, resources as resources (up to 4 of them); also seen through another decorator"""
    mod = V.mod("dependencies")
    utils = V.mod("utils")

    def test(t):
        return None

    def gen():
        yield
    n = V.choose(5, "number of dependencies")
    deps, methods, resources = [], [], []
    for i in range(n):
        if V.choose(2, "resource") == 1:
            d = V.new(mod.Resource, value=V.any("v"), identifier=V.any("id"))
            resources.append(d)
        else:
            d = Plain()
            methods.append(d)
        deps.append(d)
    w = mod.depends_on(*deps)(test)
    if V.choose(2, "decorated again") == 1:
        w = utils.setup_teardown(gen)(w)
    V.ensure("all tests are dependencies, all resources are resources", V.both(len(w._dependencies) == len(methods), len(w._resources) == len(resources)))
    for i in range(len(methods)):
        V.ensure("the declared test", w._dependencies[i] is methods[i])
    for i in range(len(resources)):
        V.ensure("the declared resource", w._resources[i] is resources[i])

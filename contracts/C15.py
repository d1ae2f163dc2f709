from pyvc.core import *
from pyvc.terms import *
from vclib import *
from hints.C15 import *


def recorded(V):
    """recorded calls: any list of snapshots; h(s) is the identity of a snapshot, r(s) its result"""
    F = V.mod("functions")
    V.schema(F.FunctionCall, hash=StrT, json_object=AnyT)
    V.schema(F.FunctionCallSnapshot, call=ObjT(F.FunctionCall), result=AnyT)


def call_args(V):
    n = V.choose(4, "arguments")
    a, b, c = V.any("a"), V.any("b"), V.any("c")
    return [((), {}), ((a,), {}), ((a, b), {"k": c}), ((), {"k": c})][n]


class Fn:
    """a function: its calls are counted"""

    def __init__(self, V, name):
        self.V, self.__qualname__, self.__name__ = V, name, name
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        if self.V.choose(2, "the function") == 1:
            raise KeyboardInterrupt()
        return self.result


@contract("functions.SnapshotFunctions.snapshot", "functions.FunctionCall.__init__", "functions.FunctionCall.from_properties", "functions.FunctionCall.__eq__",
          "functions.FunctionCallSnapshot.match", "functions.FunctionCallSnapshot.__eq__", "functions.FunctionSnapshotter.__call__")
def snapshot(V):
    """one call in any state: arbitrary recorded snapshots, arbitrary earlier calls"""
    F = V.mod("functions")
    recorded(V)
    opaque_hash(V, F)
    name = V.str("name")
    func = Fn(V, name)
    func.result = V.any("result")
    args, kwargs = call_args(V)
    h = F.FunctionCall.from_properties(func, args, kwargs).hash
    recs, calls = V.list(ObjT(F.FunctionCallSnapshot), "recorded"), V.list(ObjT(F.FunctionCallSnapshot), "calls")
    capture = V.bool("capture")
    s = V.new(F.SnapshotFunctions, snapshots=recs, calls=calls, capture_snapshots=capture)
    M = Matching(V, recs, h)
    call_hints(V, h)
    snapshotter = F.FunctionSnapshotter(s, func)
    r = V.run(lambda: snapshotter(*args, **kwargs))
    now = Matching(V, s.calls, h)
    if V.sym(M.some()):
        V.ensure("a recorded call is answered", r.ok)
        V.ensure("a recorded call does not execute the function", len(func.calls) == 0)
        V.ensure("the result is that of a recorded matching call", V.sym(M.result(r.value)))
        V.ensure("the call is among those to be stored", V.sym(now.some_now()))
    else:
        V.ensure("an unrecorded call executes the function exactly when capturing", V.iff(len(func.calls) == 1, capture))
        if len(func.calls) == 1:
            V.ensure("the function gets the arguments of the call", V.both(func.calls[0][0] == args, func.calls[0][1] == kwargs))
        if r.ok:
            V.ensure("the result of the function is returned", r.value is func.result)
            V.ensure("the result is recorded", V.sym(now.some_now()))
            V.ensure("only the result is recorded for the call", V.sym(now.only(func.result)))


@contract("functions.SnapshotFunctions.__init__", "functions.SnapshotFunctions.start")
def recordings(V):
    """any stored files, any modes: what is replayed are exactly the stored recordings; nothing when refreshing"""
    F = V.mod("functions")
    t = Recorder(V)
    refresh, complete = V.bool("refresh"), V.bool("complete")
    t.config = {"refresh_snapshots": refresh, "complete_snapshots": complete}
    d = t.exp_dir_name + "/.functions"
    there = V.fs.isdir(d)
    V.assume(V.either(there, V.neg(V.fs.exists(d))))
    names = V.list(StrT, "names")
    stored_files(V, F, d, names)
    s = F.SnapshotFunctions(t)
    s.start()
    V.ensure("calls are captured exactly when refreshing or completing", V.iff(s.capture_snapshots, V.either(refresh, complete)))
    V.ensure("no call is made yet", len(s.calls) == 0)
    if V.both(there, V.neg(refresh)):
        V.ensure("every recording is replayed", V.sym(all_loaded(V, d, names, s.snapshots)))
    else:
        V.ensure("nothing is replayed", len(s.snapshots) == 0)


@contract("functions.SnapshotFunctions.stop")
def storing(V):
    """any calls with different identities: each is stored, whatever files there are"""
    F = V.mod("functions")
    recorded(V)
    t = Recorder(V)
    V.patch(F.FunctionCallSnapshot, "json_object", as_json)
    calls = V.list(ObjT(F.FunctionCallSnapshot), "calls")
    s = V.new(F.SnapshotFunctions, t=t, calls=calls, snapshots=V.list(ObjT(F.FunctionCallSnapshot), "snapshots"), replaced=[], snapshotters=[],
              mock_out_path=t.out + "/.functions")
    x = a_call(V, F, calls)
    path = t.out + "/.functions/" + x.hash() + ".json"
    storing_hints(V, x, path)
    V.assume(V.neg(V.fs.isdir(path)))
    r = V.run(s.stop)
    if r.ok:
        V.ensure("every call is stored", V.sym(is_stored(V, x, path)))


@contract("functions.FunctionCall.from_properties", "functions.FunctionCall.__init__")
def identity(V):
    """two arbitrary calls with two arguments and one named argument"""
    F = V.mod("functions")
    texts = opaque_hash(V, F)
    a, b = Fn(V, V.str("name a")), Fn(V, V.str("name b"))
    x, y, u, v, x1, y1 = V.any("x"), V.any("y"), V.any("u"), V.any("v"), V.any("x1"), V.any("y1")
    ca = F.FunctionCall.from_properties(a, (x, x1), {"k": u})
    cb = F.FunctionCall.from_properties(b, (y, y1), {"k": v})
    V.ensure("the identity is computed from the call", len(texts) == 2)
    same_identity(V, texts, a.__qualname__, b.__qualname__, x, y, u, v, x1, y1)
    V.ensure("the recorded call tells the function", V.both(ca.func() == a.__qualname__, ca.args()[0] == x, ca.args()[1] == x1, ca.kwargs()["k"] == u))


@contract("functions.FunctionCallSnapshot.json_object", "functions.FunctionCallSnapshot.from_json_object", "functions.FunctionCall.__init__")
def stored(V):
    """what is stored for a call is read back as the same call with the same result"""
    F = V.mod("functions")
    opaque_hash(V, F)
    args, kwargs = call_args(V)
    call = F.FunctionCall.from_properties(Fn(V, V.str("name")), args, kwargs)
    result = V.any("result")
    s = F.FunctionCallSnapshot(call, result)
    r = V.run(lambda: F.FunctionCallSnapshot.from_json_object(s.json_object()))
    V.ensure("a recording can be read", r.ok)
    V.ensure("the identity is the same", r.value.hash() == call.hash)
    V.ensure("it matches the call", r.value.match(call))
    V.ensure("the result is the same", r.value.result is result)


class Owner:
    """something that has functions as attributes: a module, a class, an object"""


class Attribute:
    """a function or whatever an attribute holds"""


class Book:
    """stands for booktest.TestBook"""


class Recorder:
    def __init__(self, V):
        self.exp_dir_name = V.path("exp")
        self.out = V.path("out")
        self.config = {}
        self.V = V

    def file(self, name):
        return self.out + "/" + name

    def h1(self, title):
        if self.V.choose(2, "printing") == 1:
            raise OSError("no space")

    def tln(self, text):
        return self


def test_body(V, during):
    def body(*args):
        during()
        V.state["ran"] = True
        if V.choose(2, "how the test ends") == 1:
            raise KeyboardInterrupt()
        return V.state["result"]
    V.state["ran"] = False
    V.state["result"] = V.any("result")
    return body


def call(V, wrapper, t):
    V.patch(V.prog.pkg, "TestBook", Book)
    if V.choose(2, "method") == 0:
        return V.run(wrapper, t)
    return V.run(wrapper, Book(), t)


@contract("functions.snapshot_functions", "functions.SnapshotFunctions.__init__", "functions.SnapshotFunctions.start", "functions.SnapshotFunctions.stop",
          "functions.SnapshotFunctions.__enter__", "functions.SnapshotFunctions.__exit__", "functions.set_function")
def undone(V):
    """any functions (bound to their owner), any attribute of any owner; replacing, printing and the test itself may fail"""
    F = V.mod("functions")
    V.io_ok = True
    A = Attributes(V, F, Owner, Attribute)
    funcs = A.functions(V)
    V.patch(F.os.path, "exists", lambda p: False)
    undone_hints(V, A)

    def during():
        V.ensure("while the test runs the function of every snapshotted function is a snapshotter of it", V.sym(A.replaced_by_snapshotter()))
    body = test_body(V, during)
    r = call(V, V.mod("functions").snapshot_functions(*funcs)(body), Recorder(V))
    V.ensure("afterwards every attribute is what it was", V.sym(A.restored()))
    if V.state["ran"] and r.ok:
        V.ensure("the result of the test is returned", r.value is V.state["result"])


class Mock:
    """what a function is replaced by"""


@contract("functions.mock_functions", "functions.MockFunctions.__init__", "functions.MockFunctions.start", "functions.MockFunctions.stop",
          "functions.MockFunctions.__enter__", "functions.MockFunctions.__exit__", "functions.set_function")
def mocks(V):
    """any functions with any mocks, any attribute of any owner; replacing and the test itself may fail"""
    F = V.mod("functions")
    A = Attributes(V, F, Owner, Attribute)
    table = A.mocks(V, Mock)
    undone_hints(V, A)

    def during():
        V.ensure("while the test runs the mock is in the place of the function", V.sym(A.replaced_by_snapshotter()))
    body = test_body(V, during)
    r = call(V, F.mock_functions(table)(body), Recorder(V))
    V.ensure("afterwards every attribute is what it was", V.sym(A.restored()))
    if V.state["ran"] and r.ok:
        V.ensure("the result of the test is returned", r.value is V.state["result"])


class Restored(BaseException):
    pass


@contract("functions.set_function", "functions.reset_functions", "functions.set_functions", "functions.static_method_class")
def kinds(V):
    """the kinds of functions: of a module, static, class method, method of an object, inherited ones; one call while replaced"""
    F = V.mod("functions")
    K = Kinds(V, F)
    func, place, calls = K.choose()
    before = K.attributes()
    replaced = F.set_functions([(func, K.replacement)])
    x = V.any("x")
    for c in calls:
        V.state["called"] = None
        c(x)
        V.ensure("a call while replaced reaches the replacement with its argument", V.state["called"] is not None and len(V.state["called"]) == 1 and V.state["called"][0] is x)
    F.reset_functions(replaced)
    V.ensure("afterwards every attribute is what it was", K.same(before))

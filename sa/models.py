"""Transfer functions for the library calls the analysed crate makes.

Every model returns [(cursor, value)].  Library containers are modelled by the events their
operations emit (push/insert/remove/...), iterator adaptors by `it` terms that are pulled one abstract
element at a time, strings by their term.  A function without a model is a pure function of its
arguments unless it does I/O or takes a mutable argument (then its result is a fresh unknown).
"""
import re
from terms import *
from prog import ty_str, peel, strip_generics

SKIP = t("sym", "SKIP")

MAPS = {"std::collections::BTreeMap", "std::collections::HashMap"}
SETS = {"std::collections::BTreeSet", "std::collections::HashSet"}
SEQS = {"std::vec::Vec", "std::collections::VecDeque", "std::collections::BinaryHeap", "std::collections::LinkedList"}
STRS = {"std::string::String", "std::path::PathBuf", "std::ffi::OsString", "std::borrow::Cow"}

MODELS = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def kindof(ty):
    """container kind of a type"""
    ty = peel(ty)
    if ty[0] == "adt":
        n = ty[1]
        if n in MAPS:
            return "map"
        if n in SETS:
            return "set"
        if n in SEQS:
            return "vec"
        if n == OPTION:
            return "opt"
        if n == RESULT:
            return "res"
        if n in STRS:
            return "str"
    if ty[0] in ("slice", "array"):
        return "vec"
    if ty[0] == "str":
        return "str"
    return None


class K:
    """one call being modelled"""

    __slots__ = ("e", "cur", "fr", "f", "n", "args", "live")

    def __init__(self, e, cur, fr, f, n, args, live):
        self.e, self.cur, self.fr, self.f, self.n, self.args, self.live = e, cur, fr, f, n, args, live

    def v(self, i):
        return self.e.val(self.cur, self.args[i])

    def ret(self, x):
        return [(self.cur, x)]

    def ty(self, i):
        a = self.f.get("args", [])
        return a[i] if i < len(a) else ["other", "?"]


PANICS = (
    "core::panicking::",
    "std::rt::begin_panic",
    "core::option::unwrap_failed",
    "core::option::expect_failed",
    "core::result::unwrap_failed",
    "std::rt::panic_fmt",
    "std::intrinsics::abort",
    "std::process::abort",
    "core::slice::index::",
    "core::str::slice_error_fail",
)


def call(e, cur, fr, f, n, args, live):
    k = K(e, cur, fr, f, n, args, live)
    if n.startswith(PANICS):
        e.panic(cur, "panic", *[e.val(cur, a) for a in args][:1])
        return []
    parts = n.split("::")
    two = "::".join(parts[-2:])
    h = MODELS.get(n) or MODELS.get(two) or (MODELS.get("::" + parts[-1]) if f.get("trait") is None else None)
    if h is not None:
        r = h(k)
        if r is not None:
            return r
    return default(k)


IMPURE = (
    "std::fs::",
    "std::io::",
    "std::env::",
    "std::time::",
    "std::process::",
    "std::thread::",
    "std::net::",
    "std::os::",
    "std::sync::",
    "std::cell::",
    "glob::",
    "clap::",
    "syn::visit::",
    "serde_json::from_reader",
    "std::path::Path::exists",
    "std::path::Path::is_file",
    "std::path::Path::is_dir",
    "std::path::Path::read_dir",
    "std::path::Path::canonicalize",
    "std::path::Path::metadata",
    "std::path::Path::try_exists",
)


def default(k):
    e, cur = k.e, k.cur
    vals = [k.v(i) for i in range(len(k.args))]
    refs = [a for a in k.args if a.op == "ref"]
    e.unknown[k.n] = e.unknown.get(k.n, 0) + 1
    impure = k.n.startswith(IMPURE) or (not vals) or any(is_agg(v, "closure") for v in vals)
    if refs:
        r = e.fresh(cur, k.fr, k.n, *[e.val(cur, a) for a in k.args])
        e.emit(cur, "call", k.n, tuple(vals), r)
        for a in refs:
            v = e.val(cur, a)
            if v.op == "obj":
                e.emit(cur, "mut", v, k.n)
                e.touched(cur, v, "other")
            elif v.op == "agg" and v.a[0] == "closure":
                pass
            else:
                e.write(cur.st, a.a[0], a.a[1], t("outp", r, len(refs)))
        return [(cur, r)]
    if impure:
        r = e.fresh(cur, k.fr, k.n, *vals)
        e.emit(cur, "call", k.n, tuple(vals), r)
        return [(cur, r)]
    return [(cur, app(k.n, *vals))]


# ---------------------------------------------------------------- transparent
@m(
    "Deref::deref",
    "DerefMut::deref_mut",
    "AsRef::as_ref",
    "AsMut::as_mut",
    "Borrow::borrow",
    "BorrowMut::borrow_mut",
    "ToOwned::to_owned",
    "Rc::new",
    "Arc::new",
    "Box::new",
    "Rc::as_ref",
    "Rc::from",
    "Box::from",
    "Rc::unwrap_or_clone",
    "Box::pin",
    "hint::must_use",
    "convert::identity",
    "hint::black_box",
    "Path::to_path_buf",
    "Path::new",
    "PathBuf::as_path",
    "PathBuf::from",
    "Path::as_os_str",
    "OsStr::to_os_string",
    "OsStr::new",
    "PathBuf::into_os_string",
    "String::as_str",
    "String::from",
    "String::as_bytes",
    "str::as_bytes",
    "str::into_bytes",
    "String::into_bytes",
    "String::into_boxed_str",
    "str::into_string",
    "str::to_owned",
    "String::leak",
    "Vec::as_slice",
    "Vec::as_mut_slice",
    "Vec::into_boxed_slice",
    "slice::into_vec",
    "slice::as_slice",
    "Cow::into_owned",
    "Cow::to_mut",
    "Option::as_ref",
    "Option::as_deref",
    "Option::cloned",
    "Option::copied",
    "Result::as_ref",
    "Result::as_deref",
    "Result::cloned",
    "Result::copied",
    "io::Write::by_ref",
    "Write::by_ref",
    "BufReader::new",
    "BufReader::with_capacity",
    "BufReader::get_ref",
    "Match::as_str",
    "mem::ManuallyDrop::new",
    "Stdout::lock",
    "Read::by_ref",
    "OsStr::to_string_lossy",
    "Path::to_string_lossy",
    "RefCell::new",
    "Cell::new",
    "io::Error::other",
    "Box::leak",
    "ptr::addr_of",
    "Box::as_ref",
    "NonNull::as_ref",
)
def ident(k):
    if k.n.endswith(("BufReader::with_capacity",)):
        return k.ret(k.args[1])
    if not k.args:
        return None
    return k.ret(k.args[0])


@m("Path::display")
def path_display(k):
    return k.ret(k.v(0))


@m("io::Error::other", "Error::other")
def ioerr_other(k):
    return k.ret(app("ioerror", k.v(0)))


@m("Option::as_deref_mut", "Option::as_mut")
def opt_as_mut(k):
    e, cur = k.e, k.cur
    a = k.args[0]
    out = []
    for c, v in e.variants(cur, a, ["Some"]):
        if v == "Some":
            if a.op == "ref":
                out.append((c, some(ref(a.a[0], a.a[1] + (("@", "Some"), (0, "0"))))))
            else:
                out.append((c, some(payload(e, c, a, "Some"))))
        else:
            out.append((c, NONE))
    return out


@m("Result::as_mut")
def res_as_mut(k):
    e, cur, a = k.e, k.cur, k.args[0]
    out = []
    for c, v in e.variants(cur, a, ["Ok", "Err"]):
        if a.op == "ref":
            p = ref(a.a[0], a.a[1] + (("@", v), (0, "0")))
        else:
            p = payload(e, c, a, v)
        out.append((c, ok(p) if v == "Ok" else err(p)))
    return out


@m("Clone::clone", "Clone::clone_from")
def clone(k):
    if k.n.endswith("clone_from"):
        k.e.write(k.cur.st, k.args[0].a[0], k.args[0].a[1], k.v(1))
        return k.ret(UNIT)
    x = k.v(0)
    ty = k.ty(0)
    while ty[0] == "ref":
        ty = ty[2]
    if ty[0] == "adt" and (ty[1] in MAPS or ty[1] in SETS or ty[1] in SEQS):
        if x.op == "bytesof":
            return k.ret(x)
        b = bytes_of(k, x)
        if b is not None:
            return k.ret(t("bytesof", b))
        o = k.e.new_obj(k.cur, k.fr, ty[1])
        k.e.emit(k.cur, "clone", o, x)
        em = k.e.emptiness_soft(k.cur, x)
        if o in k.e.tracked and em is not None:
            ob = dict(k.cur.st.ob)
            ob[o] = "E" if em else "N"
            k.cur.st.ob = ob
        elif o in k.e.tracked:
            ob = dict(k.cur.st.ob)
            ob[o] = "?"
            k.cur.st.ob = ob
        return k.ret(o)
    if x.op == "it":
        # the copy is an iteration of its own

        def again(y):
            if y.op == "it" and y.a[0] == "src":
                e = k.e
                s = e.site(k.fr, ("ic", y.a[1]))
                e.advance(k.cur, s, False)
                e.emit(k.cur, "begin", s, y.a[2])
                e.iter_sites[s] = e.loc
                return t("it", "src", s, *y.a[2:])

        return k.ret(subst(x, again, {}))
    return k.ret(x)


@m("slice::to_vec", "slice::to_owned", "Iterator::cloned_vec")
def to_vec(k):
    o = k.e.new_obj(k.cur, k.fr, "std::vec::Vec")
    k.e.emit(k.cur, "clone", o, k.v(0))
    if o in k.e.tracked:
        ob = dict(k.cur.st.ob)
        ob[o] = "?"
        k.cur.st.ob = ob
    return k.ret(o)


@m("Into::into", "From::from", "TryFrom::try_from", "TryInto::try_into")
def into(k):
    if k.n.endswith(("try_from", "try_into")):
        return None
    if k.n.endswith("From::from"):
        dst, src = k.ty(0), k.ty(1)
    else:
        src, dst = k.ty(0), k.ty(1)
    sk, dk = kindof(src), kindof(dst)
    if dk == "opt" and sk != "opt":
        return k.ret(some(k.args[0]))
    x = k.v(0)
    if peel(src)[0] == "bool" and peel(dst)[0] in ("int", "uint"):
        return [(c, C("int", int(b))) for c, b in k.e.decide(k.cur, x)]
    if dk in ("vec", "set", "map") and is_agg(x, "array"):
        return literal_container(k, dst, fields(x))
    return k.ret(k.args[0])


def literal_container(k, ty, items):
    kind = kindof(ty)
    o = k.e.new_obj(k.cur, k.fr, ty[1] if ty[0] == "adt" else "std::vec::Vec")
    for x in items:
        if kind == "map" and is_agg(x, "tuple"):
            k.e.emit(k.cur, "insert", o, x.a[3], x.a[4])
            k.e.touched(k.cur, o, "insert", x.a[3])
        elif kind == "set":
            k.e.emit(k.cur, "insert", o, x, UNIT)
            k.e.touched(k.cur, o, "insert", x)
        else:
            k.e.emit(k.cur, "push", o, x)
            k.e.touched(k.cur, o, "grow")
    return k.ret(o)


@m("Box::new_uninit", "MaybeUninit::uninit")
def new_uninit(k):
    return k.ret(t("sym", "uninitbox"))


@m("boxed::box_assume_init_into_vec_unsafe")
def box_vec(k):
    x = k.v(0)
    for _ in range(4):
        if is_agg(x, "array"):
            break
        if x.op == "agg" and len(x.a) == 4:
            x = x.a[3]
        elif x.op == "upd":
            x = x.a[2]
    if not is_agg(x, "array"):
        return None
    return literal_container(k, ["adt", "std::vec::Vec"], fields(x))


@m("vec::from_elem")
def from_elem(k):
    o = k.e.new_obj(k.cur, k.fr, "std::vec::Vec")
    k.e.emit(k.cur, "push", o, k.v(0))
    k.e.touched(k.cur, o, "other")
    return k.ret(o)


# ---------------------------------------------------------------- comparison
def is_log(ty):
    return "log::" in ty_str(ty)


@m("PartialEq::eq", "PartialEq::ne")
def eq(k):
    if is_log(k.ty(0)):
        return k.ret(t("nondet"))
    x = k.e.eqterm(k.v(0), k.v(1))
    return k.ret(x if k.n.endswith("eq") else neg(x))


@m("str::eq_ignore_ascii_case")
def eqi(k):
    return k.ret(app("eq_ignore_case", k.v(0), k.v(1)))


@m("PartialOrd::le", "PartialOrd::lt", "PartialOrd::gt", "PartialOrd::ge")
def le(k):
    if is_log(k.ty(0)):
        return k.ret(t("nondet"))
    op = {"le": "Le", "lt": "Lt", "gt": "Gt", "ge": "Ge"}[k.n[-2:]]
    return k.ret(k.e.binop2(k.cur, op, k.v(0), k.v(1)))


@m("Not::not")
def not_(k):
    return k.ret(neg(k.v(0)))


@m("Add::add", "AddAssign::add_assign")
def add(k):
    ty = kindof(k.ty(0))
    a, b = k.v(0), k.v(1)
    r = cat(a, b) if ty == "str" else k.e.binop2(k.cur, "Add", a, b)
    if k.n.endswith("assign"):
        k.e.write(k.cur.st, k.args[0].a[0], k.args[0].a[1], r)
        if ty == "str":
            k.e.emit(k.cur, "strpush", a, b)
        return k.ret(UNIT)
    return k.ret(r)


@m("Sub::sub")
def sub_(k):
    ty = peel(k.ty(0))
    a, b = k.v(0), k.v(1)
    if ty[0] not in ("usize", "int", "u8", "u16", "u32", "u64", "u128", "uint"):
        return None
    k.e.emit(k.cur, "sub", a, b)
    return k.ret(k.e.binop2(k.cur, "Sub", a, b))


# ---------------------------------------------------------------- logging and process
@m("__private_api::log", "log::__private_api::log", "__private_api::enabled", "io::_eprint", "__private_api::loc")
def nolog(k):
    if k.n.endswith("_eprint"):
        k.e.emit(k.cur, "eprint", k.v(0))
    if k.n.endswith("enabled"):
        return k.ret(t("nondet"))
    return k.ret(UNIT)


@m("log::max_level", "log::logger")
def maxlevel(k):
    return k.ret(t("sym", "loglevel"))


@m("process::exit")
def pexit(k):
    k.e.emit(k.cur, "exit", k.v(0))
    return k.ret(UNIT)


@m("io::_print")
def pprint(k):
    k.e.emit(k.cur, "call", "std::io::_print", (k.v(0),), UNIT)
    return k.ret(UNIT)


# ---------------------------------------------------------------- Option / Result
def payload(e, cur, x, V, name="0"):
    x = e.val(cur, x)
    while x.op == "upd" and x.a[1] != name:
        x = x.a[0]
    if x.op == "upd":
        return x.a[2]
    if x.op == "agg":
        return x.a[3] if len(x.a) > 3 else UNIT
    return e.proj(e.dc(x, V), name)


def tagged(k, x=None, cur=None):
    """[(cur, variant, payload)] for an Option or Result"""
    e = k.e
    cur = cur or k.cur
    x = e.val(cur, x if x is not None else k.args[0])
    first = "Ok" if "Result" in k.n else "Some"
    if x.op == "agg":
        first = {"None": "Some", "Err": "Ok"}.get(x.a[2], x.a[2])
    vs = ["Ok", "Err"] if first == "Ok" else ["Some", "None"]
    return [(c, v, payload(e, c, x, v) if v != "None" else None) for c, v in e.variants(cur, x, vs)]


def tag_res(k, x, cur):
    e = k.e
    x = e.val(cur, x)
    return [(c, v, payload(e, c, x, v)) for c, v in e.variants(cur, x, ["Ok", "Err"])]


def tag_opt(k, x, cur):
    e = k.e
    x = e.val(cur, x)
    return [(c, v, payload(e, c, x, v) if v == "Some" else None) for c, v in e.variants(cur, x, ["Some", "None"])]


POS = {"Some": some, "Ok": ok}


@m("Option::is_some", "Result::is_ok")
def is_some(k):
    return k.ret(isv(k, "Some" if "Option" in k.n else "Ok"))


@m("Option::is_none", "Result::is_err")
def is_none(k):
    return k.ret(neg(isv(k, "Some" if "Option" in k.n else "Ok")))


def isv(k, V):
    x = k.v(0)
    if x.op == "agg":
        return boolc(x.a[2] == V)
    if x.op == "opt":
        return x.a[0]
    return t("isvar", x, V)


def clos(k, cur, clo, *args):
    return k.e.closure(cur, clo, list(args), k.fr)


@m("Option::map", "Result::map", "Option::inspect", "Result::inspect")
def omap(k):
    out = []
    for c, v, p in tagged(k):
        if v in POS:
            for c2, r in clos(k, c, k.args[1], p):
                out.append((c2, POS[v](p if k.n.endswith("inspect") else r)))
        else:
            out.append((c, NONE if v == "None" else err(p)))
    return out


@m("Result::map_err", "Result::inspect_err", "Result::or_else", "Option::or_else")
def map_err(k):
    out = []
    for c, v, p in tagged(k):
        if v in POS:
            out.append((c, POS[v](p)))
        else:
            for c2, r in clos(k, c, k.args[1], *([p] if v == "Err" else [])):
                if k.n.endswith("or_else"):
                    out.append((c2, r))
                else:
                    out.append((c2, err(p if k.n.endswith("inspect_err") else r)))
    return out


@m("Option::and_then", "Result::and_then")
def and_then(k):
    out = []
    for c, v, p in tagged(k):
        if v in POS:
            out += clos(k, c, k.args[1], p)
        else:
            out.append((c, NONE if v == "None" else err(p)))
    return out


@m("Option::and", "Result::and")
def and_(k):
    return [(c, k.args[1] if v in POS else (NONE if v == "None" else err(p))) for c, v, p in tagged(k)]


@m("Option::or", "Result::or")
def or_(k):
    return [(c, POS[v](p) if v in POS else k.args[1]) for c, v, p in tagged(k)]


@m("Option::filter")
def ofilter(k):
    out = []
    for c, v, p in tagged(k):
        if v != "Some":
            out.append((c, NONE))
            continue
        for c2, r in clos(k, c, k.args[1], p):
            for c3, b in k.e.decide(c2, k.e.val(c2, r)):
                out.append((c3, some(p) if b else NONE))
    return out


@m("Option::is_some_and", "Result::is_ok_and", "Option::is_none_or", "Result::is_err_and")
def is_some_and(k):
    out = []
    for c, v, p in tagged(k):
        hit = v == ("Err" if k.n.endswith("is_err_and") else v) and (v in POS) != k.n.endswith("is_err_and")
        if hit:
            out += clos(k, c, k.args[1], p)
        else:
            out.append((c, boolc(k.n.endswith("is_none_or"))))
    return out


@m("Option::map_or", "Result::map_or", "Option::map_or_else", "Result::map_or_else", "Option::map_or_default")
def map_or(k):
    out = []
    for c, v, p in tagged(k):
        if v in POS:
            out += clos(k, c, k.args[-1], p)
        elif k.n.endswith("default"):
            out.append((c, default_of(k, k.ty(1))))
        elif k.n.endswith("else"):
            out += clos(k, c, k.args[1], *([p] if v == "Err" else []))
        else:
            out.append((c, k.args[1]))
    return out


@m("Option::ok_or", "Option::ok_or_else")
def ok_or(k):
    out = []
    for c, v, p in tagged(k):
        if v == "Some":
            out.append((c, ok(p)))
        elif k.n.endswith("else"):
            out += [(c2, err(r)) for c2, r in clos(k, c, k.args[1])]
        else:
            out.append((c, err(k.args[1])))
    return out


@m("Result::ok", "Result::err")
def res_ok(k):
    w = "Ok" if k.n.endswith("ok") else "Err"
    out = []
    for c, v, p in tagged(k):
        if v == "Err":
            k.e.emit(c, "dropped_err", p) if w == "Ok" else None
        out.append((c, some(p) if v == w else NONE))
    return out


@m("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked", "Result::unwrap_err", "Result::expect_err")
def unwrap(k):
    out = []
    for c, v, p in tagged(k):
        good = (v in POS) != k.n.endswith("_err")
        if good:
            out.append((c, p))
        else:
            k.e.panic(c, "unwrap", k.e.val(c, k.args[0]))
    return out


def default_of(k, ty):
    kd = kindof(ty)
    if kd == "str":
        return C("str", "")
    if kd in ("vec", "map", "set"):
        return k.e.new_obj(k.cur, k.fr, ty[1])
    if kd == "opt":
        return NONE
    if ty[0] == "bool":
        return FALSE
    if ty[0] in ("int", "uint"):
        return C("int", 0)
    if ty[0] == "tuple":
        return tup(*[default_of(k, x) for x in ty[1:]])
    return app("default", t("zst", ty_str(ty)))


@m("Default::default", "mem::zeroed")
def default_(k):
    return k.ret(default_of(k, k.ty(0)))


@m("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or(k):
    out = []
    for c, v, p in tagged(k):
        if v in POS:
            out.append((c, p))
            continue
        if v == "Err":
            k.e.emit(c, "dropped_err", p)
        if k.n.endswith("_else"):
            out += clos(k, c, k.args[1], *([p] if v == "Err" else []))
        elif k.n.endswith("_default"):
            kk = K(k.e, c, k.fr, k.f, k.n, k.args, k.live)
            out.append((c, default_of(kk, k.ty(0))))
        else:
            out.append((c, k.args[1]))
    return out


@m("Option::take", "mem::take", "Option::replace", "mem::replace", "Option::insert")
def take(k):
    e, cur, a = k.e, k.cur, k.args[0]
    old = e.val(cur, a)
    if k.n.endswith("Option::take"):
        new = NONE
    elif k.n.endswith("mem::take"):
        new = default_of(k, k.ty(0))
    elif k.n.endswith("mem::replace"):
        new = k.args[1]
    else:
        new = some(k.args[1])
    if a.op == "ref":
        if old.op not in ("agg", "opt", "obj") and new is NONE:
            pass
        e.write(cur.st, a.a[0], a.a[1], new)
        if k.n.endswith("Option::insert"):
            return k.ret(ref(a.a[0], a.a[1] + (("@", "Some"), (0, "0"))))
        return k.ret(old)
    e.emit(cur, "assign", a, new)
    r = t("old", a)
    e.kill_mention(cur, a)
    return k.ret(r)


@m("mem::swap")
def swap(k):
    e, cur = k.e, k.cur
    a, b = k.args
    va, vb = e.val(cur, a), e.val(cur, b)
    for r, v in ((a, vb), (b, va)):
        if r.op == "ref":
            e.write(cur.st, r.a[0], r.a[1], v)
        else:
            e.emit(cur, "assign", r, v)
    return k.ret(UNIT)


@m("Option::get_or_insert_with", "Option::get_or_insert")
def get_or_insert(k):
    e, a = k.e, k.args[0]
    out = []
    for c, v, p in tagged(k):
        rs = [(c, None)]
        if v == "None":
            rs = clos(k, c, k.args[1]) if k.n.endswith("with") else [(c, k.args[1])]
            for c2, r in rs:
                if a.op == "ref":
                    e.write(c2.st, a.a[0], a.a[1], some(r))
        for c2, _ in rs:
            if a.op == "ref":
                out.append((c2, ref(a.a[0], a.a[1] + (("@", "Some"), (0, "0")))))
            else:
                out.append((c2, t("got", a)))
    return out


@m("Option::zip")
def ozip(k):
    out = []
    for c, v, p in tagged(k):
        if v == "None":
            out.append((c, NONE))
            continue
        for c2, v2, p2 in tag_opt(k, k.args[1], c):
            out.append((c2, some(tup(p, p2)) if v2 == "Some" else NONE))
    return out


@m("Option::flatten", "Result::flatten")
def oflat(k):
    return [(c, p if v in POS else (NONE if v == "None" else err(p))) for c, v, p in tagged(k)]


@m("Option::transpose", "Result::transpose")
def transpose(k):
    out = []
    for c, v, p in tagged(k):
        if "Option" in k.n:
            if v == "None":
                out.append((c, ok(NONE)))
            else:
                for c2, v2, p2 in tag_res(k, p, c):
                    out.append((c2, ok(some(p2)) if v2 == "Ok" else err(p2)))
        else:
            if v == "Err":
                out.append((c, some(err(p))))
            else:
                for c2, v2, p2 in tag_opt(k, p, c):
                    out.append((c2, some(ok(p2)) if v2 == "Some" else NONE))
    return out


CF = "std::ops::ControlFlow"


@m("Try::branch")
def branch(k):
    out = []
    x = k.v(0)
    ty = kindof(k.ty(0))
    if x.op == "agg" and x.a[1] == CF:
        return k.ret(x)
    cases = tag_opt(k, x, k.cur) if ty == "opt" else tag_res(k, x, k.cur)
    for c, v, p in cases:
        if v in POS:
            out.append((c, agg("adt", CF, "Continue", p)))
        else:
            out.append((c, agg("adt", CF, "Break", NONE if v == "None" else err(p))))
    return out


@m("Try::from_output")
def from_output(k):
    return k.ret(some(k.args[0]) if kindof(k.ty(0)) == "opt" else ok(k.args[0]))


@m("FromResidual::from_residual")
def from_residual(k):
    x = k.v(0)
    if x.op == "agg" and x.a[2] == "Err":
        dst = k.ty(0)
        src = k.ty(1)
        try:
            de, se = dst[3], src[3]
        except IndexError:
            return k.ret(x)
        b = k.e.prog.froms.get((ty_str(de), ty_str(se)))
        if b is not None and not b.derived and b.crate == k.e.crate and ty_str(de) != ty_str(se):
            return [(c, err(r)) for c, r in k.e.run_body(k.cur, b, [x.a[3]], k.fr)]
    return k.ret(x)


# ---------------------------------------------------------------- strings and formatting
def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            parts = x.a
        else:
            parts = (x,)
        for p in parts:
            if is_c(p, "char"):
                p = C("str", p.a[1])
            if is_c(p, "str") and p.a[1] == "":
                continue
            if out and is_c(p, "str") and is_c(out[-1], "str"):
                out[-1] = C("str", out[-1].a[1] + p.a[1])
            else:
                out.append(p)
    if not out:
        return C("str", "")
    if len(out) == 1:
        return out[0]
    return t("cat", *out)


@m("String::new", "String::with_capacity", "PathBuf::new")
def string_new(k):
    return k.ret(C("str", ""))


@m("String::push", "String::push_str", "PathBuf::push", "OsString::push")
def string_push(k):
    e, cur, a = k.e, k.cur, k.args[0]
    old, x = e.val(cur, a), k.v(1)
    e.emit(cur, "strpush", old, x)
    new = cat(old, x) if "String" in k.n else app("Path::join", old, x)
    if a.op == "ref":
        e.write(cur.st, a.a[0], a.a[1], new)
    else:
        e.emit(cur, "assign", a, new)
    return k.ret(UNIT)


@m("String::insert_str", "String::insert")
def string_insert(k):
    e, cur, a = k.e, k.cur, k.args[0]
    old, x = e.val(cur, a), k.v(2)
    i = k.v(1)
    new = cat(x, old) if is_c(i, "int") and i.a[1] == 0 else app("String::insert", old, i, x)
    if a.op == "ref":
        e.write(cur.st, a.a[0], a.a[1], new)
    return k.ret(UNIT)


@m("String::clear")
def string_clear(k):
    a = k.args[0]
    if a.op == "ref":
        k.e.write(k.cur.st, a.a[0], a.a[1], C("str", ""))
        return k.ret(UNIT)
    return None


@m("String::pop", "String::truncate", "String::remove", "String::drain")
def string_mut(k):
    e, cur, a = k.e, k.cur, k.args[0]
    if a.op != "ref":
        return None
    old = e.val(cur, a)
    new = app(k.n, old, *[k.v(i) for i in range(1, len(k.args))])
    e.write(cur.st, a.a[0], a.a[1], new)
    if k.n.endswith("pop"):
        return k.ret(t("opt", neg(t("empty", old)), app("lastchar", old)))
    return k.ret(app(k.n + ".ret", old))


def decode_template(b):
    out = []
    i = 0
    argi = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i : i + x].decode("utf-8", "replace"))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i : i + n].decode("utf-8", "replace"))
            i += n
        else:
            spec = []
            if x & 1:
                spec.append(("flags", bytes(b[i : i + 4]).hex()))
                i += 4
            if x & 2:
                spec.append(("width", bytes(b[i : i + 2]).hex()))
                i += 2
            if x & 4:
                spec.append(("prec", bytes(b[i : i + 2]).hex()))
                i += 2
            if x & 8:
                argi = b[i] | b[i + 1] << 8
                i += 2
            out.append((argi, tuple(spec)))
            argi += 1
    return out


def strlike(ty):
    while ty[0] == "ref":
        ty = ty[2]
    return kindof(ty) == "str" or ty[0] in ("str", "char") or ty_str(ty).startswith(("std::path::Display", "Display", "std::borrow::Cow"))


@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_lower_exp", "Argument::new_pointer", "Argument::from_usize")
def arg_display(k):
    x = k.v(0)
    kind = "disp" if k.n.endswith("display") else k.n.split("new_")[-1]
    kind = {"debug": "dbg"}.get(kind, kind)
    if kind == "disp" and strlike(k.ty(0)):
        return k.ret(x)
    if x.op in ("c",) and kind == "disp":
        return k.ret(C("str", str(x.a[1])))
    return k.ret(disp(k, kind, x))


def disp(k, kind, x):
    if kind == "disp" and x.op in ("cat", "disp", "dbg"):
        return x
    return t(kind, x)


@m("Arguments::new", "Arguments::new_v1", "Arguments::new_const")
def args_new(k):
    tm, av = k.v(0), k.v(1) if len(k.args) > 1 else None
    if not is_c(tm, "bytes") or (av is not None and not is_agg(av, "array")):
        return None
    arr = fields(av) if av is not None else ()
    out = []
    for p in decode_template(tm.a[1]):
        if isinstance(p, str):
            out.append(C("str", p))
        else:
            i, spec = p
            x = k.e.val(k.cur, arr[i])
            out.append(x if not spec or x.op == "dbg" else t("spec", x, str(spec)))
    return k.ret(cat(*out))


@m("Arguments::from_str", "Arguments::as_str", "Arguments::from_str_nonconst")
def args_str(k):
    if k.n.endswith("as_str"):
        return None
    return k.ret(k.v(0))


@m("fmt::format", "Record::args")
def fmt_format(k):
    return k.ret(k.v(0))


@m("ToString::to_string", "SpecToString::spec_to_string")
def to_string(k):
    x = k.v(0)
    if strlike(k.ty(0)):
        return k.ret(x)
    if is_c(x):
        return k.ret(C("str", str(x.a[1])))
    return k.ret(disp(k, "disp", x))


@m("str::is_empty", "String::is_empty")
def str_empty(k):
    return k.ret(t("empty", k.v(0)))


@m("str::len", "String::len")
def str_len(k):
    x = k.v(0)
    if is_c(x, "str"):
        return k.ret(C("int", len(x.a[1].encode())))
    return k.ret(t("len", x))


@m("str::trim", "str::trim_end", "str::trim_start", "str::trim_left", "str::trim_right")
def trim(k):
    x = k.v(0)
    fn = k.n.split("::")[-1]
    if x.op == "app" and x.a[0] in (fn, "trim"):
        return k.ret(x)
    return k.ret(app(fn, x))


@m("str::starts_with", "str::ends_with", "str::contains", "str::trim_matches", "str::trim_end_matches", "str::trim_start_matches", "str::replace", "str::replacen", "str::to_lowercase", "str::to_uppercase", "str::repeat", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::find", "str::rfind", "slice::join", "slice::concat", "str::eq")
def strfn(k):
    vals = [k.v(i) for i in range(len(k.args))]
    for v in vals[1:]:
        if is_agg(v, "closure"):
            return k.ret(app(k.n.split("::")[-1], vals[0], t("zst", v.a[1])))
    vals = [C("str", v.a[1]) if is_c(v, "char") else v for v in vals]
    fn = k.n.split("::")[-1]
    if fn in ("find", "rfind"):
        return k.ret(t("opt", app("contains", *vals), app(fn, *vals)))
    return k.ret(app(fn, *vals))


@m("Join::join")
def joinfn(k):
    return k.ret(app("join", k.v(0), k.v(1)))


@m("str::strip_prefix", "str::strip_suffix")
def strip(k):
    x, p = k.v(0), k.v(1)
    if is_c(p, "char"):
        p = C("str", p.a[1])
    fn = "starts_with" if "prefix" in k.n else "ends_with"
    return k.ret(t("opt", app(fn, x, p), app(k.n.split("::")[-1], x, p)))


@m("str::parse", "FromStr::from_str")
def parse(k):
    ty = k.ty(0)
    x = k.v(0)
    if kindof(ty) == "str":
        return k.ret(ok(x))
    return k.ret(app("parse", x))


@m("str::split", "str::lines", "str::split_whitespace", "str::chars", "str::bytes", "str::char_indices", "str::splitn", "str::rsplit", "str::split_terminator", "str::rsplitn", "str::split_inclusive", "str::matches")
def split(k):
    vals = [k.v(i) for i in range(len(k.args))]
    vals = [C("str", v.a[1]) if is_c(v, "char") else v for v in vals]
    return k.ret(new_it(k, app(k.n.split("::")[-1], *vals), "vec"))


@m("str::split_once", "str::rsplit_once")
def split_once(k):
    x, p = k.v(0), k.v(1)
    if is_c(p, "char"):
        p = C("str", p.a[1])
    fn = k.n.split("::")[-1]
    return k.ret(t("opt", app("contains", x, p), tup(app(fn + ".0", x, p), app(fn + ".1", x, p))))


# ---------------------------------------------------------------- paths
@m("Path::join")
def pjoin(k):
    return k.ret(app("Path::join", k.v(0), k.v(1)))


@m("Path::is_absolute", "Path::is_relative")
def isabs(k):
    x = app("is_absolute", k.v(0))
    return k.ret(x if k.n.endswith("absolute") else neg(x))


@m("Path::parent", "Path::file_stem", "Path::file_name", "Path::extension")
def pparent(k):
    fn = k.n.split("::")[-1]
    return k.ret(t("opt", app("has_" + fn, k.v(0)), app(fn, k.v(0))))


# ---------------------------------------------------------------- regex
@m("Regex::new")
def regex_new(k):
    x = k.v(0)
    if is_c(x, "str"):
        return k.ret(ok(app("Regex", x)))
    return None


@m("Regex::is_match")
def is_match(k):
    return k.ret(t("match", k.v(0), k.v(1)))


@m("Regex::captures", "Regex::find")
def captures(k):
    re_, s = k.v(0), k.v(1)
    return k.ret(t("opt", t("match", re_, s), t("caps", re_, s)))


@m("Regex::captures_iter", "Regex::find_iter")
def captures_iter(k):
    return k.ret(new_it(k, app(k.n, k.v(0), k.v(1)), "vec"))


@m("Captures::get", "Captures::name")
def cap_get(k):
    c, i = k.v(0), k.v(1)
    if required_group(c, i):
        return k.ret(some(t("cap", c, i)))
    return k.ret(t("opt", t("capset", c, i), t("cap", c, i)))


@m("Captures::extract")
def cap_extract(k):
    return k.ret(app("capextract", k.v(0)))


def regex_groups(pat):
    """[(index, name, required)] of the capture groups of a regex literal; None if not understood"""
    out = {}
    st = []
    n = 0
    i = 0
    incls = False
    alt = False
    while i < len(pat):
        ch = pat[i]
        if ch == "\\":
            i += 2
            continue
        if incls:
            if ch == "]":
                incls = False
            i += 1
            continue
        if ch == "[":
            incls = True
            i += 1
            if pat[i : i + 1] == "^":
                i += 1
            if pat[i : i + 1] == "]":
                i += 1
            continue
        if ch == "(":
            mm = re.match(r"\(\?(?:P?<(\w+)>|[a-zA-Z-]*:)", pat[i:])
            if mm:
                if mm.group(1):
                    n += 1
                    st.append((n, mm.group(1)))
                else:
                    st.append((None, None))
                i += mm.end()
            elif pat.startswith("(?", i):
                st.append((None, None))
                i += 2
            else:
                n += 1
                st.append((n, None))
                i += 1
            out_open = st[-1]
            if out_open[0]:
                out[out_open[0]] = [out_open[1], True, [s[0] for s in st[:-1]], len(st)]
            st[-1] = st[-1] + (i,)
            continue
        if ch == ")":
            idx, nm, start = st.pop()
            i += 1
            q = pat[i : i + 1]
            optional = q in ("?", "*") or pat[i : i + 2] == "{0"
            if optional or "|" in pat[start:i]:
                for g, d in out.items():
                    # groups opened inside [start, i)
                    pass
                inside = regex_count(pat[:start]), regex_count(pat[:i])
                for g in list(out):
                    lo, hi = inside
                    own = idx is not None and g == idx
                    if (g > lo and g <= hi) or own:
                        if own and not optional:
                            continue
                        out[g][1] = False
            continue
        if ch == "|" and not st:
            alt = True
        i += 1
    if alt:
        for g in out:
            out[g][1] = False
    return {g: (d[0], d[1]) for g, d in out.items()}


def regex_count(p):
    n = 0
    i = 0
    incls = False
    while i < len(p):
        if p[i] == "\\":
            i += 2
            continue
        if incls:
            if p[i] == "]":
                incls = False
        elif p[i] == "[":
            incls = True
            if p[i + 1 : i + 2] == "^":
                i += 1
            if p[i + 1 : i + 2] == "]":
                i += 1
        elif p[i] == "(" and (p[i + 1 : i + 2] != "?" or re.match(r"\(\?P?<\w", p[i:])):
            n += 1
        i += 1
    return n


def required_group(caps, i):
    if caps.op != "caps" or not (caps.a[0].op == "app" and caps.a[0].a[0] == "Regex"):
        return False
    g = regex_groups(caps.a[0].a[1].a[1])
    if is_c(i, "int"):
        return i.a[1] == 0 or (i.a[1] in g and g[i.a[1]][1])
    if is_c(i, "str"):
        return any(nm == i.a[1] and req for nm, req in g.values())
    return False


@m("Lazy::get", "LazyLock::force", "OnceLock::get_or_init", "OnceCell::get_or_init", "LazyCell::force")
def lazy(k):
    if len(k.args) > 1:
        return clos(k, k.cur, k.args[1])
    return None


# ---------------------------------------------------------------- closures
@m("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def fncall(k):
    a = k.v(1)
    args = list(fields(a)) if is_agg(a, "tuple") else [a]
    return k.e.closure(k.cur, k.args[0], args, k.fr)


# ---------------------------------------------------------------- containers
@m("Vec::new", "Vec::with_capacity", "BTreeMap::new", "BTreeSet::new", "HashMap::new", "HashSet::new", "VecDeque::new", "HashMap::with_capacity", "HashSet::with_capacity", "VecDeque::with_capacity")
def cnew(k):
    parts = k.n.split("::")
    return k.ret(k.e.new_obj(k.cur, k.fr, "::".join(parts[:-1])))


@m("Vec::is_empty", "slice::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty", "HashMap::is_empty", "HashSet::is_empty", "VecDeque::is_empty", "Punctuated::is_empty")
def cempty(k):
    x = k.v(0)
    return k.ret(t("empty", x))


@m("Vec::len", "slice::len", "BTreeMap::len", "BTreeSet::len", "HashMap::len", "HashSet::len", "VecDeque::len", "Punctuated::len", "ExactSizeIterator::len")
def clen(k):
    x = k.v(0)
    if x.op == "it":
        return None
    return k.ret(k.e.snapshot_len(k.cur, k.fr, x))


@m("Vec::push", "VecDeque::push_back", "VecDeque::push_front", "BinaryHeap::push")
def vpush(k):
    tg = k.v(0)
    k.e.emit(k.cur, "push", tg, k.v(1))
    k.e.touched(k.cur, tg, "grow")
    return k.ret(UNIT)


@m("Vec::insert")
def vinsert(k):
    tg = k.v(0)
    k.e.emit(k.cur, "placed", tg, k.v(1))
    k.e.emit(k.cur, "push", tg, k.v(2))
    k.e.touched(k.cur, tg, "grow")
    return k.ret(UNIT)


@m("Vec::append", "BTreeMap::append", "BTreeSet::append")
def vappend(k):
    # like extend(drain(..))
    src = k.v(1)
    kd = "map" if "Map" in k.n else "set" if "Set" in k.n else "vec"
    it = new_it(k, src, kd)
    out = extend_with(k, k.v(0), it, kd)
    for c, _ in out:
        k.e.emit(c, "clear", src, k.v(0))
        k.e.touched(c, src, "other")
    return out


@m("Vec::clear", "BTreeMap::clear", "BTreeSet::clear", "HashMap::clear", "HashSet::clear", "Vec::truncate")
def cclear(k):
    tg = k.v(0)
    k.e.emit(k.cur, "clear", tg)
    k.e.touched(k.cur, tg, "other")
    return k.ret(UNIT)


@m("Vec::pop", "Vec::remove", "Vec::swap_remove", "VecDeque::pop_front", "VecDeque::pop_back", "BTreeMap::pop_first", "BTreeMap::pop_last", "BTreeSet::pop_first", "BTreeSet::pop_last")
def vpop(k):
    e, cur = k.e, k.cur
    tg = k.v(0)
    out = []
    if "pop" in k.n:
        for c, b in e.decide(cur, t("empty", tg)):
            if b:
                out.append((c, NONE))
            else:
                x = e.fresh(c, k.fr, k.n, tg)
                e.emit(c, "pop", tg, x)
                e.touched(c, tg, "other")
                out.append((c, some(x)))
        return out
    x = e.fresh(cur, k.fr, k.n, tg)
    e.emit(cur, "pop", tg, x)
    e.touched(cur, tg, "other")
    return [(cur, x)]


@m("Vec::drain", "BTreeMap::drain", "HashMap::drain", "HashSet::drain", "Vec::split_off")
def vdrain(k):
    tg = k.v(0)
    it = new_it(k, t("old", tg), "map" if "Map" in k.n else "vec")
    k.e.emit(k.cur, "clear", tg)
    k.e.touched(k.cur, tg, "other")
    return k.ret(it)


@m("slice::first", "slice::last", "BTreeMap::first_key_value", "BTreeMap::last_key_value", "BTreeSet::first", "BTreeSet::last", "VecDeque::front", "VecDeque::back", "slice::first_mut", "slice::last_mut", "VecDeque::back_mut", "VecDeque::front_mut")
def vfirst(k):
    e, cur = k.e, k.cur
    tg = k.v(0)
    fn = k.n.split("::")[-1].replace("_mut", "")
    out = []
    for c, b in e.decide(cur, t("empty", tg)):
        if b:
            out.append((c, NONE))
        elif tg.op == "obj":
            out.append((c, some(e.fresh(c, k.fr, fn, tg))))
        else:
            out.append((c, some(app(fn, tg))))
    return out


LIST_GET = ("slice::get", "slice::get_mut", "VecDeque::get")


@m(*LIST_GET)
def vget(k):
    x, i = k.v(0), k.v(1)
    return k.ret(t("opt", t("inrange", x, i), k.e.at(k.cur, x, i)))


@m("slice::contains", "Vec::contains", "VecDeque::contains")
def vcontains(k):
    x, y = k.v(0), k.v(1)
    if is_agg(x, "array"):
        r = FALSE
        for f_ in fields(x):
            r = k.e.binop2(k.cur, "BitOr", r, k.e.eqterm(f_, y))
        return k.ret(r)
    return drive_any(k, new_it(k, x, "vec"), lambda c, v: k.e.eq_split(c, v, y))


@m("BTreeMap::get", "HashMap::get", "BTreeMap::get_mut", "HashMap::get_mut")
def mget(k):
    x, key = k.v(0), k.v(1)
    return k.ret(t("opt", t("has", x, key), t("get", x, key)))


@m("BTreeMap::get_key_value", "HashMap::get_key_value")
def mgetkv(k):
    x, key = k.v(0), k.v(1)
    return k.ret(t("opt", t("has", x, key), tup(key, t("get", x, key))))


@m("BTreeMap::contains_key", "HashMap::contains_key", "BTreeSet::contains", "HashSet::contains")
def mhas(k):
    return k.ret(t("has", k.v(0), k.v(1)))


@m("BTreeSet::get", "HashSet::get")
def sget(k):
    return k.ret(t("opt", t("has", k.v(0), k.v(1)), k.v(1)))


@m("BTreeMap::insert", "HashMap::insert")
def minsert(k):
    e = k.e
    tg, key, val = k.v(0), k.v(1), k.v(2)
    out = []
    if k.live:
        for c, b in e.decide(k.cur, t("has", tg, key)):
            r = some(t("old", t("get", tg, key))) if b else NONE
            e.emit(c, "insert", tg, key, e.val(c, val))
            e.touched(c, tg, "insert", key)
            out.append((c, r))
        return out
    e.emit(k.cur, "insert", tg, key, val)
    e.touched(k.cur, tg, "insert", key)
    return k.ret(NONE)


@m("BTreeSet::insert", "HashSet::insert", "BTreeSet::replace", "HashSet::replace")
def sinsert(k):
    e = k.e
    tg, key = k.v(0), k.v(1)
    out = []
    if k.live:
        for c, b in e.decide(k.cur, t("has", tg, key)):
            e.emit(c, "insert", tg, key, UNIT)
            e.touched(c, tg, "insert", key)
            out.append((c, boolc(not b)))
        return out
    e.emit(k.cur, "insert", tg, key, UNIT)
    e.touched(k.cur, tg, "insert", key)
    return k.ret(TRUE)


@m("BTreeMap::remove", "HashMap::remove", "BTreeSet::remove", "HashSet::remove", "BTreeSet::take", "HashSet::take", "BTreeMap::remove_entry", "HashMap::remove_entry")
def mremove(k):
    e = k.e
    tg, key = k.v(0), k.v(1)
    isset = "Set::remove" in k.n
    if not k.live:
        e.emit(k.cur, "remove", tg, key)
        e.touched(k.cur, tg, "remove", key)
        return k.ret(t("sym", "unused"))
    out = []
    for c, b in e.decide(k.cur, t("has", tg, key)):
        if b:
            e.emit(c, "remove", tg, key)
            e.touched(c, tg, "remove", key)
        r = boolc(b) if isset else (some(t("old", t("get", tg, key)) if "Map" in k.n else key) if b else NONE)
        out.append((c, r))
    return out


@m("BTreeMap::entry", "HashMap::entry")
def mentry(k):
    return k.ret(t("entry", k.v(0), k.v(1)))


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def or_insert(k):
    e = k.e
    x = k.v(0)
    if x.op in ("agg",):
        x = x.a[3]
    tg, key = x.a[0], x.a[1]
    out = []
    for c, b in e.decide(k.cur, t("has", tg, key)):
        if b:
            out.append((c, t("get", tg, key)))
            continue
        if k.n.endswith("or_insert"):
            rs = [(c, k.args[1])]
        elif k.n.endswith("or_default"):
            kk = K(e, c, k.fr, k.f, k.n, k.args, True)
            a = [x for x in k.f["args"] if x[0] != "other"]
            rs = [(c, default_of(kk, k.f["args"][1] if len(k.f["args"]) > 1 else ["other", "?"]))]
        else:
            rs = clos(k, c, k.args[1], *([key] if k.n.endswith("key") else []))
        for c2, r in rs:
            r = e.val(c2, r)
            e.emit(c2, "insert", tg, key, r)
            e.touched(c2, tg, "insert", key)
            out.append((c2, r if r.op == "obj" else t("get", tg, key)))
    return out


@m("Entry::and_modify")
def and_modify(k):
    e = k.e
    x = k.v(0)
    out = []
    for c, b in e.decide(k.cur, t("has", *x.a)):
        if b:
            out += [(c2, x) for c2, _ in clos(k, c, k.args[1], t("get", *x.a))]
        else:
            out.append((c, x))
    return out


@m("Entry::key", "OccupiedEntry::key", "VacantEntry::key", "VacantEntry::into_key")
def ekey(k):
    return k.ret(k.v(0).a[1])


@m("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def occ_get(k):
    x = k.v(0)
    if x.op == "occ":
        return k.ret(t("get", *x.a))
    return None


@m("OccupiedEntry::insert", "VacantEntry::insert", "VacantEntry::insert_entry", "OccupiedEntry::remove", "OccupiedEntry::remove_entry", "Entry::insert_entry")
def vac_insert(k):
    x = k.v(0)
    if x.op not in ("occ", "vac", "entry"):
        return None
    tg, key = x.a
    e = k.e
    if "remove" in k.n:
        e.emit(k.cur, "remove", tg, key)
        e.touched(k.cur, tg, "remove", key)
        return k.ret(t("old", t("get", tg, key)))
    v = k.v(1)
    e.emit(k.cur, "insert", tg, key, v)
    e.touched(k.cur, tg, "insert", key)
    return k.ret(v if v.op == "obj" else t("get", tg, key))


@m("Index::index", "IndexMut::index_mut")
def index(k):
    e, cur = k.e, k.cur
    x, i = k.v(0), k.v(1)
    ty = k.ty(0)
    kd = kindof(ty)
    if x.op == "caps":
        if not required_group(x, i):
            out = []
            for c, b in e.decide(cur, t("capset", x, i)):
                if b:
                    out.append((c, t("cap", x, i)))
                else:
                    e.panic(c, "index", x, i)
            return out
        return k.ret(t("cap", x, i))
    if kd == "map":
        out = []
        for c, b in e.decide(cur, t("has", x, i)):
            if b:
                out.append((c, t("get", x, i)))
            else:
                e.panic(c, "index", x, i)
        return out
    if is_agg(i, "adt") and "Range" in i.a[1]:
        c = cur.fork()
        if "RangeFull" not in i.a[1]:
            e.panic(c, "slice_str" if kd == "str" else "slice", x, i)
            return k.ret(app("slice", x, i))
        return k.ret(x)
    if i.op == "zst" and "RangeFull" in i.a[0]:
        return k.ret(x)
    r = e.at(cur, x, i)
    if r.op != "at":
        return k.ret(r)
    if in_bounds(k, x, i):
        return k.ret(r)
    if is_c(i, "int"):
        for y in sizes(k, x):
            b = e.implied(cur.st.facts, t("lt", i, y))
            if b is True:
                return k.ret(r)
            if b is False:
                e.panic(cur, "index_out", x, i, y)
                return []
    c = cur.fork()
    e.panic(c, "index", x, i)
    return k.ret(r)


def sizes(k, x):
    """the known sizes of x that are still current"""
    if x.op != "obj":
        return [t("len", x)]
    return [t("len", x, kk[1]) for kk, w in k.cur.st.ob.items() if kk.__class__ is tuple and kk[0] == "len" and kk[2] is x and w == "same"]


def in_bounds(k, x, i):
    """x[i] cannot fail given the path facts"""
    f = k.cur.st.facts
    e = k.e
    if is_c(i, "int"):
        n = i.a[1]
        if n == 0 and (f.get(t("empty", x)) is False or k.cur.st.ob.get(x) == "N"):
            return True
        for a, v in f.items():
            if v is True and a.op == "eq":
                for p, q in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                    if p.op == "len" and p.a[0] is x and is_c(q, "int") and q.a[1] > n:
                        return True
            if v is True and a.op == "lt" and is_c(a.a[0], "int") and a.a[1].op == "len" and a.a[1].a[0] is x and a.a[0].a[1] >= n:
                return True
            if v is False and a.op == "lt" and is_c(a.a[1], "int") and a.a[0].op == "len" and a.a[0].a[0] is x and a.a[1].a[1] > n:
                return True
    else:
        for a, v in f.items():
            if v is True and a.op == "lt" and a.a[0] is i and a.a[1].op == "len" and a.a[1].a[0] is x:
                return True
    return False


@m("slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key", "slice::reverse", "Vec::dedup", "Vec::reserve", "Vec::shrink_to_fit", "Vec::dedup_by_key", "Vec::dedup_by", "slice::swap", "slice::rotate_left", "slice::fill")
def vsort(k):
    tg = k.v(0)
    fn = k.n.split("::")[-1]
    if fn in ("reserve", "shrink_to_fit"):
        return k.ret(UNIT)
    k.e.emit(k.cur, "reorder" if "dedup" not in fn and fn != "fill" else "mut", tg, C("str", fn), *[k.v(i) for i in range(1, len(k.args))])
    if "dedup" in fn:
        k.e.touched(k.cur, tg, "other")
    return k.ret(UNIT)


@m("Vec::retain", "Vec::retain_mut", "BTreeMap::retain", "BTreeSet::retain", "HashMap::retain", "HashSet::retain")
def retain(k):
    e = k.e
    tg = k.v(0)
    kd = "map" if "Map" in k.n else "vec"
    it = new_it(k, tg, kd)

    def step(c, acc, v):
        out = []
        args = list(fields(v)) if kd == "map" else [v]
        for c2, r in clos(k, c, k.args[1], *args):
            for c3, b in e.decide(c2, e.val(c2, r)):
                e.emit(c3, "keep" if b else "discard", tg, v)
                out.append((c3, UNIT, False))
        return out

    out = drive(k, it, UNIT, step)
    for c, _ in out:
        e.emit(c, "retained", tg)
        e.touched(c, tg, "other")
    return out


@m("BTreeMap::keys", "HashMap::keys", "BTreeMap::into_keys", "HashMap::into_keys")
def mkeys(k):
    return k.ret(new_it(k, k.v(0), "k"))


@m("BTreeMap::values", "HashMap::values", "BTreeMap::into_values", "HashMap::into_values", "BTreeMap::values_mut", "HashMap::values_mut")
def mvalues(k):
    return k.ret(new_it(k, k.v(0), "v"))


@m("BTreeMap::iter", "HashMap::iter", "BTreeMap::iter_mut", "HashMap::iter_mut")
def miter(k):
    return k.ret(new_it(k, k.v(0), "map"))


@m("slice::iter", "slice::iter_mut", "Vec::iter", "BTreeSet::iter", "HashSet::iter", "VecDeque::iter", "VecDeque::iter_mut", "Punctuated::iter")
def viter(k):
    x = k.v(0)
    if x.op == "it":
        return None
    return k.ret(new_it(k, x, "vec"))


@m("Option::iter", "Option::iter_mut", "Result::iter")
def optiter(k):
    return k.ret(t("it", "opt", k.v(0)))


@m("BTreeSet::difference", "BTreeSet::intersection", "BTreeSet::union", "HashSet::difference", "HashSet::intersection", "HashSet::union")
def setop(k):
    e = k.e
    fn = k.n.split("::")[-1]
    a, b = k.v(0), k.v(1)
    it = new_it(k, a, "vec")
    if fn == "union":
        return k.ret(t("it", "chain", it, t("it", "setminus", new_it(k, b, "vec", 1), a, FALSE), FALSE))
    return k.ret(t("it", "setminus", it, b, boolc(fn == "intersection")))


# ---------------------------------------------------------------- iterators
def new_it(k, src, kd, extra=0):
    e = k.e
    src = e.val(k.cur, src)
    if src.op == "it":
        return src
    if is_agg(src, "array"):
        return t("it", "list", *fields(src))
    s = e.site(k.fr, ("i", extra))
    e.advance(k.cur, s, False)
    for x in (t("started", s), t("round1", s), t("first", s, src)):
        setfact(k.cur, x)
    e.emit(k.cur, "begin", s, src)
    e.iter_sites[s] = e.loc
    if src.op == "obj" and e.emptiness(k.cur, src) is False:
        # at least one round
        setfact(k.cur, t("first", s, src), True)
    return t("it", "src", s, src, kd)


@m("IntoIterator::into_iter")
def into_iter(k):
    a = k.args[0]
    x = k.v(0)
    if x.op == "it":
        return k.ret(a if a.op != "ref" else t("it", "ref", a))
    ty = k.ty(0)
    kd = kindof(ty)
    if is_agg(x, "adt") and "ops::Range" in x.a[1]:
        return k.ret(range_it(k, x))
    if kd in ("opt", "res"):
        return k.ret(t("it", "opt", x))
    if kd in ("map", "set", "vec"):
        return k.ret(new_it(k, x, "map" if kd == "map" else "vec"))
    # a library iterator (or a crate-local one, which is not supported)
    return k.ret(new_it(k, x, "vec"))


def range_it(k, x):
    lo, hi = (x.a[3], x.a[4]) if len(x.a) > 4 else (x.a[3], None)
    if "RangeFrom" in x.a[1]:
        hi = None
    if hi is not None and hi.op == "len" and is_c(lo, "int") and lo.a[1] == 0 and "Inclusive" not in x.a[1]:
        it = new_it(k, hi.a[0], "idx")
        return it
    return new_it(k, app("range", lo, hi if hi is not None else UNIT, boolc("Inclusive" in x.a[1])), "vec")


@m("RangeInclusive::new")
def range_incl(k):
    return k.ret(agg("adt", "std::ops::RangeInclusive", "RangeInclusive", k.v(0), k.v(1)))


@m("iter::once")
def once(k):
    return k.ret(t("it", "list", k.args[0]))


@m("iter::empty")
def iempty(k):
    return k.ret(t("it", "list"))


@m("iter::zip")
def izip(k):
    a = new_it(k, k.v(0), iter_kind(k.ty(0)), 1)
    b = new_it(k, k.v(1), iter_kind(k.ty(1)), 2)
    return k.ret(t("it", "zip", a, b))


@m("iter::from_fn", "iter::successors", "iter::repeat", "iter::repeat_with")
def from_fn(k):
    fn = k.n.split("::")[-1]
    if fn == "from_fn":
        return k.ret(t("it", "fn", k.args[0]))
    if fn == "repeat":
        return k.ret(t("it", "repeat", k.args[0]))
    if fn == "successors":
        return k.ret(t("it", "succ", k.args[0], k.args[1]))
    return None


@m("BufRead::lines", "BufRead::split", "io::Read::bytes")
def lines(k):
    return k.ret(new_it(k, app("lines", k.v(0)), "vec"))


def iter_kind(ty):
    kd = kindof(ty)
    return "map" if kd == "map" else "vec"


def asit(k, i, extra=0, ty=None):
    """argument i as iterator term"""
    a = k.args[i]
    x = k.e.val(k.cur, a)
    if x.op == "it":
        if a.op == "ref":
            return t("it", "ref", a)
        return x
    ty = ty or k.ty(i)
    if kindof(ty) in ("opt", "res"):
        return t("it", "opt", x)
    if is_agg(x, "adt") and "ops::Range" in x.a[1]:
        return range_it(k, x)
    return new_it(k, x, iter_kind(ty), extra)


ADAPT1 = {"map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while"}


@m(
    "Iterator::map",
    "Iterator::filter",
    "Iterator::filter_map",
    "Iterator::inspect",
    "Iterator::take_while",
    "Iterator::skip_while",
    "Iterator::map_while",
)
def adapt1(k):
    return k.ret(t("it", k.n.split("::")[-1], asit(k, 0), k.args[1]))


@m("Iterator::flat_map")
def flat_map(k):
    return k.ret(t("it", "flatten", t("it", "map", asit(k, 0), k.args[1]), UNIT, 0))


@m("Iterator::flatten")
def flatten(k):
    return k.ret(t("it", "flatten", asit(k, 0), UNIT, 0))


@m("Iterator::enumerate", "Iterator::rev", "Iterator::cloned", "Iterator::copied", "Iterator::fuse", "Iterator::by_ref", "Iterator::peekable", "Iterator::cycle")
def adapt0(k):
    fn = k.n.split("::")[-1]
    it = asit(k, 0)
    if fn in ("fuse",):
        return k.ret(it)
    if fn == "by_ref":
        return k.ret(k.args[0])
    if fn in ("cloned", "copied"):
        return k.ret(it)
    if fn == "rev":
        for y in it.subs:
            if y.op == "it" and y.a[0] == "src":
                k.e.emit(k.cur, "backward", y.a[2])
        return k.ret(t("it", "rev", it))
    if fn == "enumerate":
        return k.ret(t("it", "enumerate", it))
    if fn == "peekable":
        return k.ret(t("it", "peek", it, UNIT))
    return k.ret(t("it", fn, it))


@m("Iterator::zip", "Iterator::chain")
def adapt2(k):
    fn = k.n.split("::")[-1]
    if fn == "zip":
        # numbering with an endless range
        for i in (1, 0):
            r = k.v(i)
            if is_agg(r, "adt") and "RangeFrom" in r.a[1] and is_c(r.a[3], "int"):
                return k.ret(t("it", "number", asit(k, 1 - i, 1 - i, None if i else k.ty(1)), r.a[3], boolc(i == 1)))
    a = asit(k, 0)
    b = asit(k, 1, 1, k.ty(1))
    if fn == "zip":
        return k.ret(t("it", "zip", a, b))
    return k.ret(t("it", "chain", a, b, FALSE))


@m("Iterator::skip", "Iterator::take", "Iterator::step_by")
def adaptn(k):
    return k.ret(t("it", k.n.split("::")[-1], asit(k, 0), k.v(1)))


def term_kind(e, v):
    """container kind of a field, if all fields of its name agree"""
    if v.op == "obj":
        return kindof(["adt", v.a[1]]) if len(v.a) > 1 and isinstance(v.a[1], str) else None
    if v.op != "fld":
        return None
    ks = {kindof(f[1]) for a in e.prog.adts.values() for w in a["variants"] for f in w["fields"] if f[0] == v.a[1]}
    return next(iter(ks)) if len(ks) == 1 else None


def yielded_kind(e, it):
    """container kind of what an iterator yields, if a closure says so"""
    while it.op == "it" and it.a[0] in ("filter", "inspect", "rev", "skip", "take"):
        it = it.a[1]
    if it.op == "it" and it.a[0] in ("map", "filter_map", "map_while"):
        clo = it.a[2]
        if is_agg(clo, "closure"):
            b = e.prog.bodies.get(e.crate + clo.a[1])
            if b is not None:
                ty = peel(b.locals[0][0])
                return kindof(ty[2]) if ty[0] == "adt" and ty[1] == OPTION and len(ty) > 2 else kindof(ty)
    return None


def pull(k, cur, it):
    """[(cur, new iterator, value | None | SKIP)]"""
    e = k.e
    kind = it.a[0]
    if kind == "src":
        _, s, src, kd = it.a
        out = []
        em = e.emptiness_soft(cur, src)
        # exhausted
        if not setfact(cur, t("first", s, src)):
            c = cur.fork()
            e.advance(c, s, False)
            e.emit(c, "iterend", s, src)
            out.append((c, it, None))
        if em is not True:
            e.emit(cur, "advance", s)
            e.advance(cur, s, False)
            E = t("elem", s, src)
            e.emit(cur, "elem", s, src, E)
            if kd == "map":
                v = tup(t("key", E), t("val", E))
            elif kd == "k":
                v = t("key", E)
            elif kd == "v":
                v = t("val", E)
            elif kd == "idx":
                v = t("idx", E)
            else:
                v = E
            out.append((cur, it, v))
        return out
    if kind == "list":
        if len(it.a) == 1:
            return [(cur, it, None)]
        return [(cur, t("it", "list", *it.a[2:]), it.a[1])]
    if kind == "opt":
        out = []
        x = it.a[1]
        first = "Ok" if (x.op == "agg" and x.a[2] in ("Ok", "Err")) else "Some"
        for c, v in e.variants(cur, x, ["Some", "None"] if first == "Some" else ["Ok", "Err"]):
            if v in POS:
                out.append((c, t("it", "list"), payload(e, c, x, v)))
            else:
                out.append((c, t("it", "list"), None))
        return out
    if kind == "ref":
        a = it.a[1]
        inner = e.val(cur, a)
        out = []
        for c, i2, v in pull(k, cur, inner):
            e.write(c.st, a.a[0], a.a[1], i2)
            out.append((c, it, v))
        return out
    if kind == "setminus":
        inner, other, want = it.a[1:]
        out = []
        for c, i2, v in pull(k, cur, inner):
            n = t("it", "setminus", i2, other, want)
            if v is None or v is SKIP:
                out.append((c, n, v))
            else:
                for c2, b in e.decide(c, t("has", other, v)):
                    out.append((c2, n, v if b == (want is TRUE) else SKIP))
        return out
    if kind in ("map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while"):
        inner, clo = it.a[1], it.a[2]
        out = []
        for c, i2, v in pull(k, cur, inner):
            n = t("it", kind, i2, clo)
            if v is None or v is SKIP:
                out.append((c, n, v))
                continue
            for c2, r in clos(k, c, clo, v):
                r = e.val(c2, r)
                if kind == "map":
                    out.append((c2, n, r))
                elif kind == "inspect":
                    out.append((c2, n, v))
                elif kind in ("filter", "take_while", "skip_while"):
                    for c3, b in e.decide(c2, r):
                        if kind == "filter":
                            out.append((c3, n, v if b else SKIP))
                        elif kind == "take_while":
                            out.append((c3, n, v) if b else (c3, t("it", "list"), None))
                            if not b:
                                e.emit(c3, "cut", C("str", kind))
                        else:
                            if b:
                                e.emit(c3, "cut", C("str", kind))
                            out.append((c3, n, SKIP) if b else (c3, i2, v))
                else:
                    for c3, vv, p in tag_opt(k, r, c2):
                        if vv == "Some":
                            out.append((c3, n, p))
                        elif kind == "filter_map":
                            out.append((c3, n, SKIP))
                        else:
                            e.emit(c3, "cut", C("str", kind))
                            out.append((c3, t("it", "list"), None))
        return out
    if kind == "flatten":
        inner, active, lvl = it.a[1:]
        out = []
        if active is not UNIT:
            for c, a2, v in pull(k, cur, active):
                if v is None:
                    out.append((c, t("it", "flatten", inner, UNIT, lvl), SKIP))
                else:
                    out.append((c, t("it", "flatten", inner, a2, lvl), v))
            return out
        # the outer element must survive while its inner iterator runs
        for c, i2, v in pull(k, cur, inner):
            if v is None or v is SKIP:
                out.append((c, t("it", "flatten", i2, UNIT, lvl), v))
                continue
            v = e.val(c, v)
            if v.op == "it":
                a = v
            elif v.op == "opt" or is_agg(v, "adt") and v.a[1] in (OPTION, RESULT):
                a = t("it", "opt", v)
            else:
                kk = K(e, c, k.fr, k.f, k.n, k.args, k.live)
                a = new_it(kk, v, "map" if yielded_kind(e, inner) == "map" or term_kind(e, v) == "map" else "vec", ("flat", depth_of(it)))
            out.append((c, t("it", "flatten", i2, a, lvl), SKIP))
        return out
    if kind == "enumerate":
        inner = it.a[1]
        out = []
        for c, i2, v in pull(k, cur, inner):
            n = t("it", "enumerate", i2)
            i = counted_round(e, c, i2, v)
            out.append((c, n, v if i is None else tup(i, v)))
        return out
    if kind == "number":
        inner, lo, last = it.a[1:]
        out = []
        for c, i2, v in pull(k, cur, inner):
            n = t("it", "number", i2, lo, last)
            i = counted_round(e, c, i2, v)
            if i is None:
                out.append((c, n, v))
            else:
                i = i if lo.a[1] == 0 else app("add", i, lo)
                out.append((c, n, tup(v, i) if last is TRUE else tup(i, v)))
        return out
    if kind == "rev":
        return [(c, t("it", "rev", i2), v) for c, i2, v in pull(k, cur, it.a[1])]
    if kind == "zip":
        a, b = it.a[1], it.a[2]
        out = []
        for c, a2, v in pull(k, cur, a):
            n = t("it", "zip", a2, b)
            if v is None:
                out.append((c, n, None))
            elif v is SKIP:
                out.append((c, n, SKIP))
            else:
                for c2, b2, w in pull_some(k, c, b):
                    n2 = t("it", "zip", a2, b2)
                    sb = it_srcs(b2)
                    for x in it_srcs(a2):
                        for y in sb:
                            e.zips.add((x[0], y[0]))
                    if w is None:
                        e.emit(c2, "cut", C("str", "zip"), v, *[y[1] for y in sb])
                    out.append((c2, n2, None if w is None else tup(v, w)))
        return out
    if kind == "chain":
        a, b, ph = it.a[1:]
        out = []
        if ph is FALSE:
            for c, a2, v in pull(k, cur, a):
                if v is None:
                    out.append((c, t("it", "chain", a2, b, TRUE), SKIP))
                else:
                    out.append((c, t("it", "chain", a2, b, FALSE), v))
            return out
        return [(c, t("it", "chain", a, b2, TRUE), v) for c, b2, v in pull(k, cur, b)]
    if kind in ("skip", "take", "step_by"):
        inner, n = it.a[1], it.a[2]
        out = []
        for c, i2, v in pull(k, cur, inner):
            nit = t("it", kind, i2, n)
            if v is None or v is SKIP:
                out.append((c, nit, v))
                continue
            if kind == "take" or kind == "step_by" or not (is_c(n, "int") and n.a[1] == 0):
                c2 = c.fork()
                e.emit(c2, "cut", C("str", kind), v)
                out.append((c2, t("it", "list"), None) if kind == "take" else (c2, nit, SKIP))
            out.append((c, nit, v))
        return out
    if kind == "peek":
        inner, p = it.a[1], it.a[2]
        if p is not UNIT:
            return [(cur, t("it", "peek", inner, UNIT), None if p is NONE else fields(p)[0])]
        return [(c, t("it", "peek", i2, UNIT), v) for c, i2, v in pull(k, cur, inner)]
    if kind == "fn":
        out = []
        for c, r in clos(k, cur, it.a[1]):
            for c2, v, p in tag_opt(k, r, c):
                out.append((c2, it, p if v == "Some" else None))
        return out
    raise_budget("iterator kind %s" % kind)


def it_srcs(it):
    """(site, source) pairs of the collections an iterator runs over in lockstep"""
    if it.op != "it":
        return []
    if it.a[0] == "src":
        return [(it.a[1], it.a[2])]
    return [x for y in it.a[1:] if y.__class__ is T for x in it_srcs(y)]


def setfact(cur, x, v=None):
    """set or (None) forget a fact of the state; the value before"""
    old = cur.st.facts.get(x)
    if old is not v:
        f = dict(cur.st.facts)
        if v is None:
            del f[x]
        else:
            f[x] = v
        cur.st.facts = f
    return old


def counted_round(e, c, it, v):
    """index of the element; whether it is the first one is kept where the program asks"""
    if v is None or v is SKIP:
        i = it
        while i.op == "it" and i.a[0] in ("map", "inspect"):
            i = i.a[1]
        if v is None and i.op == "it" and i.a[0] == "src":
            setfact(c, t("started", i.a[1]))
            setfact(c, t("round1", i.a[1]))
        return None
    i = index_term(it, v)
    if i.op == "idx" and t("started", i.a[0].a[0]) in e.tracked:
        s = i.a[0].a[0]
        setfact(c, t("round1", s), t("started", s) not in c.st.facts)
        setfact(c, t("started", s), True)
    return i


def raise_budget(msg):
    from engine import Budget

    raise Budget(msg)


def depth_of(it):
    n = 0
    for y in it.a:
        if y.__class__ is T and y.op == "it":
            n = max(n, depth_of(y) + 1)
    return n


def index_term(it, v, k=None, cur=None):
    if it.op == "it" and it.a[0] == "src":
        return t("idx", t("elem", it.a[1], it.a[2]))
    if it.op == "it" and it.a[0] in ("map", "inspect"):
        return index_term(it.a[1], v, k, cur)
    if it.op == "it" and it.a[0] == "ref" and k is not None:
        return index_term(k.e.val(cur, it.a[1]), v, k, cur)
    return t("idx?", v)


def pull_some(k, cur, it, tab=None):
    """pull, looping over skipped elements"""
    e = k.e
    out = []
    table = {}
    e.plevel += 1
    root = (k.fr.depth, "p%d" % e.plevel)
    work = [(cur, it)]
    first = True
    while work:
        c, i = work.pop()
        for c2, i2, v in pull(k, c, i):
            if v is SKIP:
                c2.st.store[root] = i2
                j = e.join(table, c2.st.key(), c2)
                if j is not None:
                    c3 = Cur_(j)
                    i3 = c3.st.store.pop(root)
                    work.append((c3, i3))
            else:
                out.append((c2, i2, v))
    e.plevel -= 1
    return out


def Cur_(c):
    from engine import Cur

    return Cur(c.st.copy(), c.src, c.evs)


@m("Iterator::next", "DoubleEndedIterator::next_back")
def inext(k):
    e = k.e
    a = k.args[0]
    it = k.v(0)
    if is_agg(it, "adt") and "ops::Range" in it.a[1]:
        it = range_it(k, it)
    if it.op != "it":
        # opaque library iterator (an owned value): every call yields a fresh element or ends
        r = e.fresh(k.cur, k.fr, "next", it)
        return k.ret(r)
    out = []
    for c, i2, v in pull_some(k, k.cur, it):
        if a.op == "ref":
            # the stored iterator may have been renamed by advance(): always write it back
            e.write(c.st, a.a[0], a.a[1], i2)
        out.append((c, NONE if v is None else some(v)))
    return out


@m("Peekable::peek", "Peekable::peek_mut")
def ipeek(k):
    e, a = k.e, k.args[0]
    it = k.v(0)
    inner, p = it.a[1], it.a[2]
    if p is not UNIT:
        return k.ret(p)
    out = []
    for c, i2, v in pull_some(k, k.cur, inner):
        r = NONE if v is None else some(v)
        e.write(c.st, a.a[0], a.a[1], t("it", "peek", i2, r))
        out.append((c, r))
    return out


@m("Peekable::next_if", "Peekable::next_if_eq")
def inextif(k):
    return None


def drive(k, it, acc, step, final=None):
    """run a consumer: step(cur, acc, value) -> [(cur, acc, stop)]"""
    e = k.e
    e.plevel += 1
    lvl = e.plevel
    ri, ra = (k.fr.depth, "i%d" % lvl), (k.fr.depth, "a%d" % lvl)
    e.inv += 1
    head = ("drive", k.fr.cs, k.fr.bb, lvl, e.inv)
    table = {}
    outs = []
    cur = k.cur
    cur.st.store[ri] = it
    cur.st.store[ra] = acc
    bb = k.fr.bb
    work = [cur]
    while work:
        c = work.pop()
        e.drop_loop_facts(c, k.fr.cs, (bb,))
        e.widen(head, c, (k.fr.cs, k.fr.bb * 10 + lvl))
        j = e.join(table, c.st.key(), c)
        if j is None:
            continue
        c = Cur_(j)
        i = c.st.store[ri]
        for c2, i2, v in pull(k, c, i):
            c2.st.store[ri] = i2
            a = c2.st.store[ra]
            if v is None:
                c2.st.store.pop(ri, None)
                c2.st.store.pop(ra, None)
                outs.append((c2, a))
            elif v is SKIP:
                work.append(c2)
            else:
                # v may be renamed while the step runs; it is kept alive by the step itself
                for c3, a3, stop in step(c2, a, v):
                    if stop:
                        c3.st.store.pop(ri, None)
                        c3.st.store.pop(ra, None)
                        e.emit(c3, "stop")
                        outs.append((c3, a3))
                    else:
                        c3.st.store[ra] = a3
                        work.append(c3)
        k.fr.bb = bb
    e.plevel -= 1
    res = []
    table = {}
    for c, a in outs:
        a = final(c, a) if final else a
        j = e.join(table, (c.st.key(), a), c)
        if j is not None:
            res.append((Cur_(j), a))
    return res


def drive_any(k, it, pred, stopval=True):
    def step(c, acc, v):
        out = []
        for c2, b in pred(c, v):
            out.append((c2, boolc(stopval), True) if b == stopval else (c2, acc, False))
        return out

    return drive(k, it, boolc(not stopval), step)


@m("Iterator::any", "Iterator::all")
def iany(k):
    want = k.n.endswith("any")
    p = k.args[1]
    if not want and is_c(p, "fn") and p.a[1].split("|")[0].endswith("<impl char>::is_whitespace"):
        it = asit(k, 0)
        i = k.e.val(k.cur, it.a[1]) if it.a[0] == "ref" else it
        x = i.a[2] if i.op == "it" and i.a[0] == "src" else UNIT
        if x.op == "app" and x.a[0] == "chars":
            # nothing but white space
            return k.ret(t("empty", app("trim", x.a[1])))

    def pred(c, v):
        out = []
        for c2, r in clos(k, c, k.args[1], v):
            out += k.e.decide(c2, k.e.val(c2, r))
        return out

    return drive_any(k, asit(k, 0), pred, want)


@m("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::rposition")
def ifind(k):
    fn = k.n.split("::")[-1]
    e = k.e
    it0 = asit(k, 0)

    def step(c, acc, v):
        out = []
        for c2, r in clos(k, c, k.args[1], v):
            r = e.val(c2, r)
            if fn == "find_map":
                for c3, vv, p in tag_opt(k, r, c2):
                    out.append((c3, some(p), True) if vv == "Some" else (c3, NONE, False))
            else:
                for c3, b in e.decide(c2, r):
                    if b:
                        out.append((c3, some(v if fn == "find" else index_term(it0, v, k, c3)), True))
                    else:
                        out.append((c3, NONE, False))
        return out

    return drive(k, it0, NONE, step)


@m("Iterator::for_each", "Iterator::try_for_each")
def for_each(k):
    tr = k.n.endswith("try_for_each")
    e = k.e

    def step(c, acc, v):
        out = []
        for c2, r in clos(k, c, k.args[1], v):
            if not tr:
                out.append((c2, UNIT, False))
                continue
            r = e.val(c2, r)
            if r.op == "agg" and r.a[1] == CF:
                out.append((c2, r, True) if r.a[2] == "Break" else (c2, acc, False))
            else:
                for c3, vv, p in tag_res(k, r, c2):
                    out.append((c3, err(p), True) if vv == "Err" else (c3, acc, False))
        return out

    return drive(k, asit(k, 0), ok(UNIT) if tr else UNIT, step)


@m("Iterator::fold", "Iterator::try_fold")
def fold(k):
    e = k.e
    tr = k.n.endswith("try_fold")

    def step(c, acc, v):
        out = []
        for c2, r in clos(k, c, k.args[2], acc if not tr else acc, v):
            if not tr:
                out.append((c2, e.val(c2, r) if r.op != "ref" else r, False))
                continue
            for c3, vv, p in tag_res(k, r, c2):
                out.append((c3, err(p), True) if vv == "Err" else (c3, p, False))
        return out

    res = drive(k, asit(k, 0), k.args[1], step)
    if tr:
        res = [(c, a if is_agg(a, "adt") and a.a[2] == "Err" else ok(a)) for c, a in res]
    return res


@m("Iterator::count", "Iterator::last", "Iterator::max", "Iterator::min", "Iterator::sum", "Iterator::product", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by", "Iterator::nth")
def ireduce(k):
    fn = k.n.split("::")[-1]
    e = k.e
    it = asit(k, 0)
    if fn in ("count", "sum"):

        def step(c, acc, v):
            return [(c, t("count", acc.a[0] if acc.op == "count" else "s", "n"), False)]

        # number of elements: zero or at least one
        out = []
        def add(c, acc, v):
            if fn == "count":
                return [(c, t("many"), False)]
            # a sum of sizes is zero iff all of them are
            return [(c2, acc if z else t("many"), False) for c2, z in e.decide(c, e.eqterm(e.val(c, v), C("int", 0)))]

        for c, a in drive(k, it, C("int", 0), add):
            out.append((c, a))
        return out

    def step2(c, acc, v):
        return [(c, some(v), False), ] if fn == "last" else [(c, some(t("pick", v)), False)]

    return drive(k, it, NONE, step2)


def target_add(k, c, tg, kind, v):
    e = k.e
    v = e.val(c, v)
    if kind == "map":
        key, val = (v.a[3], v.a[4]) if is_agg(v, "tuple") else (e.proj(v, "0"), e.proj(v, "1"))
        e.emit(c, "insert", tg, key, val)
        e.touched(c, tg, "insert", key)
    elif kind == "set":
        e.emit(c, "insert", tg, v, UNIT)
        e.touched(c, tg, "insert", v)
    else:
        e.emit(c, "push", tg, v)
        e.touched(c, tg, "grow")


def collect_into(k, it, ty):
    """[(cur, value)]"""
    e = k.e
    kd = kindof(ty)
    if kd in ("map", "set", "vec"):
        base = ty
        while base[0] in ("ref",) or (base[0] == "adt" and base[1] in ("std::rc::Rc", "std::boxed::Box")):
            base = base[2]
        o = e.new_obj(k.cur, k.fr, base[1] if base[0] == "adt" else "std::vec::Vec")

        def step(c, acc, v):
            target_add(k, c, acc, kd, v)
            return [(c, acc, False)]

        return drive(k, it, o, step)
    if kd == "str":

        def step(c, acc, v):
            v = e.val(c, v)
            e.emit(c, "strpush", acc, v)
            return [(c, cat(acc, v), False)]

        return drive(k, it, C("str", ""), step)
    if kd in ("res", "opt"):
        inner = ty[2]
        ikd = kindof(inner)
        o = UNIT
        if ikd in ("map", "set", "vec"):
            o = e.new_obj(k.cur, k.fr, inner[1])
        neg_ = "Err" if kd == "res" else "None"

        def step(c, acc, v):
            out = []
            cases = tag_res(k, v, c) if kd == "res" else tag_opt(k, v, c)
            for c2, vv, p in cases:
                if vv == neg_:
                    out.append((c2, err(p) if kd == "res" else NONE, True))
                else:
                    if ikd in ("map", "set", "vec"):
                        target_add(k, c2, o, ikd, p)
                    out.append((c2, acc, False))
            return out

        return [
            (c, a if is_agg(a, "adt") and a.a[2] == neg_ else (ok(a) if kd == "res" else some(a)))
            for c, a in drive(k, it, o, step)
        ]
    if ty == ["tuple"]:
        return drive(k, it, UNIT, lambda c, acc, v: [(c, acc, False)])
    # unknown collection: remember what it was built from
    o = e.new_obj(k.cur, k.fr, ty_str(ty))

    def step(c, acc, v):
        e.emit(c, "push", acc, e.val(c, v))
        return [(c, acc, False)]

    return drive(k, it, o, step)


@m("Iterator::collect", "FromIterator::from_iter")
def collect(k):
    if k.n.endswith("from_iter"):
        return collect_into(k, asit(k, 0, 0, k.ty(2)), k.ty(0))
    return collect_into(k, asit(k, 0), k.ty(1))


@m("Extend::extend", "Vec::extend_from_slice", "Vec::append_elements")
def extend(k):
    tg = k.v(0)
    kd = kindof(k.ty(0)) if k.n.endswith("::extend") else "vec"
    if kd == "str":
        a = k.args[0]
        if a.op != "ref":
            return None

        def step(c, acc, v):
            k.e.emit(c, "strpush", k.e.val(c, a), v)
            k.e.write(c.st, a.a[0], a.a[1], cat(k.e.val(c, a), v))
            return [(c, acc, False)]

        return drive(k, asit(k, 1, 0, k.ty(2)), UNIT, step)
    it = asit(k, 1, 0, k.ty(2) if k.n.endswith("::extend") else ["slice"])
    return extend_with(k, tg, it, kd or "vec")


def extend_with(k, tg, it, kd):
    def step(c, acc, v):
        target_add(k, c, tg, kd, v)
        return [(c, acc, False)]

    return drive(k, it, UNIT, step)


@m("Iterator::unzip", "Iterator::partition")
def unzip(k):
    e = k.e
    if k.n.endswith("partition"):
        ty = k.ty(1)
        o1 = e.new_obj(k.cur, k.fr, ty[1] if ty[0] == "adt" else "v", 1)
        o2 = e.new_obj(k.cur, k.fr, ty[1] if ty[0] == "adt" else "v", 2)

        def step(c, acc, v):
            out = []
            for c2, r in clos(k, c, k.args[1], v):
                for c3, b in e.decide(c2, e.val(c2, r)):
                    target_add(k, c3, o1 if b else o2, kindof(ty) or "vec", v)
                    out.append((c3, acc, False))
            return out

        return [(c, tup(o1, o2)) for c, _ in drive(k, asit(k, 0), tup(o1, o2), step)]
    ta, tb = k.ty(3), k.ty(4)
    o1 = e.new_obj(k.cur, k.fr, ta[1] if ta[0] == "adt" else "v", 1)
    o2 = e.new_obj(k.cur, k.fr, tb[1] if tb[0] == "adt" else "v", 2)

    def step(c, acc, v):
        a, b = (v.a[3], v.a[4]) if is_agg(v, "tuple") else (e.proj(v, "0"), e.proj(v, "1"))
        target_add(k, c, o1, kindof(ta) or "vec", a)
        target_add(k, c, o2, kindof(tb) or "vec", b)
        return [(c, acc, False)]

    return [(c, tup(o1, o2)) for c, _ in drive(k, asit(k, 0), tup(o1, o2), step)]


# ---------------------------------------------------------------- input and output
def io_result(k, okval, *what):
    """fork on success of an I/O call"""
    e = k.e
    c = k.cur.fork()
    x = e.fresh(c, k.fr, "ioerr", *what, extra="ioerr")
    e.emit(c, "ioerr", C("str", k.n), x)
    return [(k.cur, ok(okval)), (c, err(x))]


def wtarget(k):
    x = k.v(0)
    return x


def bytes_of(k, x):
    """the text a Vec<u8> buffer holds, if it is one we follow"""
    return None


@m("Write::write_fmt", "Write::write_all", "Write::write", "Write::flush", "io::copy", "Formatter::write_fmt", "Formatter::write_str", "Formatter::write_char", "Formatter::pad", "String::write_fmt", "Write::write_str", "Write::write_char")
def write(k):
    e = k.e
    fn = k.n.split("::")[-1]
    w = wtarget(k)
    a = k.args[0]
    if fn == "flush":
        e.emit(k.cur, "flush", w)
    else:
        x = k.v(1)
        if is_c(x, "bytes"):
            x = C("str", x.a[1].decode("utf-8", "replace"))
        e.emit(k.cur, "write", w, x)
        if fn == "write":
            n = e.fresh(k.cur, k.fr, "written", w, x)
            e.emit(k.cur, "partial_write", w, n)
    if w.op == "obj":
        e.touched(k.cur, w, "other")
    sk = kindof(k.ty(0)) if k.f.get("trait") else None
    if sk == "str" and a.op == "ref":  # fmt::Write for String
        e.write(k.cur.st, a.a[0], a.a[1], cat(w, x))
        e.emit(k.cur, "strpush", w, x)
        return k.ret(ok(UNIT))
    return io_result(k, UNIT if fn != "write" else n, w)


@m("BufWriter::new", "LineWriter::new", "BufWriter::with_capacity", "LineWriter::with_capacity")
def bufwriter(k):
    return k.ret(app("BufWriter", k.v(len(k.args) - 1)))


@m("BufWriter::into_inner", "LineWriter::into_inner")
def buf_into_inner(k):
    w = k.v(0)
    k.e.emit(k.cur, "flush", w)
    return io_result(k, w.a[1] if w.op == "app" and w.a[0] == "BufWriter" else w, w)


@m("Display::fmt", "Debug::fmt")
def display_fmt(k):
    e = k.e
    kind = "disp" if "Display" in k.n else "dbg"
    x = k.v(0)
    if not (kind == "disp" and strlike(k.ty(0))):
        x = disp(k, kind, x)
    e.emit(k.cur, "write", k.v(1), x)
    return io_result(k, UNIT, k.v(1))


@m("serde_json::to_writer_pretty", "serde_json::to_writer")
def to_writer(k):
    k.e.emit(k.cur, "write", k.v(0), app("json", k.v(1)))
    return io_result(k, UNIT, k.v(0))


@m("serde_json::to_string_pretty", "serde_json::to_string", "serde_json::to_vec_pretty", "serde_json::to_vec")
def to_json_text(k):
    return io_result(k, app("json", k.v(0)), k.v(0))


@m("BufRead::read_line", "Read::read_to_string", "Read::read_to_end", "BufRead::read_until")
def read_line(k):
    e = k.e
    fn = k.n.split("::")[-1]
    rd = k.v(0)
    buf = k.args[-1]
    x = e.fresh(k.cur, k.fr, fn, rd if rd.op != "phi" else UNIT)
    e.emit(k.cur, "read", rd, x)
    old = e.val(k.cur, buf)
    c = k.cur.fork()
    er = t("readerr", x)
    e.emit(c, "ioerr", C("str", k.n), er)
    if buf.op == "ref":
        e.write(k.cur.st, buf.a[0], buf.a[1], cat(old, x))
        e.write(c.st, buf.a[0], buf.a[1], cat(old, t("partial", x)))
    else:
        e.emit(k.cur, "assign", buf, cat(old, x))
    return [(k.cur, ok(t("len", x))), (c, err(er))]


@m("Instant::now", "Instant::elapsed", "Duration::as_millis", "SystemTime::now")
def clock(k):
    return k.ret(t("sym", "clock"))


@m("Rc::get_mut", "Rc::make_mut", "Arc::get_mut")
def get_mut(k):
    if k.n.endswith("make_mut"):
        return k.ret(k.args[0])
    # succeeds only while the Rc is unique: an obligation of the caller
    return k.ret(t("opt", t("unique", k.v(0)), k.v(0)))


@m("Rc::ptr_eq", "ptr::eq")
def ptr_eq(k):
    return k.ret(t("ptreq", k.v(0), k.v(1)))


@m("Rc::try_unwrap", "Rc::into_inner")
def try_unwrap(k):
    return k.ret(app(k.n, k.v(0)))


@m("Ord::cmp", "PartialOrd::partial_cmp")
def cmp(k):
    r = app("cmp", k.v(0), k.v(1))
    return k.ret(r if k.n.endswith("::cmp") else some(r))


@m("cmp::max", "cmp::min", "Ord::max", "Ord::min")
def omax(k):
    return k.ret(app(k.n.split("::")[-1], k.v(0), k.v(1)))


@m("bool::then", "bool::then_some")
def then(k):
    out = []
    for c, b in k.e.decide(k.cur, k.v(0)):
        if not b:
            out.append((c, NONE))
        elif k.n.endswith("then"):
            out += [(c2, some(r)) for c2, r in clos(k, c, k.args[1])]
        else:
            out.append((c, some(k.args[1])))
    return out


@m("mem::drop", "mem::forget")
def drop(k):
    return k.ret(UNIT)

"""Semantics of the GPU interface, tracing and async plumbing as the runtimes use them: calls become events, data flows through."""
from amodels import *
import amodels as _a

# ---------------------------------------------------------------- futures
def pinned(v):
    while isinstance(v, Agg) and v.f: v = v.f[0]
    return v
def ready(c, v): return c.ret(Agg(c.ty(), 0, (v,)))
def out_ty(c): return c.it.ty(c.dest)["args"][0]
@fn("async_channel::Receiver::recv")
def _(c):
    ch = chan(c.load(c.args[0]))
    return c.ret(Op(("recv future", ch), c.ty())) if ch is not None else None
def received(c, ch, ti):
    """Outcome of waiting on a channel; ti: type of the result."""
    n = len(c.st.ev)
    c.st.event("await", ch, tuple(held(c.st.ev).values()), c.span)
    t = c.it.ty(ti)
    if c.decide(cop(("receives", ch, n))):
        sent = [e[2] for e in c.st.ev if e[0] == "send" and e[1] == ch]
        v = sent[0] if len(sent) == 1 else c.it.mk(("received", ch, n), t["args"][0])
        c.st.event("received", ch, v)
        return Agg(t["n"], 0, (v,))
    return Agg(t["n"], 1, (Op(("recv error", ch), c.it.tn(t["args"][1])),))
def poll_value(c, v, where, ti):
    """-> [(state, output)] of polling the future v that sits at reference `where`."""
    if isinstance(v, Op) and isinstance(v.t, tuple) and v.t[0] == "recv future":
        return [(c.st, received(c, v.t[1], ti))]
    if isinstance(v, Agg) and "Instrumented" in v.ty:
        return poll_value(c, v.f[0], Ref(where.c, where.p + (("f", 0),)), ti)
    if isinstance(v, Coro) and v.inst is not None:
        outs = []
        for s, r in c.it.call_inst(v.inst, [where, c.args[1]], c.st, c.depth + 1):
            if not isinstance(r, Agg) or r.v != 0: raise Undecided("a future that is not ready")
            outs.append((s, r.f[0]))
        return outs
    return None
@tr("std::future::Future::poll", "tracing::instrument::Instrumented", "async_channel::Recv")
def _(c):
    where = pinned(c.args[0])
    if not isinstance(where, Ref): return None
    v = c.peek(where)
    outs = poll_value(c, v, where, out_ty(c))
    if outs is None: return None
    return [(s, Agg(c.ty(), 0, (x,))) for s, x in outs]
@tr("std::future::IntoFuture::into_future", "*")
def _(c): return c.ret(c.args[0])

# ---------------------------------------------------------------- tracing: spans do nothing
@fn("tracing::span::Span::in_scope")
def _(c): return c.it.call_value(c.st, c.args[1], [], c.dest, c.depth, c.span)
@fn("tracing::instrument::Instrument::instrument", "tracing::instrument::Instrument::in_current_span", "tracing::instrument::Instrument::or_current")
def _(c): return c.ret(Agg(c.ty(), 0, (c.args[0], UNIT)))
@fn("tracing::span::Span::is_disabled", "tracing_core::subscriber::Interest::is_never", "tracing::span::Span::is_none")
def _(c): return c.ret(TRUE)
@fn("tracing::__macro_support::__is_enabled")
def _(c): return c.ret(FALSE)
@tr("std::cmp::PartialOrd::le", "tracing_core::metadata::Level", "tracing_core::metadata::LevelFilter", "tracing::Level", "log::Level", "log::LevelFilter")
@tr("std::cmp::PartialOrd::ge", "tracing_core::metadata::LevelFilter", "log::LevelFilter")
def _(c): return c.ret(FALSE)
def opaque(c): return c.ret(c.it.mk(("trace", c.callee["path"], len(c.st.ev)), c.dest))
fn(*["tracing::" + x for x in ("__macro_support::__disabled_span", "level_filters::get_max_level_inner", "span::Span::new", "span::Span::none", "span::Span::current", "span::Span::enter", "span::Span::entered")],
   *["tracing_core::" + x for x in ("callsite::Callsite::metadata", "callsite::DefaultCallsite::interest", "field::FieldSet::value_set_all", "field::FieldSet::value_set", "metadata::LevelFilter::current", "metadata::Metadata::fields", "subscriber::Interest::never")])(opaque)
tr("tracing_core::callsite::Callsite::metadata", "*")(opaque)
tr("std::default::Default::default", "async_channel::Recv")(lambda c: None)

# ---------------------------------------------------------------- errors
def snafu_err(c, sel, source, ti):
    """The error a context selector builds."""
    t = c.it.ty(ti)
    name = sel.ty.split("::")[-1].split("<")[0] if isinstance(sel, (Agg, Op)) else ""
    if name.endswith("Snafu"): name = name[:-5]
    for vi, v in enumerate(t.get("variants") or []):
        if v[0] == name and t["k"] == "adt" and t["enum"]:
            fs = []
            for f in v[2]:
                if f[0] == "source" and source is not None: fs.append(source)
                else: return None
            return Agg(t["n"], vi, tuple(fs))
    return None
@tr("snafu::ResultExt::context", "std::result::Result")
def _(c):
    r = c.args[0]
    vi = c.it.variant(c.st, r)
    v = c.it.get(c.st, r, (("v", vi), ("f", 0)))
    if vi == 0: return c.ret(Agg(c.ty(), 0, (v,)))
    e = snafu_err(c, c.args[1], v, c.it.ty(c.dest)["args"][1])
    return c.ret(Agg(c.ty(), 1, (e,))) if e is not None else None
@tr("snafu::OptionExt::context", "std::option::Option")
def _(c):
    r = c.args[0]
    vi = c.it.variant(c.st, r)
    if vi == 1: return c.ret(Agg(c.ty(), 0, (c.it.get(c.st, r, (("v", 1), ("f", 0))),)))
    e = snafu_err(c, c.args[1], None, c.it.ty(c.dest)["args"][1])
    return c.ret(Agg(c.ty(), 1, (e,))) if e is not None else None

# ---------------------------------------------------------------- the GPU
def wrap_in(it, ti, p): return Op(("usage bits", p), it.tn(ti))
def number(v):
    if not isinstance(v, Op): return None
    if isinstance(v.t, tuple) and v.t[0] == "usage bits": return v.t[1]
    return Poly.atom(("a", "t", "u32", ("bits of", v)))
@fn("wgpu_types::_::{wgpu::BufferUsages}::from_bits_retain", "wgpu_types::_::{wgpu_types::BufferUsages}::from_bits_retain", "wgpu_types::BufferUsages::from_bits_retain")
def _(c): return c.ret(wrap_in(c.it, c.dest, c.args[0]))
def usages_op(c):
    a, b = number(c.args[0]), number(c.args[1])
    if a is None or b is None: return None
    return c.ret(wrap_in(c.it, c.dest, c.it.bitop(c.st, "BitOr", a, b, "u32")))
tr("std::ops::BitOr::bitor", "wgpu::BufferUsages", "wgpu_types::BufferUsages")(usages_op)
fn(*["wgpu_types::_::{%s::BufferUsages}::union" % x for x in ("wgpu", "wgpu_types")])(usages_op)
def usages_assign(c):
    a, b = number(c.load(c.args[0])), number(c.args[1])
    if a is None or b is None: return None
    old = c.load(c.args[0])
    c.store(c.args[0], wrap_in(c.it, c.it.tyi(old.ty), c.it.bitop(c.st, "BitOr", a, b, "u32")))
    return c.ret()
tr("std::ops::BitOrAssign::bitor_assign", "wgpu::BufferUsages", "wgpu_types::BufferUsages")(usages_assign)
fn(*["wgpu_types::_::{%s::BufferUsages}::insert" % x for x in ("wgpu", "wgpu_types")])(usages_assign)

def gobj(c, kind, *data): return Op((kind, fresh_id()) + data, c.ty())
@fn("wgpu::Device::create_buffer")
def _(c):
    d = c.load(c.args[1])
    if not isinstance(d, Agg) or len(d.f) != 4: return None
    f = dict(zip(("label", "size", "usage", "mapped_at_creation"), d.f))   # declaration order in wgpu
    if not isinstance(f["size"], Poly): return None
    b = gobj(c, "gpu buffer", f["size"])
    c.st.event("gcreate", b, f["size"], number(f["usage"]), f["mapped_at_creation"], c.span)
    return c.ret(b)
@fn("wgpu::Buffer::size")
def _(c):
    b = c.load(c.args[0])
    if isinstance(b, Op): return c.ret(buf_size(b))
def buf_size(b):
    return b.t[2] if b.t[0] == "gpu buffer" else Poly.atom(("a", "t", "u64", ("buffer size", b)))
@fn("wgpu::Buffer::usage")
def _(c): return c.ret(c.it.mk(("buffer usage", c.load(c.args[0])), c.dest))
@fn("wgpu::Device::create_command_encoder")
def _(c): return c.ret(gobj(c, "encoder"))
@fn("wgpu::CommandEncoder::copy_buffer_to_buffer")
def _(c):
    e, s, so, d, do, n = c.args
    e, s, d = c.load(e), c.load(s), c.load(d)
    if not all(isinstance(x, Op) for x in (e, s, d)): return None
    c.st.event("gcopy", e.t, s, so, d, do, n, c.span)
    return c.ret()
@fn("wgpu::CommandEncoder::clear_buffer")
def _(c):
    c.st.event("gclear", c.load(c.args[0]).t, c.load(c.args[1])); return c.ret()
@fn("wgpu::CommandEncoder::finish")
def _(c): return c.ret(Op(("commands", c.args[0].t), c.ty())) if isinstance(c.args[0], Op) else None
@fn("wgpu::Queue::submit")
def _(c):
    found = []
    def f(x):
        if isinstance(x, Op) and isinstance(x.t, tuple) and x.t[0] == "commands": found.append(x.t[1])
        if isinstance(x, Unk): found.append(None)
        if isinstance(x, Ref): found.append(None)
    visit(c.args[1], f)
    if None in found: return None
    i = gobj(c, "submission")
    c.st.event("gsubmit", tuple(found), i.t, tuple(held(c.st.ev).values()), c.span)
    return c.ret(i)
def bytes_of(c, q):
    """The bytes of a sequence of numbers."""
    return Seq(4 * q.n, ("bytes", q), (), c.it.tyi("u8"))
@fn("bytemuck::cast_slice")
def _(c):
    r = c.args[0]
    fr, to = c.targ(0), c.targ(1)
    if fr == to: return c.ret(r)
    if not isinstance(r, Ref): return None
    if fr == "u32" and to == "u8":
        v = c.peek(r)
        return c.ret(Ref(own(c.st, bytes_of(c, v)), ())) if isinstance(v, Seq) else None
    try: v, off, n = _a.view(c, r)
    except Undecided: return None
    if not isinstance(v, Seq): return None
    whole = off == 0 and n == v.n
    if fr == "u8" and to == "u32" and isinstance(v.base, tuple) and not v.log:
        n4, o4 = quarter(n), quarter(off)
        if n4 is None or o4 is None: return None
        if v.base[0] == "bytes":
            q = v.base[1] if whole else c.it.seq_copy(c.st, Seq(n4, None, (), v.base[1].ety), P(0), v.base[1], o4, n4)
            return c.ret(Ref(own(c.st, q), ()))
        if v.base[0] == "mapped":
            _, b, lo, hi = v.base[1]
            return c.ret(Ref(own(c.st, Seq(n4, ("words", ("mapped", ("buffer slice", b, lo + off, lo + off + n))), (), c.it.tyi("u32"))), ()))
    return None
def quarter(p):
    if any(k % 4 for k in p.m.values()): return None
    return Poly({m: k // 4 for m, k in p.m.items()})
@fn("wgpu::Queue::write_buffer")
def _(c):
    b = c.load(c.args[1]); data = c.peek(c.args[3]) if isinstance(c.args[3], Ref) else None
    if not isinstance(b, Op) or not isinstance(data, Seq): return None
    c.st.event("gwrite", b, c.args[2], data, c.span)
    return c.ret()
@fn("wgpu::Buffer::slice")
def _(c):
    b = c.load(c.args[0]); r = c.args[1]
    if not isinstance(b, Op) or not isinstance(r, Agg): return None
    n = buf_size(b)
    kind = r.ty.split("<")[0].split("::")[-1]
    if kind == "RangeFull": lo, hi = P(0), n
    elif kind == "RangeTo": lo, hi = P(0), r.f[0]
    elif kind == "RangeFrom": lo, hi = r.f[0], n
    elif kind == "Range": lo, hi = r.f
    else: return None
    return c.ret(Op(("buffer slice", b, lo, hi), c.ty()))
def slice_of(c, a):
    s = c.load(a) if isinstance(a, Ref) else a
    return s if isinstance(s, Op) and isinstance(s.t, tuple) and s.t[0] == "buffer slice" else None
@fn("wgpu::BufferSlice::map_async")
def _(c):
    s = slice_of(c, c.args[0])
    if s is None: return None
    mode = c.args[1].v if isinstance(c.args[1], Agg) else None
    cl = c.args[2]
    ti = None
    c.st.event("gmap", s.t, mode, c.span)
    # the callback is called with the outcome, at the latest when the device is polled
    t = c.it.tyi("std::result::Result<(), wgpu::BufferAsyncError>")
    if t is None: return None
    x = c.it.mk(("map outcome", s.t), t)
    outs = c.it.call_value(c.st, cl, [x], c.it.tyi("()"), c.depth, c.span)
    return [(st, UNIT) for st, _ in outs]
@fn("wgpu::MaintainBase::wait_for", "wgpu::Maintain::wait_for", "wgpu_types::Maintain::wait_for")
def _(c): return c.ret(Op(("wait for", c.args[0]), c.ty()))
@fn("wgpu::MaintainBase::wait", "wgpu::Maintain::wait")
def _(c): return c.ret(Op(("wait",), c.ty()))
@fn("wgpu::MaintainBase::poll", "wgpu::Maintain::poll")
def _(c): return c.ret(Op(("do not wait",), c.ty()))
@fn("wgpu::Device::poll")
def _(c):
    m = c.args[1]
    k = m.t if isinstance(m, Op) else None
    if isinstance(m, Agg):
        v = (c.it.ty(c.it.tyi(m.ty)).get("names") or [None] * 9)[m.v]
        k = {"Wait": ("wait",), "Poll": ("do not wait",), "WaitForSubmissionIndex": ("wait for", m.f[0] if m.f else None)}.get(v)
    if k is None: return None
    c.st.event("gpoll", k, tuple(held(c.st.ev).values()), c.span)
    return c.ret(c.it.mk(("polled", fresh_id()), c.dest))
@fn("wgpu::BufferSlice::get_mapped_range")
def _(c):
    s = slice_of(c, c.args[0])
    if s is None: return None
    c.st.event("gview", s.t, c.span)
    return c.ret(Op(("view", s.t), c.ty()))
@tr("std::ops::Deref::deref", "wgpu::BufferView")
@tr("std::convert::AsRef::as_ref", "wgpu::BufferView")
def _(c):
    v = c.load(c.args[0])
    if not isinstance(v, Op) or v.t[0] != "view": return None
    s = v.t[1]
    return c.ret(Ref(own(c.st, Seq(s[3] - s[2], ("mapped", s), (), c.it.tyi("u8"))), ()))
@fn("wgpu::Buffer::unmap", "wgpu::Buffer::destroy")
def _(c): return c.ret()

OPAQUE = ("wgpu::Buffer", "wgpu::Device", "wgpu::Queue", "wgpu::CommandEncoder", "wgpu::BufferSlice", "wgpu::BufferView", "wgpu::CommandBuffer", "wgpu::SubmissionIndex",
          "wgpu::BufferAsyncError", "tracing::span::Span", "tracing::span::EnteredSpan", "tracing::span::Entered", "async_channel::Recv", "async_channel::RecvError")
def _mk_opaque(it, term, ti, t): return Op(term, t["n"])
_prev = _a.setup
def setup(m):
    _prev(m)
    for n in OPAQUE: m.mk[n] = _mk_opaque
    m.nodrop |= set(OPAQUE) | {"tracing::instrument::Instrumented"}
_a.setup = setup

"""Compile probes of C14: every program is rejected by a type level safe crate.

Each probe has a twin: the same program with one legal change, which must compile; a probe whose twin does not
compile says nothing (the API it uses is not there any more) and is only counted.
The `run` probes below are not compile-time judgements: they tell which safe low level calls exist, the ledger of
/verif/lowlevel observes what they do.
"""

PRE = """#![allow(unused)]
use orx_concurrent_iter::*;
use std::rc::Rc; use std::sync::Arc; use std::cell::{Cell, RefCell}; use std::sync::{Mutex, MutexGuard};
use std::marker::PhantomData;
fn send<T: Send>(_: T) {}
fn share<T: Sync>(_: &T) {}
// neither Send nor Sync, but Copy
#[derive(Clone, Copy)] pub struct Raw(*const u8);
#[derive(Clone, Copy)] pub struct Fine(usize);
// an iterator which is not Send although its items are
pub struct RcIter(Rc<Cell<usize>>);
impl Iterator for RcIter { type Item = usize; fn next(&mut self) -> Option<usize> { self.0.set(self.0.get() + 1); Some(self.0.get()) } }
pub struct ArcIter(Arc<Mutex<usize>>);
impl Iterator for ArcIter { type Item = usize; fn next(&mut self) -> Option<usize> { let mut x = self.0.lock().unwrap(); *x += 1; Some(*x) } }
// Sync but not Send
pub struct NotSend(PhantomData<MutexGuard<'static, ()>>);
unsafe impl Sync for NotSend {}
"""

PROBES = []


def p(pid, bad, good):
    PROBES.append((pid, bad, good))


SPAWN = "std::thread::scope(|s| { s.spawn(|| { _ = it.next(); }); s.spawn(|| { _ = it.next(); }); });"

# ---- thread-safety of the elements: creating, sharing and sending ----
ELEMS = [("rc", "Rc::new(1)", "Arc::new(1)"), ("rccell", "Rc::new(RefCell::new(1))", "Arc::new(Mutex::new(1))"), ("raw", "Raw(std::ptr::null())", "Fine(1)")]
for n, bad, good in ELEMS:
    def both(pid, tmpl):
        p(pid, tmpl.replace("@", bad), tmpl.replace("@", good))
    both(f"create-vec-{n}", "fn main() { let it = vec![@, @].into_con_iter(); }")
    both(f"create-array-{n}", "fn main() { let it = [@, @].into_con_iter(); }")
    both(f"create-slice-{n}", "fn main() { let v = vec![@, @]; let it = v.as_slice().into_con_iter(); }")
    both(f"create-vec-ref-{n}", "fn main() { let v = vec![@, @]; let it = v.con_iter(); }")
    both(f"create-array-ref-{n}", "fn main() { let v = [@, @]; let it = v.con_iter(); }")
    both(f"create-iter-{n}", "fn main() { let it = (0..3).map(|_| @).into_con_iter(); }")
    both(f"create-iter-new-{n}", "fn main() { let it = ConIterOfIter::new((0..3).map(|_| @)); }")
    both(f"create-vec-new-{n}", "fn main() { let it = ConIterOfVec::new(vec![@, @]); }")
    both(f"create-vec-from-{n}", "fn main() { let it: ConIterOfVec<_> = vec![@, @].into(); }")
    both(f"create-array-new-{n}", "fn main() { let it = ConIterOfArray::new([@, @]); }")
    both(f"create-slice-new-{n}", "fn main() { let v = [@, @]; let it = ConIterOfSlice::new(&v); }")
    both(f"share-vec-{n}", "fn main() { let it = vec![@, @].into_con_iter(); %s }" % SPAWN)
    both(f"share-array-{n}", "fn main() { let it = [@, @].into_con_iter(); %s }" % SPAWN)
    both(f"share-slice-{n}", "fn main() { let v = [@, @]; let it = v.as_slice().into_con_iter(); %s }" % SPAWN)
    both(f"share-iter-{n}", "fn main() { let it = (0..3).map(|_| @).into_con_iter(); %s }" % SPAWN)
    both(f"share-cloned-{n}", "fn main() { let v = vec![@, @]; let it = v.con_iter().cloned(); %s }" % SPAWN)
    both(f"send-vec-{n}", "fn main() { let it = vec![@, @].into_con_iter(); send(it); }")
    both(f"seq-vec-{n}", "fn main() { let it = vec![@, @].into_con_iter(); std::thread::scope(|s| { s.spawn(move || it.into_seq_iter().count()); }); }")
both("share-copied-raw", "fn main() { let v = vec![@, @]; let it = v.con_iter().copied(); %s }" % SPAWN)

# generic code may not assume more than the bounds say
for ty, expr in [("ConIterOfVec<T>", "vec"), ("ConIterOfSlice<'static, T>", "slice"), ("ConIterOfArray<3, T>", "array")]:
    p(f"generic-sync-{expr}", "fn f<T>(x: &%s) { share(x); } fn main() {}" % ty, "fn f<T: Send + Sync>(x: &%s) { share(x); } fn main() {}" % ty)
    p(f"generic-send-{expr}", "fn f<T>(x: %s) { send(x); } fn main() {}" % ty, "fn f<T: Send + Sync>(x: %s) { send(x); } fn main() {}" % ty)
p("generic-sync-iter", "fn f<T, I: Iterator<Item = T>>(x: &ConIterOfIter<T, I>) { share(x); } fn main() {}",
  "fn f<T: Send + Sync, I: Iterator<Item = T> + Send>(x: &ConIterOfIter<T, I>) { share(x); } fn main() {}")
# references cross threads: the element must be Sync; values cross threads: the element must be Send
for n, mk in [("slice", "v.as_slice().into_con_iter()"), ("vec-ref", "v.con_iter()"), ("iter-ref", "v.iter().into_con_iter()")]:
    p(f"share-{n}-cell", "fn main() { let v = vec![Cell::new(1)]; let it = %s; %s }" % (mk, SPAWN), "fn main() { let v = vec![Mutex::new(1)]; let it = %s; %s }" % (mk, SPAWN))
for n, mk in [("vec", "vec![X].into_con_iter()"), ("array", "[X].into_con_iter()"), ("iter", "(0..2).map(|_| X).into_con_iter()")]:
    p(f"share-{n}-notsend", "fn main() { let it = %s; %s }" % (mk.replace("X", "NotSend(PhantomData)"), SPAWN), "fn main() { let it = %s; %s }" % (mk.replace("X", "Fine(1)"), SPAWN))

# ---- thread-safety of the wrapped iterator ----
W = [("new", "ConIterOfIter::new(@)"), ("into", "@.into_con_iter()"), ("from", "ConIterOfIter::from(@)")]
for n, mk in W:
    p(f"wrapped-create-{n}", "fn main() { let it = %s; }" % mk.replace("@", "RcIter(Rc::new(Cell::new(0)))"), "fn main() { let it = %s; }" % mk.replace("@", "ArcIter(Arc::new(Mutex::new(0)))"))
p("wrapped-share", "fn main() { let it = RcIter(Rc::new(Cell::new(0))).into_con_iter(); %s }" % SPAWN, "fn main() { let it = ArcIter(Arc::new(Mutex::new(0))).into_con_iter(); %s }" % SPAWN)
p("wrapped-send", "fn main() { let it = RcIter(Rc::new(Cell::new(0))).into_con_iter(); send(it); }", "fn main() { let it = ArcIter(Arc::new(Mutex::new(0))).into_con_iter(); send(it); }")
p("wrapped-closure-rc", "fn main() { let rc = Rc::new(Cell::new(0)); let r2 = rc.clone(); let it = (0..9).map(move |x| { r2.set(x); x }).into_con_iter(); %s }" % SPAWN,
  "fn main() { let rc = Arc::new(Mutex::new(0)); let r2 = rc.clone(); let it = (0..9).map(move |x| { *r2.lock().unwrap() = x; x }).into_con_iter(); %s }" % SPAWN)

# ---- lifetimes: references do not outlive the collection ----
V = "let v = vec![String::new(), String::new()];"
VO = "v"
for n, src, mk in [("vec", V, "v.con_iter()"), ("slice", V, "v.as_slice().into_con_iter()"), ("array", "let v = [String::new(), String::new()];", "v.con_iter()"),
                   ("iter", V, "v.iter().into_con_iter()"), ("slice-new", V, "ConIterOfSlice::new(&v)")]:
    def esc(pid, ty, get):
        p(f"{pid}-{n}", "fn main() { let x: %s = { %s let it = %s; %s }; _ = x; }" % (ty, src, mk, get), "fn main() { %s let x: %s = { let it = %s; %s }; _ = x; }" % (src, ty, mk, get))
    esc("ref-next", "&String", "it.next().unwrap()")
    esc("ref-id", "&String", "it.next_id_and_value().unwrap().value")
    esc("ref-values", "&String", "let y = it.values().next().unwrap(); y")
    esc("ref-ids", "&String", "let y = it.ids_and_values().next().unwrap().1; y")
    esc("ref-chunk", "&String", "let mut c = it.next_chunk(2).unwrap(); let y = c.values.next().unwrap(); y")
    esc("ref-buf", "&String", "let mut b = it.buffered_iter(2); let mut c = b.next().unwrap(); let y = c.values.next().unwrap(); y")
    esc("ref-seq", "&String", "it.into_seq_iter().next().unwrap()")
    esc("ref-fold", "Option<&String>", "it.fold(1, None, |_, x| Some(x))")
    # the iterator itself
    p(f"iter-escapes-{n}", "fn main() { let it = { %s %s }; _ = it.next(); }" % (src, mk), "fn main() { %s let it = { %s }; _ = it.next(); }" % (src, mk))
    p(f"iter-cloned-escapes-{n}", "fn main() { let it = { %s %s.cloned() }; _ = it.next(); }" % (src, mk), "fn main() { %s let it = { %s.cloned() }; _ = it.next(); }" % (src, mk))
    for ad in ("", ".cloned()"):
        a = ad and "-cloned"
        p(f"chunk-escapes-{n}{a}", "fn main() { let mut c; { %s let it = %s%s; c = it.next_chunk(2).unwrap(); drop(c.values.next()); std::mem::forget(it); } _ = c.values.next(); }" % (src, mk, ad),
          "fn main() { %s let it = %s%s; let mut c; { c = it.next_chunk(2).unwrap(); } _ = c.values.next(); }" % (src, mk, ad))
        p(f"seq-escapes-{n}{a}", "fn main() { let mut c = { %s let it = %s%s; it.into_seq_iter() }; _ = c.next(); }" % (src, mk, ad),
          "fn main() { %s let mut c = { let it = %s%s; it.into_seq_iter() }; _ = c.next(); }" % (src, mk, ad))
        p(f"drop-source-of-chunk-{n}{a}", "fn main() { %s let it = %s%s; let mut c = it.next_chunk(2).unwrap(); drop(v); _ = c.values.next(); }" % (src, mk, ad),
          "fn main() { %s let it = %s%s; let mut c = it.next_chunk(2).unwrap(); _ = c.values.next(); drop(c); drop(it); drop(v); }" % (src, mk, ad))
        p(f"drop-source-of-seq-{n}{a}", "fn main() { %s let it = %s%s; let mut c = it.into_seq_iter(); drop(v); _ = c.next(); }" % (src, mk, ad),
          "fn main() { %s let it = %s%s; let mut c = it.into_seq_iter(); _ = c.next(); drop(c); drop(v); }" % (src, mk, ad))
        p(f"drop-source-of-buffer-{n}{a}", "fn main() { %s let it = %s%s; let mut b = it.buffered_iter(2); drop(v); _ = b.next().is_some(); }" % (src, mk, ad),
          "fn main() { %s let it = %s%s; let mut b = it.buffered_iter(2); _ = b.next().is_some(); drop(b); drop(it); drop(v); }" % (src, mk, ad))
    # the collection is borrowed as long as the iterator or a reference lives
    p(f"drop-source-{n}", "fn main() { %s let it = %s; drop(v); _ = it.next(); }" % (src, mk), "fn main() { %s let it = %s; _ = it.next(); drop(it); drop(v); }" % (src, mk))
    p(f"drop-source-ref-{n}", "fn main() { %s let it = %s; let x = it.next(); drop(it); drop(v); println!(\"{:?}\", x); }" % (src, mk),
      "fn main() { %s let it = %s; let x = it.next(); drop(it); println!(\"{:?}\", x); drop(v); }" % (src, mk))
    p(f"static-{n}", "fn f(v: &[String]) -> &'static String { let it = v.con_iter2(); it.next().unwrap() } fn main() {}".replace("v.con_iter2()", "v.into_con_iter()"),
      "fn f(v: &[String]) -> &String { let it = v.into_con_iter(); it.next().unwrap() } fn main() {}") if n == "slice" else None
p("mutate-source", "fn main() { let mut v = vec![1]; let it = v.con_iter(); v.push(2); _ = it.next(); }", "fn main() { let mut v = vec![1]; v.push(2); let it = v.con_iter(); _ = it.next(); }")
p("mutate-array", "fn main() { let mut v = [1, 2]; let it = v.con_iter(); v[0] = 2; _ = it.next(); }", "fn main() { let mut v = [1, 2]; v[0] = 2; let it = v.con_iter(); _ = it.next(); }")
p("spawn-static", "fn main() { let v = vec![1]; let it = v.con_iter(); std::thread::spawn(move || it.next()); }", "fn main() { let v = vec![1]; let it = v.into_con_iter(); std::thread::spawn(move || it.next()); }")

# ---- chunks and buffers ----
KINDS = [
    ("vec", "let it = vec![String::new(), String::new(), String::new()].into_con_iter();"),
    ("array", "let it = [String::new(), String::new(), String::new()].into_con_iter();"),
    ("slice", "let v = [String::new(), String::new(), String::new()]; let it = v.as_slice().into_con_iter();"),
    ("range", "let it = (0..9usize).con_iter();"),
    ("iter", "let it = (0..9usize).map(|x| x.to_string()).into_con_iter();"),
    ("cloned", "let v = [String::new(), String::new(), String::new()]; let it = v.con_iter().cloned();"),
    ("copied", "let v = [1, 2, 3]; let it = v.con_iter().copied();"),
    ("cloned-iter", "let v = [String::new(), String::new(), String::new()]; let it = v.iter().into_con_iter().cloned();"),
]
for n, mk in KINDS:
    p(f"buffer-two-chunks-{n}", "fn main() { %s let mut b = it.buffered_iter(2); let mut c = b.next().unwrap(); let d = b.next(); _ = c.values.next(); }" % mk,
      "fn main() { %s let mut b = it.buffered_iter(2); let mut c = b.next().unwrap(); _ = c.values.next(); drop(c); let d = b.next(); }" % mk)
    p(f"buffer-two-threads-{n}", "fn main() { %s let mut b = it.buffered_iter(2); std::thread::scope(|s| { s.spawn(|| { _ = b.next().is_some(); }); s.spawn(|| { _ = b.next().is_some(); }); }); }" % mk,
      "fn main() { %s std::thread::scope(|s| { s.spawn(|| { let mut b = it.buffered_iter(2); _ = b.next().is_some(); }); s.spawn(|| { let mut b = it.buffered_iter(2); _ = b.next().is_some(); }); }); }" % mk)
    p(f"buffer-outlived-{n}", "fn main() { %s let mut c = { let mut b = it.buffered_iter(2); b.next().unwrap() }; _ = c.values.next(); }" % mk,
      "fn main() { %s let mut b = it.buffered_iter(2); let mut c = { b.next().unwrap() }; _ = c.values.next(); }" % mk)
    p(f"buffer-iter-dropped-{n}", "fn main() { %s let mut b = it.buffered_iter(2); drop(it); _ = b.next().is_some(); }" % mk,
      "fn main() { %s let mut b = it.buffered_iter(2); _ = b.next().is_some(); drop(b); drop(it); }" % mk)
    p(f"buffer-into-seq-{n}", "fn main() { %s let mut b = it.buffered_iter(2); let s = it.into_seq_iter(); _ = b.next().is_some(); }" % mk,
      "fn main() { %s let mut b = it.buffered_iter(2); _ = b.next().is_some(); drop(b); let s = it.into_seq_iter(); }" % mk)
    p(f"values-outlived-{n}", "fn main() { %s let mut b = it.values(); drop(it); _ = b.next(); }" % mk, "fn main() { %s let mut b = it.values(); _ = b.next(); drop(b); drop(it); }" % mk)
    p(f"ids-outlived-{n}", "fn main() { %s let mut b = it.ids_and_values(); drop(it); _ = b.next(); }" % mk, "fn main() { %s let mut b = it.ids_and_values(); _ = b.next(); drop(b); drop(it); }" % mk)
    p(f"seq-then-use-{n}", "fn main() { %s let s = it.into_seq_iter(); _ = it.next(); }" % mk, "fn main() { %s _ = it.next(); let s = it.into_seq_iter(); }" % mk)
for n, mk in KINDS[:2]:
    p(f"chunk-outlives-iter-{n}", "fn main() { %s let mut c = it.next_chunk(2).unwrap(); drop(it); _ = c.values.next(); }" % mk,
      "fn main() { %s let mut c = it.next_chunk(2).unwrap(); _ = c.values.next(); drop(c); drop(it); }" % mk)
    p(f"chunk-into-seq-{n}", "fn main() { %s let mut c = it.next_chunk(2).unwrap(); let s = it.into_seq_iter(); _ = c.values.next(); }" % mk,
      "fn main() { %s let mut c = it.next_chunk(2).unwrap(); _ = c.values.next(); drop(c); let s = it.into_seq_iter(); }" % mk)
p("clone-of-consuming-vec", "fn main() { let it = vec![String::new()].into_con_iter(); let i2 = it.clone(); _ = (it.next(), i2.next()); }", "fn main() { let v = vec![String::new()]; let it = v.con_iter(); let i2 = it.clone(); _ = (it.next(), i2.next()); }")
p("clone-of-consuming-array", "fn main() { let it = [String::new()].into_con_iter(); let i2 = it.clone(); _ = (it.next(), i2.next()); }", "fn main() { let v = [String::new()]; let it = v.con_iter(); let i2 = it.clone(); _ = (it.next(), i2.next()); }")
p("source-after-consumption", "fn main() { let v = vec![String::new()]; let it = v.into_con_iter(); println!(\"{:?}\", v); }", "fn main() { let v = vec![String::new()]; let it = v.con_iter(); println!(\"{:?}\", v); }")

# ---- low level calls which would allow two owners if they were safe: which of them compile without unsafe ----
LOW = {
    "low_get": "use orx_concurrent_iter::iter::atomic_iter::*; fn main() { let it = vec![String::new()].into_con_iter(); let a = AtomicIter::get(&it, 0); }",
    "low_store": "use orx_concurrent_iter::iter::atomic_iter::*; fn main() { let it = vec![String::new()].into_con_iter(); AtomicIter::counter(&it).store(0); }",
    "low_add": "use orx_concurrent_iter::iter::atomic_iter::*; fn main() { let it = vec![String::new()].into_con_iter(); AtomicIter::counter(&it).fetch_and_add(1); AtomicIter::counter(&it).fetch_and_increment(); AtomicIter::counter(&it).current(); }",
    "low_progress": "use orx_concurrent_iter::iter::atomic_iter::*; fn main() { let it = vec![String::new()].into_con_iter(); AtomicIter::progress_and_get_begin_idx(&it, 1); }",
    "low_fetch": "use orx_concurrent_iter::iter::atomic_iter::*; fn main() { let it = vec![String::new()].into_con_iter(); AtomicIter::fetch_one(&it); drop(AtomicIter::fetch_n(&it, 2)); AtomicIter::early_exit(&it); }",
    "low_clone_array": "fn main() { let it = [String::new()].into_con_iter(); let b = it.clone(); }",
    "low_clone_vec": "fn main() { let it = vec![String::new()].into_con_iter(); let b = it.clone(); }",
}

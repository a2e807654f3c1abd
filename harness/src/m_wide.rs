//! Views, iterators and vectors of more than 2^32 elements or bytes
use crate::guard::WideBuf;
use crate::json::*;
use crate::lay::*;
use crate::m_ext::item;
use crate::{with_elem, with_variadic, Machine};
use flatdata::*;
use std::ops::Bound;

pub fn num(x: &J) -> usize {
    let v: Vec<u8> = x.as_arr().iter().map(|b| b.as_int() as u8).collect();
    let mut a = [0; 8];
    a.copy_from_slice(&v);
    u64::from_le_bytes(a) as usize
}
pub fn eight(x: usize) -> J {
    bytes(&(x as u64).to_le_bytes())
}

/// What views and iterators of both kinds have in common
trait Wide: Clone + std::fmt::Debug {
    type It: Clone + std::fmt::Debug + DoubleEndedIterator + ExactSizeIterator;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn at(&self, i: usize) -> J;
    fn iter(&self) -> Self::It;
    fn show(x: <Self::It as Iterator>::Item) -> J;
    fn slice(&self, r: (Bound<usize>, Bound<usize>)) -> Self;
}
impl<T: Lay> Wide for ArrayView<'static, T> {
    type It = <ArrayView<'static, T> as IntoIterator>::IntoIter;
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
    fn at(&self, i: usize) -> J {
        small(&get_all::<T>(&self.at(i)))
    }
    fn iter(&self) -> Self::It {
        self.iter()
    }
    fn show(x: <Self::It as Iterator>::Item) -> J {
        small(&get_all::<T>(&x))
    }
    fn slice(&self, r: (Bound<usize>, Bound<usize>)) -> Self {
        self.slice(r)
    }
}
impl<T: Variadic> Wide for MultiArrayView<'static, T::Idx, T> {
    type It = <MultiArrayView<'static, T::Idx, T> as IntoIterator>::IntoIter;
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
    fn at(&self, i: usize) -> J {
        Self::show(self.at(i))
    }
    fn iter(&self) -> Self::It {
        self.iter()
    }
    fn show(x: <Self::It as Iterator>::Item) -> J {
        J::A(x.take(2000).map(|y| item::<T>(&y)).collect())
    }
    fn slice(&self, r: (Bound<usize>, Bound<usize>)) -> Self {
        self.slice(r)
    }
}

struct Views<V: Wide> {
    bufs: Vec<WideBuf>,
    views: Vec<V>,
    iters: Vec<V::It>,
}
impl<V: Wide> Drop for Views<V> {
    fn drop(&mut self) {
        self.views.clear();
        self.iters.clear();
        self.bufs.iter_mut().for_each(|b| b.free());
    }
}

fn put<T>(v: &mut Vec<T>, n: usize, x: T) {
    if n < v.len() {
        v[n] = x
    } else {
        v.push(x)
    }
}

fn array<T: Lay>(op: &J) -> Box<dyn Machine> {
    let mut b = WideBuf::new(num(op.get("len")) * T::SIZE_IN_BYTES);
    for x in op.arr("el") {
        let mut v = Vector::<T>::with_len(1);
        set_all::<T>(&mut v.at_mut(0), &from_small(&x.as_arr()[1]));
        b.put(num(&x.as_arr()[0]) * T::SIZE_IN_BYTES, v.as_bytes());
    }
    let d = b.get();
    Box::new(Views { bufs: vec![b], views: vec![ArrayView::<'static, T>::new(d)], iters: vec![] })
}
fn nonzero(b: &[u8], mut f: impl FnMut(usize, u8)) {
    let zero = [0; 4096];
    for (n, c) in b.chunks(4096).enumerate() {
        if *c != zero[..c.len()] {
            c.iter().enumerate().filter(|(_, x)| **x != 0).for_each(|(k, x)| f(n * 4096 + k, *x));
        }
    }
}
/// The buckets which are not empty are the last ones
fn multi<T: Variadic>(op: &J) -> Box<dyn Machine> {
    let n = num(op.get("len"));
    let size = <T::Idx as Struct>::SIZE_IN_BYTES;
    let mut idx = WideBuf::new((n + 1) * size);
    let mut data = vec![];
    let mut pos = 0;
    let mut item = vec![];
    // buckets as a multivector stores them, with the position of each
    for (k, x) in op.arr("el").iter().enumerate() {
        let at = num(&x.as_arr()[0]);
        if at != n - op.arr("el").len() + k {
            tool_error("not the last buckets");
        }
        for x in x.as_arr()[1].as_arr() {
            let v = x.as_arr();
            let vals: Vec<_> = v[1..].iter().map(|v| v.as_int().to_le_bytes()).collect();
            item.clear();
            // padding
            item.resize(8, 0);
            T::add(&mut T::create_mut(&mut item), v[0].as_int(), &vals);
            let b = &item[..item.len() - 8];
            nonzero(b, |k, x| data.push((pos + k, x)));
            pos += b.len();
        }
        let mut v = Vector::<T::Idx>::with_len(1);
        T::Idx::set_index(v.at_mut(0), pos);
        idx.put((at + 1) * size, v.as_bytes());
    }
    let mut b = WideBuf::new(pos);
    for (k, x) in data {
        b.put(k, &[x]);
    }
    let view = MultiArrayView::<'static, T::Idx, T>::new(ArrayView::new(idx.get()), b.get());
    Box::new(Views { bufs: vec![idx, b], views: vec![view], iters: vec![] })
}
struct Vecs<T: Lay>(Vector<T>);

pub fn new(op: &J) -> Box<dyn Machine> {
    match op.st("kind") {
        "av" => with_elem!(op.st("s"), L => array::<L>(op)),
        "mv" => with_variadic!(op.st("s"), L => multi::<L>(op)),
        "vec" => with_elem!(op.st("s"), L => Box::new(Vecs::<L>(Vector::with_len(num(op.get("len")))))),
        x => tool_error(&format!("unknown kind {}", x)),
    }
}

fn dbg(x: String) -> J {
    obj(vec![("k", s("dbg")), ("s", s(&x))])
}
fn view<V: Wide>(v: &V) -> J {
    let list = |x: Option<<V::It as Iterator>::Item>| J::A(x.into_iter().map(V::show).collect());
    obj(vec![
        ("k", s("view")),
        ("n", eight(v.len())),
        ("empty", J::B(v.is_empty())),
        ("first", list(v.iter().next())),
        ("last", list(v.iter().next_back())),
    ])
}
fn at<V: Wide>(v: &V, op: &J) -> J {
    obj(vec![("k", s("el")), ("v", v.at(num(op.get("i"))))])
}

impl<V: Wide> Machine for Views<V> {
    fn step(&mut self, op: &J) -> J {
        match op.st("op") {
            "state" => view(&self.views[op.us("r")]),
            "at" => at(&self.views[op.us("r")], op),
            "slice" => {
                let bound = |k, x| match (op.st(k), num(op.get(x))) {
                    ("inc", x) => Bound::Included(x),
                    ("exc", x) => Bound::Excluded(x),
                    _ => Bound::Unbounded,
                };
                let v = self.views[op.us("r")].slice((bound("sk", "s"), bound("ek", "e")));
                let j = view(&v);
                put(&mut self.views, op.us("q"), v);
                j
            }
            "iter" => {
                let it = self.views[op.us("r")].iter();
                put(&mut self.iters, op.us("x"), it);
                kind("ok")
            }
            "clone" => {
                let it = self.iters[op.us("y")].clone();
                put(&mut self.iters, op.us("x"), it);
                kind("ok")
            }
            k if k == "next" || k == "back" => {
                let it = &mut self.iters[op.us("x")];
                let v = if k == "next" { it.next() } else { it.next_back() };
                let n = it.len();
                obj(vec![
                    ("k", s("step")),
                    ("v", J::A(v.into_iter().map(V::show).collect())),
                    ("n", eight(n)),
                    ("hint", J::B(it.size_hint() == (n, Some(n)))),
                ])
            }
            "dbg" => dbg(shown(&self.views[op.us("r")])),
            "idbg" => dbg(shown(&self.iters[op.us("x")])),
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

impl<T: Lay> Vecs<T> {
    fn state(&self) -> J {
        obj(vec![
            ("k", s("vec")),
            ("n", eight(self.0.len())),
            ("size", eight(self.0.size_in_bytes())),
            ("view", eight(self.0.as_view().len())),
            ("bytes", eight(self.0.as_bytes().len())),
        ])
    }
}
impl<T: Lay> Machine for Vecs<T> {
    fn step(&mut self, op: &J) -> J {
        match op.st("op") {
            "state" => view(&ArrayView::<'static, T>::new(unsafe { std::mem::transmute(self.0.as_bytes()) })),
            "at" => obj(vec![("k", s("el")), ("v", small(&get_all::<T>(&self.0.at(num(op.get("i"))))))]),
            "grow" => {
                set_all::<T>(&mut self.0.grow(), &from_small(op.get("v")));
                self.state()
            }
            "set" => {
                set_all::<T>(&mut self.0.at_mut(num(op.get("i"))), &from_small(op.get("v")));
                self.state()
            }
            "dbg" => dbg(shown(&self.0)),
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

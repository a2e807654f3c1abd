//! ArrayView and MultiArrayView: element access, slices, Debug
use crate::json::*;
use crate::lay::*;
use crate::m_vec::index;
use crate::{with_elem, with_variadic, Machine};
use flatdata::*;
use std::ops::Bound;

/// What views of both kinds have in common
pub trait View: Clone + std::fmt::Debug {
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn at(&self, i: usize) -> J;
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> Self;
    fn size() -> usize;
    fn data(&self) -> J;
    /// Which items of element i equal which of element j of another view
    fn compare(&self, i: usize, other: &Self, j: usize) -> Option<Vec<Vec<bool>>>;
    /// Sizes of the items of element i
    fn sizes(&self, i: usize) -> Vec<usize>;
}
/// None if the results of == and != are inconsistent
fn matrix<A: PartialEq + Clone>(a: &[A], b: &[A]) -> Option<Vec<Vec<bool>>> {
    let consistent = a.iter().all(|x| *x == x.clone())
        && a.iter().all(|x| b.iter().all(|y| (x == y) != (x != y) && (x == y) == (y == x)));
    if !consistent {
        return None;
    }
    Some(a.iter().map(|x| b.iter().map(|y| x == y).collect()).collect())
}

impl<T: Lay> View for ArrayView<'static, T> {
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
    fn at(&self, i: usize) -> J {
        small(&get_all::<T>(&self.at(i)))
    }
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> Self {
        self.slice(r)
    }
    fn size() -> usize {
        T::SIZE_IN_BYTES
    }
    fn data(&self) -> J {
        if self.as_ref() != self.as_bytes() {
            return sparse(&[]);
        }
        sparse(self.as_bytes())
    }
    fn compare(&self, i: usize, other: &Self, j: usize) -> Option<Vec<Vec<bool>>> {
        matrix(&[self.at(i)], &[other.at(j)])
    }
    fn sizes(&self, _: usize) -> Vec<usize> {
        vec![T::SIZE_IN_BYTES]
    }
}

impl<T: Variadic> View for MultiArrayView<'static, T::Idx, T> {
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
    fn at(&self, i: usize) -> J {
        J::A(self.at(i).take(2000).map(|x| item::<T>(&x)).collect())
    }
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> Self {
        self.slice(r)
    }
    fn size() -> usize {
        <T::Idx as Struct>::SIZE_IN_BYTES
    }
    fn data(&self) -> J {
        sparse(&[])
    }
    fn compare(&self, i: usize, other: &Self, j: usize) -> Option<Vec<Vec<bool>>> {
        let a: Vec<_> = self.at(i).take(2000).collect();
        let b: Vec<_> = other.at(j).take(2000).collect();
        matrix(&a, &b)
    }
    fn sizes(&self, i: usize) -> Vec<usize> {
        self.at(i).take(2000).map(|x| x.size_in_bytes()).collect()
    }
}
use crate::m_ext::item;

/// Builds a view of the elements in memory which is never freed.
pub fn array_view<T: Lay>(op: &J) -> ArrayView<'static, T> {
    let mut v = Vector::<T>::new();
    for x in op.arr("el") {
        set_all::<T>(&mut v.grow(), &from_small(x));
    }
    let mut b = v.as_bytes().to_vec();
    // bytes of an incomplete element
    let extra = op.us("extra");
    b.extend(vec![0xff; extra]);
    let n = b.len();
    b.extend(vec![0xee; 8]);
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    ArrayView::new(&b[..n])
}
pub fn multi_view<T: Variadic>(op: &J) -> MultiArrayView<'static, T::Idx, T> {
    let st = MemoryResourceStorage::new("x");
    let p: *const dyn ResourceStorage = &*st;
    std::mem::forget(st);
    let st: &'static dyn ResourceStorage = unsafe { &*p };
    let mut w = create_multi_vector::<T::Idx, T>(st, "v", "s").unwrap();
    for b in op.arr("el") {
        let mut g = w.grow().unwrap();
        for x in b.as_arr() {
            let x = x.as_arr();
            let vals: Vec<_> = x[1..].iter().map(|v| v.as_int().to_le_bytes()).collect();
            T::add(&mut g, x[0].as_int(), &vals);
        }
    }
    w.close().unwrap()
}

/// Views of raw resources, possibly damaged
fn raw_multi<T: Variadic>(op: &J) -> MultiArrayView<'static, T::Idx, T> {
    let mut a = op.by("idx");
    let n = a.len();
    a.extend(vec![0xee; 8]);
    let a: &'static [u8] = Box::leak(a.into_boxed_slice());
    let mut b = op.by("dat");
    let m = b.len();
    b.extend(vec![0xee; 64]);
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    MultiArrayView::new(ArrayView::new(&a[..n]), &b[..m])
}

pub fn new(op: &J) -> Box<dyn Machine> {
    match op.st("kind") {
        "av" => with_elem!(op.st("s"), L => Box::new(Views { regs: vec![array_view::<L>(op)] })),
        "mv" => with_variadic!(op.st("s"), L => Box::new(Views { regs: vec![multi_view::<L>(op)] })),
        "rawmv" => with_variadic!(op.st("s"), L => Box::new(Views { regs: vec![raw_multi::<L>(op)] })),
        x => tool_error(&format!("unknown kind {}", x)),
    }
}

struct Views<V: View> {
    regs: Vec<V>,
}

impl<V: View> Views<V> {
    fn state(&self, r: usize) -> J {
        let v = &self.regs[r];
        let n = v.len();
        obj(vec![
            ("k", s("sl")),
            ("n", i(n)),
            ("empty", J::B(v.is_empty())),
            ("el", J::A((0..n.min(1000)).map(|j| v.at(j)).collect())),
            ("by", v.data()),
        ])
    }
}

impl<V: View> Machine for Views<V> {
    fn step(&mut self, op: &J) -> J {
        let r = op.us("r");
        match op.st("op") {
            "at" => {
                let n = index(op.get("i"), V::size());
                obj(vec![("k", s("el")), ("v", self.regs[r].at(n))])
            }
            "atq" => {
                // only whether it panics
                let n = index(op.get("i"), V::size());
                self.regs[r].at(n);
                kind("ok")
            }
            "slice" => {
                let (sk, ek) = (op.st("sk"), op.st("ek"));
                let a = index(op.get("s"), V::size());
                let b = index(op.get("e"), V::size());
                let v = self.regs[r].clone();
                let tuple = op.bool("tuple");
                let x = match (sk, ek) {
                    ("inc", "exc") if !tuple => v.slice(a..b),
                    ("inc", "inc") if !tuple => v.slice(a..=b),
                    ("inc", "unb") if !tuple => v.slice(a..),
                    ("unb", "exc") if !tuple => v.slice(..b),
                    ("unb", "inc") if !tuple => v.slice(..=b),
                    ("unb", "unb") if !tuple => v.slice(..),
                    _ => {
                        let bound = |k, x| match k {
                            "inc" => Bound::Included(x),
                            "exc" => Bound::Excluded(x),
                            "unb" => Bound::Unbounded,
                            x => tool_error(&format!("bad bound {}", x)),
                        };
                        v.slice((bound(sk, a), bound(ek, b)))
                    }
                };
                let q = op.us("q");
                if q < self.regs.len() {
                    self.regs[q] = x;
                } else {
                    self.regs.push(x);
                }
                self.state(self.regs.len().min(q + 1) - 1)
            }
            "cmp" => {
                let (a, b) = (&self.regs[r], &self.regs[op.us("q")]);
                let m = a.compare(op.us("i"), b, op.us("j"));
                obj(vec![
                    ("k", s("cmp")),
                    ("ok", J::B(m.is_some())),
                    ("v", J::A(m.unwrap_or_default().iter().map(|x| J::A(x.iter().map(|y| J::B(*y)).collect())).collect())),
                    ("sz", J::A(a.sizes(op.us("i")).into_iter().map(i).collect())),
                ])
            }
            "state" => self.state(r),
            "dbg" => obj(vec![("k", s("dbg")), ("s", s(&shown(&self.regs[r])))]),
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}


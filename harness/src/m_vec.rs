//! Vector
use crate::json::*;
use crate::lay::*;
use crate::{guarded, with_elem, Machine};
use flatdata::*;
use std::marker::PhantomData;

pub struct Vecs<T: Lay> {
    regs: Vec<Vector<T>>,
    _p: PhantomData<T>,
}

pub fn new(op: &J) -> Box<dyn Machine> {
    with_elem!(op.st("s"), L => Box::new(Vecs::<L> { regs: vec![], _p: PhantomData }))
}

/// Indices which do not fit into the integers of TLC have names.
pub fn index(x: &J, size: usize) -> usize {
    match x {
        J::I(n) => *n as usize,
        J::S(n) => match &n[..] {
            "max" => std::usize::MAX,
            "max-1" => std::usize::MAX - 1,
            "max-2" => std::usize::MAX - 2,
            "half" => std::usize::MAX / 2 + 1,
            "i32" => 1 << 32,
            "i32+1" => (1 << 32) + 1,
            // smallest indices whose position overflows
            "wrap" => (std::usize::MAX / size).wrapping_add(1).max(1 << 40),
            "wrap-1" => (std::usize::MAX / size).max(1 << 40),
            "wrap+1" => (std::usize::MAX / size).wrapping_add(2).max(1 << 40),
            "quarter" => std::usize::MAX / 4 + 1,
            "quarter+1" => std::usize::MAX / 4 + 2,
            "iwrap" => (std::isize::MAX as usize / size) + 1,
            x => tool_error(&format!("unknown index {}", x)),
        },
        x => tool_error(&format!("bad index {}", x)),
    }
}

impl<T: Lay> Vecs<T> {
    fn put(&mut self, r: usize, x: Vector<T>) {
        if r < self.regs.len() {
            self.regs[r] = x;
        } else if r == self.regs.len() {
            self.regs.push(x);
        } else {
            tool_error("registers have to be used in order");
        }
    }
    /// Everything that can be observed of a vector
    fn state(&self, r: usize) -> J {
        let v = &self.regs[r];
        let n = v.len();
        let view = v.as_view();
        let same = v.as_ref() == v.as_bytes()
            && view.as_bytes() == v.as_bytes()
            && view.len() == n
            && v.is_empty() == (n == 0)
            && ArrayView::from(v).as_bytes().as_ptr() == v.as_bytes().as_ptr()
            && (0..n).all(|i| get_all::<T>(&v.at(i)) == get_all::<T>(&view.at(i)));
        obj(vec![
            ("k", s("vec")),
            ("len", i(n)),
            ("size", i(v.size_in_bytes())),
            ("el", J::A((0..n.min(1000)).map(|i| small(&get_all::<T>(&v.at(i)))).collect())),
            ("by", sparse(v.as_bytes())),
            ("c", J::B(same)),
        ])
    }
}

impl<T: Lay> Machine for Vecs<T> {
    fn step(&mut self, op: &J) -> J {
        let r = op.us("r");
        match op.st("op") {
            "new" => {
                let v = match op.int("n") {
                    -1 => Vector::new(),
                    -2 => Vector::default(),
                    n => Vector::with_len(n as usize),
                };
                self.put(r, v);
                self.state(r)
            }
            "grow" => {
                let before = self.regs[r].as_bytes().as_ptr();
                let vals = from_small(op.get("v"));
                let zero = {
                    let mut x = self.regs[r].grow();
                    let zero = getm_all::<T>(&x).iter().all(|v| *v == [0; 8]);
                    set_all::<T>(&mut x, &vals);
                    zero
                };
                let moved = before != self.regs[r].as_bytes().as_ptr();
                obj(vec![("k", s("grow")), ("zero", J::B(zero)), ("moved", J::B(moved)), ("st", self.state(r))])
            }
            "set" => {
                let (n, f) = (index(op.get("i"), T::SIZE_IN_BYTES), op.us("f"));
                // for panics: nothing is changed
                let ok = guarded(|| T::set(&mut self.regs[r].at_mut(n), f, op.int("v").to_le_bytes()));
                let k = if ok.is_some() { "ok" } else { "panic" };
                obj(vec![("k", s("set")), ("res", s(k)), ("st", self.state(r))])
            }
            "at" => {
                let n = index(op.get("i"), T::SIZE_IN_BYTES);
                let v = guarded(|| small(&get_all::<T>(&self.regs[r].at(n))));
                let k = if v.is_some() { "ok" } else { "panic" };
                obj(vec![("k", s("at")), ("res", s(k)), ("v", v.unwrap_or(J::A(vec![])))])
            }
            "reserve" => {
                self.regs[r].reserve(op.us("n"));
                self.state(r)
            }
            "huge" => {
                let n = index(op.get("n"), T::SIZE_IN_BYTES);
                let ok = match op.st("what") {
                    "new" => guarded(|| drop(Vector::<T>::with_len(n))),
                    _ => guarded(|| self.regs[r].reserve(n)),
                };
                let k = if ok.is_some() { "ok" } else { "panic" };
                obj(vec![("k", s("huge")), ("res", s(k)), ("st", self.state(r))])
            }
            "clone" => {
                let v = self.regs[op.us("q")].clone();
                self.put(r, v);
                self.state(r)
            }
            "state" => self.state(r),
            "copy" => {
                // element i of r := element j of q
                let (n, q, m) = (op.us("i"), op.us("q"), op.us("j"));
                let p: *const Vector<T> = &self.regs[q];
                let src = unsafe { &*p }.at(m);
                T::fill(&mut self.regs[r].at_mut(n), &src);
                self.state(r)
            }
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

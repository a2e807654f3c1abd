//! Iterators of ArrayView, MultiArrayView and of its items
use crate::json::*;
use crate::lay::*;
use crate::m_ext::item;
use crate::m_vec::index;
use crate::m_view::{array_view, multi_view};
use crate::{with_elem, with_variadic, Machine};
use flatdata::*;
use std::fmt::Debug;
use std::iter::FusedIterator;

/// Steps from the front
trait Front {
    fn next(&mut self) -> Option<J>;
    fn nth(&mut self, n: usize) -> Option<J>;
    fn hint(&self) -> (usize, Option<usize>);
    fn debug(&self) -> String;
    fn adapt(&self, name: &str, k: usize) -> Option<Vec<J>>;
    fn dup(&self) -> Box<dyn Front>;
    // and from the back
    fn back(&mut self) -> Option<J>;
    fn nth_back(&mut self, n: usize) -> Option<J>;
    fn len(&self) -> usize;
}

fn num(x: usize) -> J {
    J::A(vec![i(x)])
}
fn pair(a: J, b: J) -> J {
    J::A(vec![a, b])
}

/// Adapters which need steps from the front only
fn adapt_front<I>(it: I, f: impl Fn(I::Item) -> J + Copy, name: &str, k: usize) -> Option<Vec<J>>
where
    I: Iterator + Clone + FusedIterator,
{
    Some(match name {
        "collect" => it.map(f).collect(),
        "skip" => it.skip(k).map(f).collect(),
        "take" => it.take(k).map(f).collect(),
        "step" => it.step_by(k.saturating_add(1)).map(f).collect(),
        "enumerate" => it.enumerate().map(|(n, x)| pair(i(n), f(x))).collect(),
        "zip" => it.clone().zip(it.skip(k)).map(|(a, b)| pair(f(a), f(b))).collect(),
        "chain" => it.clone().skip(k).chain(it).map(f).collect(),
        "last" => it.last().map(f).into_iter().collect(),
        "count" => vec![num(it.count())],
        "for" => {
            let mut v = vec![];
            for x in it {
                v.push(f(x));
            }
            v
        }
        "fold" => it.fold(vec![], |mut v, x| {
            v.push(f(x));
            v
        }),
        "skipnext" => {
            let mut it = it.skip(k);
            it.next();
            it.map(f).collect()
        }
        "peek" => {
            let mut it = it.peekable();
            it.peek();
            it.map(f).collect()
        }
        "byref" => {
            let mut it = it;
            let mut v: Vec<J> = it.by_ref().take(k).map(f).collect();
            v.extend(it.map(f));
            v
        }
        _ => return None,
    })
}

/// Adapters which use both ends and the exact size
fn adapt_both<I>(it: I, f: impl Fn(I::Item) -> J + Copy, name: &str, k: usize) -> Option<Vec<J>>
where
    I: Iterator + Clone + FusedIterator + DoubleEndedIterator + ExactSizeIterator,
{
    Some(match name {
        "rev" => it.rev().map(f).collect(),
        "revskip" => it.rev().skip(k).map(f).collect(),
        "skiprev" => it.skip(k).rev().map(f).collect(),
        "takerev" => it.take(k).rev().map(f).collect(),
        "revtake" => it.rev().take(k).map(f).collect(),
        "enumrev" => it.enumerate().rev().map(|(n, x)| pair(i(n), f(x))).collect(),
        "ziprev" => it.clone().zip(it.skip(k)).rev().map(|(a, b)| pair(f(a), f(b))).collect(),
        "steprev" => it.step_by(k.saturating_add(1)).rev().map(f).collect(),
        "chainrev" => it.clone().chain(it.skip(k)).rev().map(f).collect(),
        "rfold" => it.rfold(vec![], |mut v, x| {
            v.push(f(x));
            v
        }),
        "lens" => vec![num(it.clone().skip(k).len()), num(it.clone().take(k).len()), num(it.clone().rev().len())],
        _ => return adapt_front(it, f, name, k),
    })
}

macro_rules! both {
    ($name:ident, $T:ident: $bound:path, $it:ty, $x:ident => $f:expr) => {
        struct $name<$T: $bound>($it);
        impl<$T: $bound> Front for $name<$T> {
            fn next(&mut self) -> Option<J> {
                self.0.next().map(|$x| $f)
            }
            fn nth(&mut self, n: usize) -> Option<J> {
                self.0.nth(n).map(|$x| $f)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn debug(&self) -> String {
                shown(&self.0)
            }
            fn adapt(&self, name: &str, k: usize) -> Option<Vec<J>> {
                adapt_both(self.0.clone(), |$x| $f, name, k)
            }
            fn dup(&self) -> Box<dyn Front> {
                Box::new($name::<$T>(self.0.clone()))
            }
            fn back(&mut self) -> Option<J> {
                self.0.next_back().map(|$x| $f)
            }
            fn nth_back(&mut self, n: usize) -> Option<J> {
                self.0.nth_back(n).map(|$x| $f)
            }
            fn len(&self) -> usize {
                ExactSizeIterator::len(&self.0)
            }
        }
    };
}
both!(AvIter, T: Lay, <ArrayView<'static, T> as IntoIterator>::IntoIter, x => small(&get_all::<T>(&x)));
both!(MvIter, T: Variadic, <MultiArrayView<'static, T::Idx, T> as IntoIterator>::IntoIter,
      x => J::A(x.take(2000).map(|y| item::<T>(&y)).collect()));

/// Items of one bucket
struct Conv<I, F>(I, F);
impl<I, F> Front for Conv<I, F>
where
    I: Iterator + Clone + FusedIterator + Debug + 'static,
    F: Fn(I::Item) -> J + Copy + 'static,
{
    fn next(&mut self) -> Option<J> {
        self.0.next().map(self.1)
    }
    fn nth(&mut self, n: usize) -> Option<J> {
        self.0.nth(n).map(self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn debug(&self) -> String {
        shown(&self.0)
    }
    fn adapt(&self, name: &str, k: usize) -> Option<Vec<J>> {
        adapt_front(self.0.clone(), self.1, name, k)
    }
    fn dup(&self) -> Box<dyn Front> {
        Box::new(Conv(self.0.clone(), self.1))
    }
    fn back(&mut self) -> Option<J> {
        tool_error("items have no back")
    }
    fn nth_back(&mut self, _: usize) -> Option<J> {
        tool_error("items have no back")
    }
    fn len(&self) -> usize {
        tool_error("items have no len")
    }
}

trait Source {
    fn iter(&self, how: &str, bucket: usize) -> Box<dyn Front>;
    fn debug(&self) -> String;
    fn slice(&mut self, a: usize, b: usize);
}
struct AvSource<T: Lay>(ArrayView<'static, T>);
impl<T: Lay> Source for AvSource<T> {
    fn iter(&self, how: &str, _: usize) -> Box<dyn Front> {
        Box::new(AvIter::<T>(match how {
            "iter" => self.0.iter(),
            "ref" => (&self.0).into_iter(),
            "into" => self.0.clone().into_iter(),
            x => tool_error(&format!("bad iterator {}", x)),
        }))
    }
    fn debug(&self) -> String {
        shown(&self.0)
    }
    fn slice(&mut self, a: usize, b: usize) {
        self.0 = self.0.slice(a..b)
    }
}
struct MvSource<T: Variadic>(MultiArrayView<'static, T::Idx, T>);
impl<T: Variadic> Source for MvSource<T> {
    fn iter(&self, how: &str, bucket: usize) -> Box<dyn Front> {
        Box::new(MvIter::<T>(match how {
            "iter" => self.0.iter(),
            "ref" => (&self.0).into_iter(),
            "into" => self.0.clone().into_iter(),
            "items" => return Box::new(Conv(self.0.at(bucket), |x| item::<T>(&x))),
            x => tool_error(&format!("bad iterator {}", x)),
        }))
    }
    fn debug(&self) -> String {
        shown(&self.0)
    }
    fn slice(&mut self, a: usize, b: usize) {
        self.0 = self.0.slice(a..b)
    }
}
/// Debug of Vector itself
struct VecSource<T: Lay>(Vector<T>);
impl<T: Lay> Source for VecSource<T> {
    fn iter(&self, _: &str, _: usize) -> Box<dyn Front> {
        tool_error("vector is not iterable")
    }
    fn debug(&self) -> String {
        shown(&self.0)
    }
    fn slice(&mut self, _: usize, _: usize) {
        tool_error("vector cannot be sliced")
    }
}

pub fn new(op: &J) -> Box<dyn Machine> {
    let source: Box<dyn Source> = match op.st("kind") {
        "av" => with_elem!(op.st("s"), L => Box::new(AvSource::<L>(array_view(op)))),
        "vec" => with_elem!(op.st("s"), L => Box::new(VecSource::<L>({
            let mut v = Vector::<L>::new();
            for x in op.arr("el") {
                set_all::<L>(&mut v.grow(), &from_small(x));
            }
            v
        }))),
        "mv" => with_variadic!(op.st("s"), L => Box::new(MvSource::<L>(multi_view(op)))),
        x => tool_error(&format!("unknown kind {}", x)),
    };
    Box::new(Iters { source, regs: vec![] })
}

struct Iters {
    source: Box<dyn Source>,
    regs: Vec<Box<dyn Front>>,
}

fn opt(x: Option<J>) -> J {
    obj(vec![("k", s("opt")), ("v", J::A(x.into_iter().collect()))])
}

impl Machine for Iters {
    fn step(&mut self, op: &J) -> J {
        if op.st("op") == "vdbg" {
            return obj(vec![("k", s("dbg")), ("s", s(&self.source.debug()))]);
        }
        if op.st("op") == "vslice" {
            self.source.slice(op.us("a"), op.us("b"));
            return kind("ok");
        }
        let r = op.us("r");
        let n = op.opt("n").map_or(0, |n| index(n, 1));
        match op.st("op") {
            "iter" => {
                let x = self.source.iter(op.st("how"), n);
                if r < self.regs.len() {
                    self.regs[r] = x
                } else {
                    self.regs.push(x)
                }
                kind("ok")
            }
            "clone" => {
                let x = self.regs[op.us("q")].dup();
                if r < self.regs.len() {
                    self.regs[r] = x
                } else {
                    self.regs.push(x)
                }
                kind("ok")
            }
            "next" => opt(self.regs[r].next()),
            "back" => opt(self.regs[r].back()),
            "nth" => opt(self.regs[r].nth(n)),
            "nthb" => opt(self.regs[r].nth_back(n)),
            "len" => {
                let (lo, hi) = self.regs[r].hint();
                obj(vec![
                    ("k", s("len")),
                    ("n", i(self.regs[r].len())),
                    ("lo", i(lo)),
                    ("hi", J::I(hi.map_or(-1, |x| x as i64))),
                ])
            }
            "hint" => {
                // iterators without exact size: bounds only
                let (lo, hi) = self.regs[r].hint();
                obj(vec![("k", s("hint")), ("lo", i(lo)), ("hi", J::I(hi.map_or(-1, |x| x as i64)))])
            }
            "adapt" => match self.regs[r].adapt(op.st("a"), n) {
                Some(v) => obj(vec![("k", s("list")), ("v", J::A(v))]),
                None => tool_error("unknown adapter"),
            },
            "dbg" => obj(vec![("k", s("dbg")), ("s", s(&self.regs[r].debug()))]),
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

//! Handles of structs: getters, setters, fill_from, into_ref, ==, Debug
use crate::guard::Guarded;
use crate::json::*;
use crate::lay::*;
use crate::{with_struct, Machine};
use flatdata::*;

trait DynStruct {
    fn set(&mut self, f: usize, v: [u8; 8]) -> J;
    fn obs(&mut self) -> J;
    fn copy_from(&mut self, other: &mut dyn DynStruct);
    fn eq(&mut self, other: &mut dyn DynStruct) -> bool;
    fn debug(&mut self) -> J;
    fn ptr(&mut self) -> *mut u8;
    fn intact(&mut self) -> bool;
    fn name(&self) -> &'static str;
}

/// Either a StructBuf or plain memory
enum Store<T: Lay> {
    Buf(StructBuf<T>),
    Raw(Guarded),
}

impl<T: Lay> Store<T> {
    fn get(&mut self) -> <T as Struct<'_>>::Item {
        match self {
            Store::Buf(b) => b.get(),
            Store::Raw(g) => {
                let n = g.n;
                T::create(unsafe { std::slice::from_raw_parts(g.data().as_ptr(), n + 8) })
            }
        }
    }
    fn get_mut(&mut self) -> <T as Struct<'_>>::ItemMut {
        match self {
            Store::Buf(b) => b.get_mut(),
            Store::Raw(g) => {
                let n = g.n;
                T::create_mut(unsafe { std::slice::from_raw_parts_mut(g.data().as_mut_ptr(), n + 8) })
            }
        }
    }
    fn bytes(&mut self) -> Vec<u8> {
        match self {
            Store::Buf(b) => {
                let x = b.as_bytes().to_vec();
                if b.as_ref() != &x[..] {
                    return vec![];
                }
                x
            }
            Store::Raw(g) => g.data().to_vec(),
        }
    }
}

impl<T: Lay> DynStruct for Store<T> {
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn intact(&mut self) -> bool {
        match self {
            Store::Buf(_) => true,
            Store::Raw(g) => g.intact(),
        }
    }
    fn set(&mut self, f: usize, v: [u8; 8]) -> J {
        T::set(&mut self.get_mut(), f, v);
        self.obs()
    }
    fn obs(&mut self) -> J {
        let b = self.bytes();
        let g = get_all::<T>(&self.get());
        let gm = getm_all::<T>(&self.get_mut());
        let (p, n) = (self.ptr(), b.len() + 8);
        let gr = get_all::<T>(&T::into_ref(unsafe { std::slice::from_raw_parts_mut(p, n) }));
        let same = g == gm && g == gr && b == self.bytes();
        obj(vec![
            ("k", s("st")),
            ("f", J::A(g.iter().map(v8).collect())),
            ("b", bytes(&b)),
            // getters of all kinds of handles agree and nothing around was changed
            ("c", J::B(same && self.intact())),
        ])
    }
    fn copy_from(&mut self, other: &mut dyn DynStruct) {
        if T::NAME != other.name() {
            tool_error("different layouts");
        }
        let src = T::create(unsafe { std::slice::from_raw_parts(other.ptr(), T::SIZE_IN_BYTES + 8) });
        T::fill(&mut self.get_mut(), &src);
    }
    fn eq(&mut self, other: &mut dyn DynStruct) -> bool {
        if T::NAME != other.name() {
            tool_error("different layouts");
        }
        let src = T::create(unsafe { std::slice::from_raw_parts(other.ptr(), T::SIZE_IN_BYTES + 8) });
        let src: <T as Struct<'_>>::Item = src;
        let me = self.ptr();
        let me = T::create(unsafe { std::slice::from_raw_parts(me, T::SIZE_IN_BYTES + 8) });
        me == src
    }
    fn debug(&mut self) -> J {
        let buf = match self {
            Store::Buf(b) => shown(b),
            Store::Raw(_) => "".into(),
        };
        let m = shown(&self.get_mut());
        let r = shown(&self.get());
        obj(vec![("k", s("dbg")), ("r", s(&r)), ("m", s(&m)), ("buf", s(&buf))])
    }
    fn ptr(&mut self) -> *mut u8 {
        match self {
            // the address is only known to as_bytes
            Store::Buf(b) => b.as_bytes().as_ptr() as *mut u8,
            Store::Raw(g) => g.data().as_mut_ptr(),
        }
    }
}

pub struct Structs {
    regs: Vec<Box<dyn DynStruct>>,
}
impl Structs {
    pub fn new() -> Self {
        Structs { regs: vec![] }
    }
    fn put(&mut self, r: usize, x: Box<dyn DynStruct>) -> J {
        if r < self.regs.len() {
            self.regs[r] = x;
        } else if r == self.regs.len() {
            self.regs.push(x);
        } else {
            tool_error("registers have to be used in order");
        }
        self.regs[r].obs()
    }
}

impl Machine for Structs {
    fn step(&mut self, op: &J) -> J {
        let r = op.us("r");
        match op.st("op") {
            "new" => with_struct!(op.st("s"), L => {
                let x = if r % 2 == 0 { StructBuf::<L>::new() } else { StructBuf::<L>::default() };
                self.put(r, Box::new(Store::Buf(x)))
            }),
            "raw" => with_struct!(op.st("s"), L => {
                let mut g = Guarded::new();
                g.load(&op.by("b"));
                self.put(r, Box::new(Store::<L>::Raw(g)))
            }),
            "set" => {
                let mut v = [0; 8];
                v.copy_from_slice(&op.by("v"));
                self.regs[r].set(op.us("f"), v)
            }
            "get" => self.regs[r].obs(),
            "copy" => {
                let q = op.us("q");
                if q == r {
                    tool_error("copy to itself")
                }
                let p: *mut dyn DynStruct = &mut *self.regs[q];
                self.regs[r].copy_from(unsafe { &mut *p });
                self.regs[r].obs()
            }
            "eq" => {
                let q = op.us("q");
                let p: *mut dyn DynStruct = &mut *self.regs[q];
                let e = self.regs[r].eq(unsafe { &mut *p });
                obj(vec![("k", s("bool")), ("v", J::B(e))])
            }
            "dbg" => self.regs[r].debug(),
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

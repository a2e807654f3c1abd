//! ExternalVector and MultiVector in both storages
use crate::json::*;
use crate::lay::*;
use crate::m_wide::eight;
use crate::{with_elem, with_variadic, Machine};
use flatdata::*;
use std::marker::PhantomData;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::rc::Rc;

/// A storage together with references to it, which are valid as long as this is not dropped.
pub struct Store {
    pub rc: Rc<dyn ResourceStorage>,
    dir: Option<String>,
    pub root: PathBuf,
}
impl Store {
    pub fn new(kind: &str, dir: &str) -> Store {
        Store::at(kind, dir, b"root")
    }
    /// Below a directory with the given name
    pub fn at(kind: &str, dir: &str, name: &[u8]) -> Store {
        let name = std::ffi::OsStr::from_bytes(name);
        let root = PathBuf::from(dir).join(name);
        match kind {
            "mem" => Store { rc: MemoryResourceStorage::new(PathBuf::from("/root/some/path").join(name)), dir: None, root },
            "file" => Store { rc: FileResourceStorage::new(root.clone()), dir: Some(dir.into()), root },
            x => tool_error(&format!("unknown storage {}", x)),
        }
    }
    pub fn st(&self) -> &'static dyn ResourceStorage {
        let p: *const dyn ResourceStorage = &*self.rc;
        unsafe { &*p }
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        if let Some(d) = &self.dir {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

pub fn raw(st: &dyn ResourceStorage, name: &str) -> J {
    match st.read_resource(name) {
        Ok(b) => sparse(b),
        Err(_) => obj(vec![("n", J::I(-1)), ("nz", J::A(vec![]))]),
    }
}
fn text(st: &dyn ResourceStorage, name: &str) -> J {
    match st.read_resource(name) {
        Ok(b) => s(&String::from_utf8_lossy(b)),
        Err(_) => s("<missing>"),
    }
}

pub fn err_kind<T>(r: &Result<T, ResourceStorageError>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(_) => "err",
    }
}

struct Ev<T: Lay> {
    w: Option<ExternalVector<'static, T>>,
    vals: Vec<Vec<[u8; 8]>>,
    schema: String,
    st: Store,
}

pub fn new(op: &J, scratch: &str) -> Box<dyn Machine> {
    let st = Store::new(op.st("st"), scratch);
    match op.st("kind") {
        "ev" => with_elem!(op.st("s"), L => Box::new(Ev::<L> { w: None, vals: vec![], schema: "".into(), st })),
        "mv" => with_variadic!(op.st("s"), L => Box::new(Mv::<L> { w: None, schema: "".into(), st, _p: PhantomData })),
        x => tool_error(&format!("unknown kind {}", x)),
    }
}

pub fn elements<T: Lay>(v: &ArrayView<'_, T>) -> J {
    J::A((0..v.len().min(2000)).map(|n| small(&get_all::<T>(&v.at(n)))).collect())
}

impl<T: Lay> Machine for Ev<T> {
    fn step(&mut self, op: &J) -> J {
        match op.st("op") {
            "create" => {
                self.schema = op.st("schema").into();
                self.vals.clear();
                self.w = Some(create_external_vector(self.st.st(), "res", &self.schema).unwrap());
                obj(vec![("k", s("created")), ("read", s(err_kind(&self.st.st().read("res", &self.schema))))])
            }
            "grow" => {
                let w = self.w.as_mut().unwrap();
                let mut zero = true;
                for _ in 0..op.us("rep") {
                    let mut x = w.grow().unwrap();
                    zero &= getm_all::<T>(&x).iter().all(|v| *v == [0; 8]);
                    set_all::<T>(&mut x, &from_small(op.get("v0")));
                    set_all::<T>(&mut x, &from_small(op.get("v")));
                    let now = getm_all::<T>(&x);
                    drop(x);
                    self.vals.push(now);
                }
                obj(vec![
                    ("k", s("grown")),
                    ("zero", J::B(zero)),
                    ("len", i(w.len())),
                    ("empty", J::B(w.is_empty())),
                    ("open", J::B(w.is_open())),
                    ("read", s(err_kind(&self.st.st().read("res", &self.schema)))),
                ])
            }
            "biggrow" => {
                let w = self.w.as_mut().unwrap();
                let v = from_small(op.get("v"));
                for _ in 0..op.us("rep") {
                    let mut x = w.grow().unwrap();
                    if !v.is_empty() {
                        set_all::<T>(&mut x, &v);
                    }
                }
                obj(vec![("k", s("grown")), ("len", eight(w.len()))])
            }
            "dbg" => obj(vec![("k", s("dbg")), ("s", s(&shown(self.w.as_ref().unwrap())))]),
            "bigclose" => {
                let st = self.st.st();
                let view = self.w.take().unwrap().close().unwrap();
                let n = view.len();
                let b = st.read_resource("res").unwrap();
                obj(vec![
                    ("k", s("wview")),
                    ("n", eight(n)),
                    ("el", J::A((0..n.min(1000)).map(|n| small(&get_all::<T>(&view.at(n)))).collect())),
                    ("last", small(&get_all::<T>(&view.at(n - 1)))),
                    ("hdr", bytes(&b[..8])),
                    ("total", eight(b.len())),
                    ("read", eight(st.read("res", &self.schema).map(|d| d.len()).unwrap_or(0))),
                ])
            }
            "close" => {
                let w = self.w.take().unwrap();
                let len = w.len();
                let st = self.st.st();
                let view = w.close().unwrap();
                // the same in memory
                let mut v = Vector::<T>::new();
                for x in &self.vals {
                    set_all::<T>(&mut v.grow(), x);
                }
                st.write("other", &self.schema, v.as_view().as_ref()).unwrap();
                let (a, b) = (st.read_resource("res").unwrap(), st.read_resource("other").unwrap());
                let eq = a == b;
                let again = st.read("res", &self.schema).map(|d| d == view.as_bytes()).unwrap_or(false);
                obj(vec![
                    ("k", s("view")),
                    ("len", i(len)),
                    ("n", i(view.len())),
                    ("el", elements(&view)),
                    ("raw", raw(st, "res")),
                    ("sch", text(st, "res.schema")),
                    ("eqvec", J::B(eq)),
                    ("again", J::B(again)),
                ])
            }
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

struct Mv<T: Variadic> {
    w: Option<MultiVector<'static, T::Idx, T>>,
    schema: String,
    st: Store,
    _p: PhantomData<T>,
}

pub fn item<'a, T: Variadic>(x: &<T as VariadicStruct<'a>>::Item) -> J {
    let mut v = vec![J::I(T::tag(x))];
    v.extend(T::fields(x).iter().map(int8));
    J::A(v)
}
pub fn buckets<T: Variadic>(v: &MultiArrayView<'_, T::Idx, T>) -> J {
    J::A((0..v.len().min(2000)).map(|n| J::A(v.at(n).take(2000).map(|x| item::<T>(&x)).collect())).collect())
}

impl<T: Variadic> Mv<T> {
    /// Closing failed
    fn failed(&self) -> J {
        let st = self.st.st();
        let data = st.read("res", &self.schema).is_ok();
        let index = st.read("res_index", &format!("index({})", self.schema)).is_ok();
        obj(vec![("k", s("failed")), ("read", s(if data && index { "ok" } else { "err" }))])
    }
}
impl<T: Variadic> Machine for Mv<T> {
    fn step(&mut self, op: &J) -> J {
        match op.st("op") {
            "create" => {
                let w = create_multi_vector(self.st.st(), "res", op.st("schema")).unwrap();
                self.w = Some(w);
                self.schema = op.st("schema").into();
                obj(vec![("k", s("created")), ("read", s(err_kind(&self.st.st().read("res", op.st("schema")))))])
            }
            "grow" => {
                let w = self.w.as_mut().unwrap();
                for _ in 0..op.us("rep") {
                    let mut b = w.grow().unwrap();
                    let times = op.opt("times").map_or(1, |_| op.us("times"));
                    for x in (0..times).flat_map(|_| op.arr("items")) {
                        let x = x.as_arr();
                        let vals: Vec<_> = x[1..].iter().map(|v| v.as_int().to_le_bytes()).collect();
                        T::add(&mut b, x[0].as_int(), &vals);
                    }
                }
                kind("ok")
            }
            "bigclose" => {
                let st = self.st.st();
                let view = match self.w.take().unwrap().close() {
                    Ok(v) => v,
                    Err(_) => return self.failed(),
                };
                let b = st.read_resource("res").unwrap();
                let idx = st.read_resource("res_index").unwrap();
                let idx = &idx[8..idx.len() - 8];
                let start = |x: &[u8]| J::A((0..8).map(|k| J::I(*x.get(k).unwrap_or(&0) as i64)).collect());
                obj(vec![
                    ("k", s("wmview")),
                    ("n", i(view.len())),
                    ("b", J::A((0..view.len().min(1000)).map(|n| J::A(view.at(n).take(2000).map(|x| item::<T>(&x)).collect())).collect())),
                    ("counts", J::A((0..view.len().min(1000)).map(|n| i(view.at(n).count())).collect())),
                    ("idx", J::A(idx.chunks(<T::Idx as Struct>::SIZE_IN_BYTES).take(1001).map(start).collect())),
                    ("hdr", bytes(&b[..8])),
                    ("total", eight(b.len())),
                ])
            }
            "close" => {
                let w = self.w.take().unwrap();
                let st = self.st.st();
                let view = match w.close() {
                    Ok(v) => v,
                    Err(_) => return self.failed(),
                };
                obj(vec![
                    ("k", s("mview")),
                    ("n", i(view.len())),
                    ("b", buckets::<T>(&view)),
                    ("raw", raw(st, "res")),
                    ("idx", raw(st, "res_index")),
                    ("sch", text(st, "res.schema")),
                    ("isch", text(st, "res_index.schema")),
                ])
            }
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

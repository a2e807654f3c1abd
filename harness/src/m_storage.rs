//! Storages, archives and writers
use crate::json::*;
use crate::lay::*;
use crate::layouts::{new_archive, open_archive, resources, stored};
use crate::m_ext::Store;
use crate::m_wide::{eight, num};
use crate::{guarded, sys, with_elem, with_variadic, Machine};
use flatdata::*;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io;
use std::path::{Path, PathBuf};
use std::rc::Rc;

type Write = Box<dyn FnMut(Option<u64>, &[u8]) -> io::Result<()>>;

struct Pin {
    data: *const u8,
    copy: Vec<u8>,
}

pub struct Storages {
    writers: Vec<Option<Box<dyn Writer>>>,
    /// Builder and resource of each writer
    writing: Vec<Option<(usize, String)>>,
    streams: Vec<Option<Write>>,
    builders: Vec<Option<&'static dyn Bld>>,
    archives: Vec<Option<(Box<dyn Arc>, Vec<(String, i64)>)>>,
    /// Views returned by closing
    closed: Vec<(View, i64)>,
    pins: Vec<Pin>,
    handles: Vec<Rc<dyn ResourceStorage>>,
    /// Paths of the handles
    paths: Vec<PathBuf>,
    /// Files and directories after the last operation, if they are watched
    print: Option<Vec<String>>,
    /// Names of resources which are compared after each operation
    known: Option<Vec<String>>,
    /// All files and directories, or these resources
    before: BTreeMap<String, u64>,
    /// Archive whose state is reported for snapshots
    probe: String,
    is_file: bool,
    root: PathBuf,
    dir: String,
    _store: Store,
}

fn st(h: &Rc<dyn ResourceStorage>) -> &'static dyn ResourceStorage {
    let p: *const dyn ResourceStorage = &**h;
    unsafe { &*p }
}

fn put<T>(v: &mut Vec<Option<T>>, n: usize, x: T) {
    while v.len() <= n {
        v.push(None);
    }
    v[n] = Some(x);
}

fn put_at<T>(v: &mut Vec<T>, n: usize, x: T) {
    if n < v.len() {
        v[n] = x
    } else {
        v.push(x)
    }
}

fn io_kind(e: &io::Error) -> &'static str {
    match e.kind() {
        io::ErrorKind::NotFound => "notfound",
        io::ErrorKind::AlreadyExists => "exists",
        _ => "other",
    }
}
/// All errors have the same fields
pub fn err(e: &ResourceStorageError) -> J {
    let f = |k: &str, kind: &str, name: &str, diff: &str| {
        obj(vec![("k", s(k)), ("io", s(kind)), ("name", s(name)), ("diff", bytes(diff.as_bytes())), ("b", bytes(&[]))])
    };
    match e {
        ResourceStorageError::Io(e, n) => f("io", io_kind(e), n, ""),
        ResourceStorageError::Utf8Error(_) => f("utf8", "", "", ""),
        ResourceStorageError::MissingSchema(n) => f("schema", "", n, ""),
        ResourceStorageError::WrongSignature { resource_name, diff } => f("sig", "", resource_name, diff),
        ResourceStorageError::UnexpectedDataSize => f("size", "", "", ""),
    }
}
fn read_ok(b: &[u8]) -> J {
    obj(vec![("k", s("ok")), ("io", s("")), ("name", s("")), ("diff", bytes(&[])), ("b", bytes(b))])
}
fn res<T>(r: &io::Result<T>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(_) => "err",
    }
}
pub fn cls<T>(r: &Result<T, ResourceStorageError>) -> J {
    match r {
        Ok(_) => obj(vec![("c", s("ok")), ("n", s(""))]),
        Err(e) => {
            let (c, n) = match e {
                ResourceStorageError::Io(e, n) => (io_kind(e), &n[..]),
                ResourceStorageError::Utf8Error(_) => ("utf8", ""),
                ResourceStorageError::MissingSchema(n) => ("schema", &n[..]),
                ResourceStorageError::WrongSignature { resource_name, .. } => ("sig", &resource_name[..]),
                ResourceStorageError::UnexpectedDataSize => ("size", ""),
            };
            obj(vec![("c", s(c)), ("n", s(n))])
        }
    }
}
pub fn contents(x: &[(String, i64)]) -> J {
    J::A(x.iter().map(|(n, v)| J::A(vec![s(n), J::I(*v)])).collect())
}

/// Content of each resource of an archive which can be read by itself
pub fn each(a: &str, storage: &Rc<dyn ResourceStorage>) -> Vec<(String, i64)> {
    let mut out = vec![];
    let data = |n: &str, sch: &str| -> Option<&'static [u8]> { st(storage).read(n, sch).ok() };
    for (kind, name, lay, sch) in resources(a) {
        let id = match kind {
            "raw" => data(name, sch).map(raw_id),
            "struct" => data(name, sch).map(|d| {
                with_elem!(lay, L => if d.len() == <L as Struct>::SIZE_IN_BYTES { struct_id::<L>(&L::create(d)) } else { GARBAGE })
            }),
            "vec" => data(name, sch).map(|d| with_elem!(lay, L => vec_id::<L>(&ArrayView::new(d)))),
            "mv" => data(&format!("{}_index", name), &format!("index({})", sch)).and_then(|i| {
                data(name, sch).map(|d| {
                    with_variadic!(lay, L => guarded(|| mv_id::<L>(&MultiArrayView::new(ArrayView::new(i), d))).unwrap_or(GARBAGE))
                })
            }),
            "sub" => {
                out.extend(prefixed(name, each(lay, &storage.subdir(name))));
                continue;
            }
            _ => tool_error("bad resource"),
        };
        out.push((name.to_string(), id.unwrap_or(NONE)));
    }
    out
}

/// What a reader finds
pub fn probe(a: &str, storage: &Rc<dyn ResourceStorage>) -> J {
    let r = guarded(|| {
        let opened = open_archive(a, storage.clone());
        let content = opened.as_ref().map(|x| x.content()).unwrap_or(vec![]);
        obj(vec![("o", cls(&opened)), ("content", contents(&content)), ("each", contents(&each(a, storage)))])
    });
    r.unwrap_or_else(|| obj(vec![("o", obj(vec![("c", s("panic")), ("n", s(""))])), ("content", J::A(vec![])), ("each", J::A(vec![]))]))
}

impl Drop for Storages {
    fn drop(&mut self) {
        sys::disarm();
        let (w, _s) = (std::mem::replace(&mut self.writers, vec![]), std::mem::replace(&mut self.streams, vec![]));
        for x in w {
            guarded(|| drop(x));
        }
    }
}

impl Storages {
    pub fn new(op: &J, dir: &str) -> Self {
        let is_file = op.st("st") == "file";
        let name = op.opt("root").map_or(b"root".to_vec(), |_| op.by("root"));
        let print = op.opt("watch").map(|_| fingerprint(Path::new(dir)));
        let store = Store::at(op.st("st"), dir, &name);
        if op.opt("via").is_some() && is_file {
            // the directory is a link to another one
            let target = PathBuf::from(dir).join("elsewhere");
            std::fs::create_dir_all(&target).unwrap();
            std::fs::create_dir_all(store.root.parent().unwrap()).unwrap();
            std::os::unix::fs::symlink(target, &store.root).unwrap_or_else(|_| tool_error("via"));
        }
        let known = op.opt("frame").map(|_| op.arr("frame").iter().map(|n| n.as_str().to_string()).collect());
        let mut new = Storages {
            writers: vec![],
            writing: vec![],
            streams: vec![],
            builders: vec![],
            archives: vec![],
            closed: vec![],
            pins: vec![],
            handles: vec![store.rc.clone()],
            paths: vec![PathBuf::new()],
            print,
            known,
            before: BTreeMap::new(),
            probe: op.opt("probe").map_or("".into(), |x| x.as_str().into()),
            is_file,
            root: store.root.clone(),
            dir: dir.into(),
            _store: store,
        };
        new.changed();
        new
    }
    /// Files and directories, or resources in memory, which differ from those after the last operation
    fn changed(&mut self) -> Vec<String> {
        let known = match &self.known {
            Some(k) => k,
            None => return vec![],
        };
        let now = if self.is_file {
            tree(Path::new(&self.dir), &self.root)
        } else {
            known.iter().filter_map(|n| st(&self.handles[0]).read_resource(n).ok().map(|d| (n.clone(), digest(d)))).collect()
        };
        let old = std::mem::replace(&mut self.before, now);
        let mut out: Vec<String> = old.iter().filter(|(k, v)| self.before.get(*k) != Some(v)).map(|(k, _)| k.clone()).collect();
        out.extend(self.before.keys().filter(|k| !old.contains_key(*k)).cloned());
        out
    }
    fn pin(&mut self, d: &[u8]) {
        self.pins.push(Pin { data: d.as_ptr(), copy: d.to_vec() });
    }
    /// Data handed out before is unchanged
    fn pins_ok(&self) -> bool {
        self.pins.iter().all(|p| unsafe { std::slice::from_raw_parts(p.data, p.copy.len()) } == &p.copy[..])
            && self.archives.iter().flatten().all(|(a, c)| guarded(|| a.content() == *c).unwrap_or(false))
            && self.closed.iter().all(|(v, c)| guarded(|| v() == *c).unwrap_or(false))
    }
    fn fresh(&self) -> Rc<dyn ResourceStorage> {
        if self.is_file {
            FileResourceStorage::new(self.root.clone())
        } else {
            self.handles[0].clone()
        }
    }
    /// Another storage with the resources of an archive, or for files the same directory
    fn alone(&self, a: &str, from: &Rc<dyn ResourceStorage>) -> Rc<dyn ResourceStorage> {
        let to: Rc<dyn ResourceStorage> = MemoryResourceStorage::new("alone");
        for (name, _) in stored(a) {
            for n in vec![name.to_string(), format!("{}.schema", name)] {
                if let Ok(d) = st(from).read_resource(&n) {
                    to.create_output_stream(&n).and_then(|w| w.borrow_mut().write_all(d)).unwrap_or_else(|_| tool_error("copy"));
                }
            }
        }
        to
    }
    fn snapshots(&mut self) -> Vec<J> {
        let taken = std::mem::replace(&mut sys::state().taken, vec![]);
        let mut out: Vec<J> = vec![];
        for d in taken {
            let s: Rc<dyn ResourceStorage> = FileResourceStorage::new(d.clone());
            let p = probe(&self.probe, &s);
            if out.last() != Some(&p) {
                out.push(p);
            }
            let _ = std::fs::remove_dir_all(&d);
        }
        out
    }
    fn files(&self) -> Vec<String> {
        fn walk(d: &Path, pre: &str, out: &mut Vec<String>) {
            if let Ok(r) = std::fs::read_dir(d) {
                for e in r {
                    let e = e.unwrap();
                    let n = e.file_name().to_string_lossy().into_owned();
                    if e.file_type().unwrap().is_dir() {
                        walk(&d.join(e.file_name()), &format!("{}{}/", pre, n), out);
                    } else {
                        out.push(format!("{}{}", pre, n));
                    }
                }
            }
        }
        let mut out = vec![];
        walk(&self.root, "", &mut out);
        out.sort();
        out
    }

    fn exec(&mut self, op: &J) -> J {
        let h = op.opt("h").map_or(0, |h| h.as_int() as usize);
        let x = op.opt("x").map_or(0, |h| h.as_int() as usize);
        let storage = self.handles.get(h).cloned().unwrap_or_else(|| tool_error("bad handle"));
        let open = |x: usize| self.writers.get(x).map_or(false, |w| w.is_some());
        // operations which are not possible
        let skipped = match op.st("op") {
            "wgrow" | "wclose" => !open(x),
            "wstart" => open(x),
            "aset" => (0..self.writers.len()).any(|w| open(w) && self.writing[w] == Some((x, op.st("res").into()))),
            "craft" => (0..self.writers.len()).any(open),
            _ => false,
        };
        if skipped {
            return kind("skip");
        }
        match op.st("op") {
            //
            // storage
            //
            "sub" => {
                let sub = storage.subdir(op.st("d"));
                let q = op.us("q");
                let path = self.paths[h].join(op.st("d"));
                put_at(&mut self.paths, q, path);
                if q < self.handles.len() {
                    // data handed out is valid as long as its storage
                    let old = std::mem::replace(&mut self.handles[q], sub);
                    std::mem::forget(old);
                } else {
                    self.handles.push(sub);
                }
                kind("ok")
            }
            "write" => {
                let sch = String::from_utf8(op.by("sch")).unwrap();
                kind(res(&storage.write(op.st("n"), &sch, &op.by("b"))))
            }
            "put" => {
                // content of the stream, nothing else
                let r = storage.create_output_stream(op.st("n")).and_then(|w| w.borrow_mut().write_all(&op.by("b")));
                kind(res(&r))
            }
            "sopen" => match storage.create_output_stream(op.st("n")) {
                Ok(w) => {
                    let f: Write = Box::new(move |pos, b| {
                        let mut w = w.borrow_mut();
                        if let Some(p) = pos {
                            w.seek(io::SeekFrom::Start(p))?;
                        }
                        w.write_all(b)
                    });
                    put(&mut self.streams, x, f);
                    kind("ok")
                }
                Err(_) => kind("err"),
            },
            "swrite" => {
                let pos = op.int("pos");
                let pos = if pos < 0 { None } else { Some(pos as u64) };
                kind(res(&(self.streams[x].as_mut().unwrap())(pos, &op.by("b"))))
            }
            "sdrop" => {
                self.streams[x] = None;
                kind("ok")
            }
            "read" => {
                let sch = String::from_utf8(op.by("sch")).unwrap();
                let s = if op.opt("fresh").is_some() { self.fresh() } else { storage };
                let r = st(&s).read(op.st("n"), &sch);
                match r {
                    Ok(d) => {
                        if op.opt("fresh").is_none() {
                            self.pin(d);
                        }
                        read_ok(d)
                    }
                    Err(e) => err(&e),
                }
            }
            "raw" => {
                let s = if op.opt("fresh").is_some() { self.fresh() } else { storage };
                let r = st(&s).read_resource(op.st("n"));
                match r {
                    Ok(d) => {
                        if op.opt("fresh").is_none() && op.bool("pin") {
                            self.pin(d);
                        }
                        obj(vec![("k", s_("raw")), ("e", s_("")), ("b", bytes(d))])
                    }
                    Err(e) => obj(vec![("k", s_("raw")), ("e", s_(io_kind(&e))), ("b", bytes(&[]))]),
                }
            }
            "exists" => obj(vec![("k", s_("bool")), ("v", J::B(storage.exists(op.st("n"))))]),
            "files" => {
                // only files can be listed
                let f = if self.is_file { self.files() } else { vec![] };
                obj(vec![("k", s_("files")), ("v", J::A(f.iter().map(|x| s_(x)).collect()))])
            }
            "fmt" => {
                // Debug of storages never panics
                obj(vec![("k", s_("ok"))])
            }
            // another name for the same file
            "link" => {
                let (n, to) = (op.st("n"), op.st("to"));
                if self.is_file {
                    let to = self.root.join(to);
                    std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                    let _ = std::fs::remove_file(&to);
                    if op.opt("soft").is_some() {
                        // to a copy at a place of its own
                        let aside = PathBuf::from(&self.dir).join("aside");
                        std::fs::create_dir_all(&aside).unwrap();
                        let target = (0..).map(|i| aside.join(format!("{}", i))).find(|p| !p.exists()).unwrap();
                        std::fs::copy(self.root.join(n), &target).unwrap_or_else(|_| tool_error("link"));
                        std::os::unix::fs::symlink(target, to).unwrap_or_else(|_| tool_error("link"));
                    } else {
                        std::fs::hard_link(self.root.join(n), to).unwrap_or_else(|_| tool_error("link"));
                    }
                } else {
                    let d = st(&storage).read_resource(n).unwrap_or_else(|_| tool_error("link"));
                    storage.create_output_stream(to).and_then(|w| w.borrow_mut().write_all(d)).unwrap();
                }
                kind("ok")
            }
            // sparse file of a given length with a size header
            "sparse" => {
                let len: u64 = op.st("len").parse().unwrap();
                let hdr: u64 = op.st("hdr").parse().unwrap();
                std::fs::create_dir_all(&self.root).unwrap();
                let path = format!("{}/{}", self.root.to_str().unwrap(), op.st("n"));
                let f = std::fs::File::create(&path).unwrap();
                use std::io::Write;
                (&f).write_all(&hdr.to_le_bytes()[..(len.min(8) as usize)]).unwrap();
                f.set_len(len).unwrap();
                std::fs::write(path + ".schema", op.by("sch")).unwrap();
                kind("ok")
            }
            "bigwrite" => {
                let sch = String::from_utf8(op.by("sch")).unwrap();
                let mut b = crate::guard::WideBuf::new(num(op.get("len")));
                for x in op.arr("nz") {
                    b.put(num(&x.as_arr()[0]), &[x.as_arr()[1].as_int() as u8]);
                }
                let r = storage.write(op.st("n"), &sch, b.get());
                b.free();
                kind(res(&r))
            }
            "bigread" => {
                let sch = String::from_utf8(op.by("sch")).unwrap();
                let raw = st(&storage).read_resource(op.st("n")).map(|b| b.len()).unwrap_or(0);
                let (k, len, b) = match st(&storage).read(op.st("n"), &sch) {
                    Ok(d) => (s_("ok"), eight(d.len()), op.arr("at").iter().map(|p| J::I(d[num(p)] as i64)).collect()),
                    Err(e) => (err(&e).get("k").clone(), J::A(vec![]), vec![]),
                };
                obj(vec![("k", k), ("len", len), ("raw", eight(raw)), ("b", J::A(b))])
            }
            // length of the data only
            "readlen" => {
                let sch = String::from_utf8(op.by("sch")).unwrap();
                match st(&storage).read(op.st("n"), &sch) {
                    Ok(d) => obj(vec![("k", s_("ok")), ("len", s_(&d.len().to_string()))]),
                    Err(e) => obj(vec![("k", err(&e).get("k").clone()), ("len", s_(""))]),
                }
            }
            //
            // archives
            //
            "anew" => {
                let r = new_archive(op.st("a"), storage);
                let c = cls(&r);
                if let Ok(b) = r {
                    put(&mut self.builders, x, b);
                }
                obj(vec![("k", s_("anew")), ("o", c)])
            }
            "asub" => {
                let b = self.builders[op.us("y")].unwrap();
                let r = b.sub(op.st("res"));
                let c = cls(&r);
                if let Ok(b) = r {
                    put(&mut self.builders, x, b);
                }
                obj(vec![("k", s_("anew")), ("o", c)])
            }
            "aset" => kind(res(&self.builders[x].unwrap().set(op.st("res"), op.us("id")))),
            "aopen" => {
                let alone = op.opt("alone").is_some();
                let s = if op.opt("fresh").is_some() {
                    self.fresh()
                } else if alone {
                    self.alone(op.st("a"), &storage)
                } else {
                    storage
                };
                let mut r = open_archive(op.st("a"), s);
                if alone {
                    // only a copy of the archive is left, and neither the storage nor the original
                    r = r.map(|a| a.copy());
                }
                let c = cls(&r);
                let content = r.as_ref().map(|a| a.content()).unwrap_or(vec![]);
                let j = contents(&content);
                if let Ok(a) = r {
                    self.archives.push(Some((a, content)));
                }
                obj(vec![("k", s_("aopen")), ("o", c), ("content", j)])
            }
            // one of the open archives, whichever it is
            "adrop" => {
                let n = self.archives.len();
                if n > 0 {
                    self.archives.swap_remove(op.us("i") % n);
                }
                kind("ok")
            }
            "adebug" => {
                let r = open_archive(op.st("a"), storage);
                let pieces = |a: &Box<dyn Arc>| a.pieces().iter().map(|(n, t)| J::A(vec![s_(n), s_(t)])).collect();
                obj(vec![
                    ("k", s_("adebug")),
                    ("o", cls(&r)),
                    ("s", s_(&r.as_ref().map(|a| a.debug()).unwrap_or_default())),
                    ("parts", J::A(r.as_ref().map(pieces).unwrap_or_default())),
                ])
            }
            "probe" => {
                let p = probe(op.st("a"), &self.fresh());
                obj(vec![("k", s_("probe")), ("found", p)])
            }
            // all resources of an archive, some of them damaged
            "craft" => {
                let a = op.st("a");
                let pristine: Rc<dyn ResourceStorage> = MemoryResourceStorage::new("pristine");
                build(a, new_archive(a, pristine.clone()).unwrap_or_else(|_| tool_error("craft")), op.us("id"));
                let mut pristine_ok = true;
                let all = stored(a);
                for (at, (name, schema)) in all.iter().enumerate() {
                    // schema of another resource
                    let next = (1..all.len()).map(|i| &all[(at + i) % all.len()].1[..]).find(|x| x != schema).unwrap_or("next");
                    let how = op.arr("dmg").iter().find(|d| d.as_arr()[0].as_str() == &name[..]).map_or("ok", |d| d.as_arr()[1].as_str());
                    let data = pristine.read_resource(name).map(|d| d.to_vec()).unwrap_or_else(|_| { pristine_ok = false; vec![] });
                    let (mut d, mut sch) = (Some(data), Some(schema.as_bytes().to_vec()));
                    damage(how, &mut d, &mut sch, next);
                    let put = |n: &str, b: Option<Vec<u8>>| {
                        if let Some(b) = b {
                            storage.create_output_stream(n).and_then(|w| w.borrow_mut().write_all(&b)).unwrap();
                        }
                    };
                    put(name, d);
                    put(&format!("{}.schema", name), sch);
                    // sparse files with the right size, or with a size modulo 2^32, in the header
                    if how.starts_with("large") {
                        let f = self.root.join(&self.paths[h]).join(name);
                        let f = std::fs::OpenOptions::new().write(true).truncate(true).open(f).unwrap();
                        use std::io::Write;
                        let n = if how == "largebad" { LARGE_SIZE & 0xffff_ffff } else { LARGE_SIZE };
                        (&f).write_all(&(n as u64).to_le_bytes()).unwrap();
                        f.set_len(LARGE_SIZE as u64 + 16).unwrap();
                    }
                }
                if !pristine_ok {
                    return kind("missing");
                }
                kind("ok")
            }
            //
            // writers
            //
            "wstart" => match self.builders[op.us("y")].unwrap().start(op.st("res")) {
                Ok(w) => {
                    put(&mut self.writers, x, w);
                    put(&mut self.writing, x, (op.us("y"), op.st("res").into()));
                    kind("ok")
                }
                Err(_) => kind("err"),
            },
            "wgrow" => {
                let w = self.writers[x].as_mut().unwrap();
                let r = w.grow(op.us("id"));
                let (len, open) = w.state();
                obj(vec![("k", s_(res(&r))), ("len", J::I(len)), ("open", J::B(open))])
            }
            "wclose" => {
                let mut w = self.writers[x].take().unwrap();
                let r = guarded(|| w.close().map(|v| (v(), v)));
                let k = match &r {
                    None => "panic",
                    Some(Ok(_)) => "ok",
                    Some(Err(_)) => "err",
                };
                let id = match r {
                    Some(Ok((id, v))) => {
                        self.closed.push((v, id));
                        id
                    }
                    _ => NONE,
                };
                // nothing is left which could panic
                let dropped = guarded(|| drop(w)).is_some();
                obj(vec![("k", s_(k)), ("id", J::I(id)), ("silent", J::B(dropped))])
            }
            "wdrop" => {
                // several writers dropped in one scope
                let ws: Vec<_> = op.ints("xs").iter().map(|x| self.writers.get_mut(*x as usize).and_then(|w| w.take())).collect();
                let unwind = op.bool("unwind");
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _ws = ws;
                    if unwind {
                        std::panic::panic_any("user panic");
                    }
                }));
                let k = match r {
                    Ok(()) => "silent",
                    Err(e) => match e.downcast_ref::<&str>() {
                        Some(&"user panic") => "user",
                        _ => "panic",
                    },
                };
                obj(vec![("k", s_(k))])
            }
            //
            // crash points and faults
            //
            "arm" => {
                std::fs::create_dir_all(&self.root).unwrap();
                sys::arm(self.root.to_str().unwrap(), &format!("{}/snap", self.dir));
                let t = sys::state();
                t.snapshots = op.bool("snap");
                t.fault_at = op.us("at");
                t.writes_only = op.bool("writes");
                t.errno = op.int("errno") as i32;
                t.sticky = op.bool("sticky");
                t.torn = op.opt("torn").is_some();
                kind("ok")
            }
            // nothing below of the root can be changed
            "readonly" => {
                sys::disarm();
                if op.bool("on") && self.root.exists() {
                    sys::arm(self.root.to_str().unwrap(), &format!("{}/snap", self.dir));
                    let t = sys::state();
                    t.failing = true;
                    t.errno = sys::EROFS;
                }
                kind("ok")
            }
            "disarm" => {
                let calls = sys::state().calls;
                sys::disarm();
                obj(vec![("k", s_("ok")), ("calls", i(calls))])
            }
            "heal" => {
                let t = sys::state();
                t.failing = false;
                t.fault_at = 0;
                kind("ok")
            }
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}
fn s_(x: &str) -> J {
    s(x)
}

/// Everything which can be known about a directory and what it contains
fn fingerprint(dir: &Path) -> Vec<String> {
    fn walk(p: &Path, out: &mut Vec<String>) {
        use std::os::unix::fs::MetadataExt;
        let m = match std::fs::symlink_metadata(p) {
            Ok(m) => m,
            Err(_) => return,
        };
        let data = if m.is_file() && m.len() < 1 << 20 { std::fs::read(p).unwrap_or_default() } else { vec![] };
        out.push(format!(
            "{:?} {} {:o} {} {} {}.{} {}.{} {:?}",
            p, m.ino(), m.mode(), m.nlink(), m.len(), m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec(), data
        ));
        if m.is_dir() {
            let mut all: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
            all.sort();
            for e in all {
                walk(&e, out);
            }
        }
    }
    let mut out = vec![];
    walk(dir, &mut out);
    out
}

fn digest(d: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}
/// Content of all files below a directory; paths are relative to the root, and those of directories end with a slash
fn tree(dir: &Path, root: &Path) -> BTreeMap<String, u64> {
    fn walk(p: &Path, root: &Path, out: &mut BTreeMap<String, u64>) {
        let m = match std::fs::symlink_metadata(p) {
            Ok(m) => m,
            Err(_) => return,
        };
        let name = match p.strip_prefix(root) {
            Ok(n) => n.to_string_lossy().into_owned(),
            Err(_) if root.starts_with(p) => "".into(),
            Err(_) => format!("../{}", p.to_string_lossy()),
        };
        if m.is_dir() {
            // the root itself and those above of it have no name
            out.insert(if name == "" { name } else { name + "/" }, 0);
            for e in std::fs::read_dir(p).unwrap() {
                walk(&e.unwrap().path(), root, out);
            }
        } else {
            out.insert(name, std::fs::read(p).map(|d| digest(&d)).unwrap_or(1));
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, root, &mut out);
    out
}

/// Writes all resources of an archive
fn build(a: &str, b: &'static dyn Bld, id: usize) {
    for (n, (kind, name, lay, _)) in resources(a).into_iter().enumerate() {
        let k = (id + n) % 5;
        match kind {
            "struct" | "vec" | "raw" => b.set(name, k).unwrap(),
            "mv" => {
                let mut w = b.start(name).unwrap();
                for _ in 0..k {
                    w.grow(k).unwrap();
                }
                let _ = w.close();
            }
            "sub" => build(lay, b.sub(name).unwrap_or_else(|_| tool_error("craft")), id + n),
            _ => tool_error("bad resource"),
        }
    }
}

fn damage(how: &str, data: &mut Option<Vec<u8>>, schema: &mut Option<Vec<u8>>, next: &str) {
    let former = schema.clone();
    match how {
        "ok" | "large" | "largestruct" | "largebad" => {}
        "nodata" => *data = None,
        "noschema" => *schema = None,
        "none" => {
            *data = None;
            *schema = None;
        }
        "trunc" => {
            data.as_mut().unwrap().pop();
        }
        "long" => data.as_mut().unwrap().push(0),
        "short" => data.as_mut().unwrap().truncate(15),
        "empty" => data.as_mut().unwrap().clear(),
        "hdr" => data.as_mut().unwrap()[0] ^= 1,
        "hdrhi" => data.as_mut().unwrap()[7] ^= 0x80,
        "sch" => *schema.as_mut().unwrap() = b"other".to_vec(),
        "schlong" => schema.as_mut().unwrap().push(b'\n'),
        "schshort" => {
            schema.as_mut().unwrap().pop();
        }
        "schempty" => schema.as_mut().unwrap().clear(),
        "schplain" => {
            // with or without index(..)
            let x = String::from_utf8(schema.take().unwrap()).unwrap();
            *schema = Some(match x.strip_prefix("index(") {
                Some(y) => y[..y.len() - 1].as_bytes().to_vec(),
                None => format!("index({})", x).into_bytes(),
            });
        }
        "schnext" => *schema = Some(next.as_bytes().to_vec()),
        "schspace" => schema.as_mut().unwrap().push(b' '),
        "schlead" => schema.as_mut().unwrap().insert(0, b'\n'),
        "schcase" => {
            for b in schema.as_mut().unwrap() {
                *b = if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
            }
        }
        "utf8" => schema.as_mut().unwrap().push(0xff),
        // intact resources of other sizes
        "small" | "big" | "hollow" | "cleared" | "noitems" => {
            let d = data.as_mut().unwrap();
            let n = match how {
                "small" => d.len() - 17,
                "big" => d.len() - 15,
                _ => 0,
            };
            d.truncate(8 + n);
            d.resize(8 + n, 1);
            d.extend(vec![0; 8]);
            d[..8].copy_from_slice(&(n as u64).to_le_bytes());
        }
        x => tool_error(&format!("unknown damage {}", x)),
    }
    // e.g. of an empty schema
    if how.starts_with("sch") && *schema == former {
        *schema = Some(b"?".to_vec());
    }
}

impl Machine for Storages {
    fn step(&mut self, op: &J) -> J {
        let fired = sys::state().fired;
        let r = guarded(|| self.exec(op)).unwrap_or_else(|| kind("panic"));
        let fired = sys::state().fired > fired;
        let snaps = self.snapshots();
        let pins = self.pins_ok();
        match r {
            J::O(mut v) => {
                v.push(("p".into(), J::B(pins)));
                if let Some(old) = &self.print {
                    let new = fingerprint(Path::new(&self.dir));
                    v.push(("t".into(), J::B(*old == new)));
                    self.print = Some(new);
                }
                if self.known.is_some() {
                    let mut all = guarded(|| sys::aside(|| self.changed())).unwrap_or(vec!["?".into()]);
                    if op.st("op") == "arm" {
                        // creates the root
                        all.clear();
                    }
                    if op.st("op") == "link" {
                        all.retain(|n| !format!("{}/", n).contains("/aside/"));
                    }
                    v.push(("ch".into(), J::A(all.iter().map(|n| s(n)).collect())));
                }
                if op.opt("sys").is_some() {
                    v.push(("fired".into(), J::B(fired)));
                    v.push(("snaps".into(), J::A(snaps)));
                }
                J::O(v)
            }
            _ => tool_error("bad observation"),
        }
    }
}

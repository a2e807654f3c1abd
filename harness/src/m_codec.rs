//! read_bytes! and write_bytes!
use crate::guard::{FarBuf, Guarded};
use crate::json::*;
use crate::lay::*;
use crate::Machine;

pub struct Codec {
    buf: Guarded,
    /// The buffer is the end of a large one
    far: Option<(usize, FarBuf)>,
}
impl Codec {
    pub fn new() -> Self {
        Codec { buf: Guarded::new(), far: None }
    }
    fn data(&mut self) -> &mut [u8] {
        match &mut self.far {
            Some((_, f)) => f.data(),
            None => self.buf.data(),
        }
    }
    fn window(&mut self) -> &mut [u8] {
        match &mut self.far {
            Some((_, f)) => f.window(),
            None => self.buf.data(),
        }
    }
    fn intact(&mut self) -> bool {
        match &mut self.far {
            Some((_, f)) => f.intact(),
            None => self.buf.intact(),
        }
    }
    fn offset(&self, o: usize) -> usize {
        self.far.as_ref().map_or(0, |f| f.0 * 8) + o
    }
}


fn read(t: &str, data: *const u8, o: usize, w: usize) -> [u8; 8] {
    match t {
        "bool" => read_bytes!(bool, data, o, w).to8(),
        "u8" => read_bytes!(u8, data, o, w).to8(),
        "u16" => read_bytes!(u16, data, o, w).to8(),
        "u32" => read_bytes!(u32, data, o, w).to8(),
        "u64" => read_bytes!(u64, data, o, w).to8(),
        "i8" => read_bytes!(i8, data, o, w).to8(),
        "i16" => read_bytes!(i16, data, o, w).to8(),
        "i32" => read_bytes!(i32, data, o, w).to8(),
        "i64" => read_bytes!(i64, data, o, w).to8(),
        x => tool_error(&format!("unknown type {}", x)),
    }
}

/// Macros with their defaults for offset and width
fn read_default(t: &str, data: *const u8, o: Option<usize>) -> [u8; 8] {
    macro_rules! rd {
        ($T:tt) => {
            match o {
                None => read_bytes!($T, data).to8(),
                Some(o) => read_bytes!($T, data, o).to8(),
            }
        };
    }
    match t {
        "bool" => rd!(bool),
        "u8" => rd!(u8),
        "u16" => rd!(u16),
        "u32" => rd!(u32),
        "u64" => rd!(u64),
        "i8" => rd!(i8),
        "i16" => rd!(i16),
        "i32" => rd!(i32),
        "i64" => rd!(i64),
        x => tool_error(&format!("unknown type {}", x)),
    }
}

fn write(t: &str, data: &mut [u8], o: usize, w: Option<usize>, v: [u8; 8]) {
    macro_rules! wr {
        ($T:tt) => {
            match w {
                Some(w) => write_bytes!($T; <$T as Val>::from8(v), data, o, w),
                None => write_bytes!($T; <$T as Val>::from8(v), data, o),
            }
        };
    }
    match t {
        "bool" => wr!(bool),
        "u8" => wr!(u8),
        "u16" => wr!(u16),
        "u32" => wr!(u32),
        "u64" => wr!(u64),
        "i8" => wr!(i8),
        "i16" => wr!(i16),
        "i32" => wr!(i32),
        "i64" => wr!(i64),
        x => tool_error(&format!("unknown type {}", x)),
    }
}

impl Machine for Codec {
    fn step(&mut self, op: &J) -> J {
        match op.st("op") {
            "load" => {
                self.far = None;
                if op.has("base") {
                    let base: usize = op.st("base").parse().unwrap();
                    self.far = Some((base, FarBuf::new(base, &op.by("b"))));
                } else {
                    self.buf.load(&op.by("b"));
                }
                kind("ok")
            }
            k @ "w" | k @ "wdo" => {
                let mut v = [0; 8];
                v.copy_from_slice(&op.by("v"));
                let w = if k == "w" { Some(op.us("w")) } else { None };
                let o = self.offset(op.us("o"));
                write(op.st("t"), self.data(), o, w, v);
                obj(vec![("k", s("ok")), ("b", bytes(self.window())), ("c", J::B(self.intact()))])
            }
            k @ "r" | k @ "rd" | k @ "rdo" => {
                let p = self.data().as_ptr();
                let v = match k {
                    "r" => read(op.st("t"), p, self.offset(op.us("o")), op.us("w")),
                    "rd" => read_default(op.st("t"), p, None),
                    _ => read_default(op.st("t"), p, Some(self.offset(op.us("o")))),
                };
                obj(vec![("k", s("val")), ("v", v8(&v)), ("c", J::B(self.intact()))])
            }
            x => tool_error(&format!("unknown op {}", x)),
        }
    }
}

//! Generic access to the generated structs.
use crate::json::*;
use flatdata::*;

/// A field value as 64 bit two's complement, little endian.
pub trait Val: Copy {
    fn to8(self) -> [u8; 8];
    fn from8(v: [u8; 8]) -> Self;
}
macro_rules! val {
    ($($t:ty, $wide:ty);*) => { $(
        impl Val for $t {
            fn to8(self) -> [u8; 8] { (self as $wide).to_le_bytes() }
            fn from8(v: [u8; 8]) -> Self { <$wide>::from_le_bytes(v) as $t }
        }
    )* };
}
val!(u8, u64; u16, u64; u32, u64; u64, u64; i8, i64; i16, i64; i32, i64; i64, i64);
impl Val for bool {
    fn to8(self) -> [u8; 8] {
        // reading an invalid bool is a violation which shows as another value
        let b: u8 = unsafe { std::mem::transmute(self) };
        (b as u64).to_le_bytes()
    }
    fn from8(v: [u8; 8]) -> Self {
        v[0] != 0
    }
}

pub fn bad_field() -> ! {
    tool_error("bad field index")
}

pub trait Lay: for<'b> Struct<'b> + 'static {
    const NAME: &'static str;
    const NF: usize;
    fn get<'a>(x: &<Self as Struct<'a>>::Item, f: usize) -> [u8; 8];
    fn getm<'a>(x: &<Self as Struct<'a>>::ItemMut, f: usize) -> [u8; 8];
    fn set<'a>(x: &mut <Self as Struct<'a>>::ItemMut, f: usize, v: [u8; 8]);
    fn fill<'a, 'b>(x: &mut <Self as Struct<'a>>::ItemMut, y: &<Self as Struct<'b>>::Item);
    fn into_ref<'a>(d: &'a mut [u8]) -> <Self as Struct<'a>>::Item;
}

pub trait Variadic: for<'b> VariadicStruct<'b> + 'static {
    type Idx: for<'b> IndexStruct<'b> + 'static;
    fn add<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, t: i64, vals: &[[u8; 8]]);
    fn tag<'a>(x: &<Self as VariadicStruct<'a>>::Item) -> i64;
    fn fields<'a>(x: &<Self as VariadicStruct<'a>>::Item) -> Vec<[u8; 8]>;
    /// Tags and numbers of fields of the variants
    fn tags() -> Vec<(i64, usize)>;
}

/// Sets all fields, in reverse order.
pub fn set_all<'a, T: Lay>(x: &mut <T as Struct<'a>>::ItemMut, vals: &[[u8; 8]]) {
    for f in (0..vals.len()).rev() {
        T::set(x, f, vals[f]);
    }
}
pub fn get_all<'a, T: Lay>(x: &<T as Struct<'a>>::Item) -> Vec<[u8; 8]> {
    (0..T::NF).map(|f| T::get(x, f)).collect()
}
pub fn getm_all<'a, T: Lay>(x: &<T as Struct<'a>>::ItemMut) -> Vec<[u8; 8]> {
    (0..T::NF).map(|f| T::getm(x, f)).collect()
}

pub fn v8(x: &[u8; 8]) -> J {
    bytes(x)
}
pub fn int8(x: &[u8; 8]) -> J {
    let v = i64::from_le_bytes(*x);
    // larger integers are not understood by TLC, and never correct
    J::I(if v >= 0 && v < 1 << 31 { v } else { -2147483647 })
}
/// Field values as small integers
pub fn small(x: &[[u8; 8]]) -> J {
    J::A(x.iter().map(int8).collect())
}
pub fn from_small(x: &J) -> Vec<[u8; 8]> {
    x.as_arr().iter().map(|v| v.as_int().to_le_bytes()).collect()
}
/// Length and non-zero bytes of data
pub fn sparse(x: &[u8]) -> J {
    let mut nz = vec![];
    let mut i = 0;
    while i < x.len() {
        if i % 16 == 0 && i + 16 <= x.len() && x[i..i + 16] == [0; 16] {
            i += 16;
            continue;
        }
        if x[i] != 0 {
            nz.push(ints(&[i as i64, x[i] as i64]));
            if nz.len() > 5000 {
                break;
            }
        }
        i += 1;
    }
    obj(vec![("n", i_(x.len())), ("nz", J::A(nz))])
}
fn i_(x: usize) -> J {
    J::I(x as i64)
}

//
// Archives: contents are identified by small numbers
//

/// Content of an opened archive
pub trait Arc {
    fn content(&self) -> Vec<(String, i64)>;
    fn debug(&self) -> String;
    fn copy(&self) -> Box<dyn Arc>;
    /// Debug output of each resource, in the order of their declaration
    fn pieces(&self) -> Vec<(&'static str, String)>;
}
/// An archive builder
pub trait Bld {
    fn set(&self, res: &str, k: usize) -> std::io::Result<()>;
    fn start(&'static self, res: &str) -> std::io::Result<Box<dyn Writer>>;
    fn sub(&self, res: &str) -> Result<&'static dyn Bld, ResourceStorageError>;
}
/// A view returned by closing, as the content found in it
pub type View = Box<dyn Fn() -> i64>;
/// An external vector or multivector
pub trait Writer {
    /// Adds the next element of content k
    fn grow(&mut self, k: usize) -> std::io::Result<()>;
    /// Number of elements and whether it is open
    fn state(&self) -> (i64, bool);
    /// Content which is found in the view
    fn close(&mut self) -> Result<View, ResourceStorageError>;
}

/// The resource is absent
pub const NONE: i64 = -2;
/// The content is none of the expected ones
pub const GARBAGE: i64 = -1;
const MAX_ID: usize = 40;
/// Zeros of this size, which is a multiple of the sizes of small elements
pub const LARGE: i64 = 50;
pub const LARGE_SIZE: usize = 4_294_967_520;
/// The beginning, the end, and some bytes in between
fn is_large(x: &[u8]) -> bool {
    let n = x.len();
    n == LARGE_SIZE && x[..5000].iter().chain(&x[n - 5000..]).chain(x.iter().step_by(123_456_789)).all(|b| *b == 0)
}

pub fn prefixed(p: &str, x: Vec<(String, i64)>) -> Vec<(String, i64)> {
    x.into_iter().map(|(n, v)| (format!("{}/{}", p, n), v)).collect()
}

/// Field values of element j of content k
fn vals(nf: usize, k: usize, j: usize) -> Vec<[u8; 8]> {
    (0..nf).map(|f| ((k + j + f + 1) as u64 % 64).to_le_bytes()).collect()
}
pub fn struct_of<T: Lay>(k: usize) -> StructBuf<T> {
    let mut b = StructBuf::<T>::new();
    set_all::<T>(&mut b.get_mut(), &vals(T::NF, k, 0));
    b
}
pub fn struct_id<T: Lay>(x: &<T as Struct<'_>>::Item) -> i64 {
    let v = get_all::<T>(x);
    (0..MAX_ID).find(|k| vals(T::NF, *k, 0) == v).map_or(GARBAGE, |k| k as i64)
}
pub fn vec_of<T: Lay>(k: usize) -> Vector<T> {
    let mut v = Vector::<T>::new();
    for j in 0..k {
        set_all::<T>(&mut v.grow(), &vals(T::NF, k, j));
    }
    v
}
pub fn vec_id<T: Lay>(v: &ArrayView<'_, T>) -> i64 {
    let k = v.len();
    if k < MAX_ID
        && v.as_bytes().len() == k * T::SIZE_IN_BYTES
        && (0..k).all(|j| get_all::<T>(&v.at(j)) == vals(T::NF, k, j))
    {
        k as i64
    } else if is_large(v.as_bytes())
        && k == LARGE_SIZE / T::SIZE_IN_BYTES
        && [0, k / 2, k - 1].iter().all(|j| get_all::<T>(&v.at(*j)).iter().all(|x| *x == [0; 8]))
    {
        LARGE
    } else {
        GARBAGE
    }
}
pub fn raw_of(k: usize) -> Vec<u8> {
    vec![k as u8; k]
}
pub fn raw_id(x: &[u8]) -> i64 {
    if x.len() < MAX_ID && x.iter().all(|b| *b as usize == x.len()) {
        x.len() as i64
    } else if is_large(x) {
        LARGE
    } else {
        GARBAGE
    }
}
/// Tags and values of the items of bucket j of content k, which has k buckets
fn bucket<T: Variadic>(k: usize, j: usize) -> Vec<(i64, Vec<[u8; 8]>)> {
    let t = T::tags();
    (0..(k + j) % 3)
        .map(|n| {
            let (tag, nf) = t[(j + n) % t.len()];
            (tag, vals(nf, k, j + n))
        })
        .collect()
}
pub fn mv_id<T: Variadic>(v: &MultiArrayView<'_, T::Idx, T>) -> i64 {
    let k = v.len();
    if k < MAX_ID
        && (0..k).all(|j| {
            let x: Vec<_> = v.at(j).take(100).map(|x| (T::tag(&x), T::fields(&x))).collect();
            x == bucket::<T>(k, j)
        })
    {
        k as i64
    } else {
        GARBAGE
    }
}

pub struct EvW<T: Lay>(pub Option<ExternalVector<'static, T>>, pub usize);
impl<T: Lay> Writer for EvW<T> {
    fn grow(&mut self, k: usize) -> std::io::Result<()> {
        let w = self.0.as_mut().unwrap();
        let j = self.1;
        set_all::<T>(&mut w.grow()?, &vals(T::NF, k, j));
        self.1 += 1;
        Ok(())
    }
    fn state(&self) -> (i64, bool) {
        self.0.as_ref().map_or((-1, false), |w| (w.len() as i64, w.is_open()))
    }
    fn close(&mut self) -> Result<View, ResourceStorageError> {
        self.0.take().unwrap().close().map(|v| Box::new(move || vec_id::<T>(&v)) as View)
    }
}
pub struct MvW<T: Variadic>(pub Option<MultiVector<'static, T::Idx, T>>, pub usize);
impl<T: Variadic> Writer for MvW<T> {
    fn grow(&mut self, k: usize) -> std::io::Result<()> {
        let w = self.0.as_mut().unwrap();
        let j = self.1;
        {
            let mut b = w.grow()?;
            for (tag, v) in bucket::<T>(k, j) {
                T::add(&mut b, tag, &v);
            }
        }
        self.1 += 1;
        Ok(())
    }
    fn state(&self) -> (i64, bool) {
        (self.1 as i64, true)
    }
    fn close(&mut self) -> Result<View, ResourceStorageError> {
        self.0.take().unwrap().close().map(|v| Box::new(move || mv_id::<T>(&v)) as View)
    }
}

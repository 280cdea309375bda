//! Stand-in for hdf5: files are tables in memory (one name space for the process), datasets are lists of
//! values or of rows, selections out of bounds are errors, what was never written cannot be read.
use ndarray::{Array1, Array2, SliceInfoElem};
use std::any::Any;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
fn err<T>(s: impl Into<String>) -> Result<T> { Err(Error(s.into())) }

pub trait H5Type: Clone + Send + Sync + 'static {}
impl<T: Clone + Send + Sync + 'static> H5Type for T {}
type Value = Arc<dyn Any + Send + Sync>;

#[derive(Default)]
struct Set { shape: Vec<usize>, values: Vec<Option<Value>>, rows: Vec<Vec<f64>>, attrs: HashMap<String, Value>, reads: Vec<Range<usize>> }
#[derive(Default)]
struct Data { sets: HashMap<String, Arc<Mutex<Set>>>, attrs: HashMap<String, Value>, writers: Vec<std::thread::ThreadId> }
static FILES: Mutex<Option<HashMap<PathBuf, Arc<Mutex<Data>>>>> = Mutex::new(None);
fn files<R>(f: impl FnOnce(&mut HashMap<PathBuf, Arc<Mutex<Data>>>) -> R) -> R { f(FILES.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new)) }
fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

#[derive(Clone)]
pub struct File { path: PathBuf, data: Arc<Mutex<Data>>, rw: bool, _open: Option<Arc<Open>> }
/// a file open for writing is locked for all other ranks until it is closed, as HDF5 does it
struct Open(Arc<Mutex<Data>>);
impl Open {
    fn new(data: &Arc<Mutex<Data>>) -> Arc<Open> { lock(data).writers.push(std::thread::current().id()); Arc::new(Open(data.clone())) }
}
impl Drop for Open {
    fn drop(&mut self) { let mut d = lock(&self.0); let me = std::thread::current().id(); if let Some(i) = d.writers.iter().position(|w| *w == me).or(if d.writers.is_empty() { None } else { Some(0) }) { d.writers.remove(i); } }
}
impl std::fmt::Debug for File { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.path) } }
impl File {
    pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
        let data = Arc::new(Mutex::new(Data::default()));
        let old = files(|m| m.insert(p.as_ref().to_owned(), data.clone()));
        if old.is_some_and(|o| !lock(&o).writers.is_empty()) { return err(format!("file {:?} is in use", p.as_ref())); }
        // a name on disk, where there is a directory for it, so that the file can be found
        if p.as_ref().parent().is_some_and(|d| d.is_dir()) { let _ = std::fs::write(p.as_ref(), b""); }
        let o = Open::new(&data);
        Ok(File { path: p.as_ref().to_owned(), data, rw: true, _open: Some(o) })
    }
    fn get(p: &Path, rw: bool) -> Result<File> {
        let Some(data) = files(|m| m.get(p).cloned()) else { return err(format!("no file {p:?}")) };
        let me = std::thread::current().id();
        if lock(&data).writers.iter().any(|w| *w != me) { return err(format!("file {p:?} is open for writing by another rank")); }
        let o = if rw { Some(Open::new(&data)) } else { None };
        Ok(File { path: p.to_owned(), data, rw, _open: o })
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<File> { Self::get(p.as_ref(), false) }
    pub fn open_rw<P: AsRef<Path>>(p: P) -> Result<File> { Self::get(p.as_ref(), true) }
    pub fn filename(&self) -> String { self.path.display().to_string() }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        match lock(&self.data).sets.get(name) { Some(set) => Ok(Dataset { set: set.clone(), rw: self.rw }), None => err(format!("no dataset {name}")) }
    }
    pub fn new_dataset<T: H5Type>(&self) -> NewDataset<T> { NewDataset { file: self.clone(), shape: vec![], t: PhantomData } }
    pub fn new_attr<T: H5Type>(&self) -> NewAttribute<T> { NewAttribute { of: Of::File(self.data.clone()), rw: self.rw, t: PhantomData } }
    pub fn attr(&self, name: &str) -> Result<Attribute> { Attribute::get(Of::File(self.data.clone()), name, self.rw) }
}
pub trait Shape { fn dims(self) -> Vec<usize>; }
impl Shape for () { fn dims(self) -> Vec<usize> { vec![] } }
impl Shape for usize { fn dims(self) -> Vec<usize> { vec![self] } }
impl Shape for [usize; 1] { fn dims(self) -> Vec<usize> { self.to_vec() } }
impl Shape for [usize; 2] { fn dims(self) -> Vec<usize> { self.to_vec() } }
impl Shape for &[usize; 1] { fn dims(self) -> Vec<usize> { self.to_vec() } }
impl Shape for &[usize; 2] { fn dims(self) -> Vec<usize> { self.to_vec() } }
impl Shape for &[usize] { fn dims(self) -> Vec<usize> { self.to_vec() } }
pub struct NewDataset<T> { file: File, shape: Vec<usize>, t: PhantomData<T> }
impl<T: H5Type> NewDataset<T> {
    pub fn shape<S: Shape>(mut self, s: S) -> Self { self.shape = s.dims(); self }
    pub fn create(self, name: &str) -> Result<Dataset> {
        if !self.file.rw { return err("file is open for reading only"); }
        let mut d = lock(&self.file.data);
        if d.sets.contains_key(name) { return err(format!("dataset {name} already exists")); }
        let set = Arc::new(Mutex::new(Set { values: vec![None; self.shape[0]], shape: self.shape, ..Default::default() }));
        d.sets.insert(name.to_string(), set.clone());
        Ok(Dataset { set, rw: true })
    }
}
enum Of { File(Arc<Mutex<Data>>), Set(Arc<Mutex<Set>>) }
impl Of {
    fn with<R>(&self, f: impl FnOnce(&mut HashMap<String, Value>) -> R) -> R {
        match self { Of::File(d) => f(&mut lock(d).attrs), Of::Set(s) => f(&mut lock(s).attrs) }
    }
}
pub struct NewAttribute<T> { of: Of, rw: bool, t: PhantomData<T> }
impl<T: H5Type> NewAttribute<T> {
    pub fn shape(self, _: ()) -> Self { self }
    pub fn create(self, name: &str) -> Result<Attribute> {
        if !self.rw { return err("file is open for reading only"); }
        if self.of.with(|m| m.contains_key(name)) { return err(format!("attribute {name} already exists")); }
        self.of.with(|m| m.insert(name.to_string(), Arc::new(Empty)));
        Ok(Attribute { of: self.of, name: name.to_string(), rw: true })
    }
}
struct Empty;
pub struct Attribute { of: Of, name: String, rw: bool }
impl Attribute {
    fn get(of: Of, name: &str, rw: bool) -> Result<Attribute> {
        if of.with(|m| m.contains_key(name)) { Ok(Attribute { of, name: name.to_string(), rw }) } else { err(format!("no attribute {name}")) }
    }
    pub fn write_scalar<T: H5Type>(&self, t: &T) -> Result<()> {
        if !self.rw { return err("file is open for reading only"); }
        self.of.with(|m| m.insert(self.name.clone(), Arc::new(t.clone())));
        Ok(())
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        match self.of.with(|m| m[&self.name].clone()).downcast_ref::<T>() { Some(t) => Ok(t.clone()), None => err("attribute of another type") }
    }
}
pub struct Dataset { set: Arc<Mutex<Set>>, rw: bool }
pub struct Selection(Vec<SliceInfoElem>);
impl Selection {
    pub fn try_new<S: AsRef<[SliceInfoElem]>>(s: S) -> Result<Selection> { Ok(Selection(s.as_ref().to_vec())) }
}
impl Dataset {
    pub fn name(&self) -> String { "dataset".to_string() }
    pub fn shape(&self) -> Vec<usize> { lock(&self.set).shape.clone() }
    pub fn attr(&self, name: &str) -> Result<Attribute> { Attribute::get(Of::Set(self.set.clone()), name, self.rw) }
    pub fn new_attr<T: H5Type>(&self) -> NewAttribute<T> { NewAttribute { of: Of::Set(self.set.clone()), rw: self.rw, t: PhantomData } }
    pub fn read_slice_1d<T: H5Type, S: Into<Range<usize>>>(&self, s: S) -> Result<Array1<T>> {
        let (s, mut d) = (s.into(), lock(&self.set));
        if s.start > s.end || s.end > d.shape[0] { return err(format!("{s:?} out of bounds of {:?}", d.shape)); }
        d.reads.push(s.clone());
        d.values[s].iter().map(|v| match v { None => err("nothing was written there"), Some(v) => v.downcast_ref::<T>().cloned().ok_or(Error("dataset of another type".into())) }).collect::<Result<Vec<T>>>().map(Array1::from)
    }
    pub fn read_slice_2d<T: H5Type, S: Into<Selection>>(&self, s: S) -> Result<Array2<T>> {
        let (s, mut d) = (s.into().0, lock(&self.set));
        let r = |e: &SliceInfoElem, n: usize| -> Result<Range<usize>> {
            match *e {
                SliceInfoElem::Slice { start, end, step: 1 } => {
                    let (a, b) = (start, end.unwrap_or(n as isize));
                    if a < 0 || b < a || b > n as isize { err(format!("{a}..{b} out of bounds of {n}")) } else { Ok(a as usize..b as usize) }
                }
                _ => err("selection not supported"),
            }
        };
        let (a, b) = (r(&s[0], d.shape[0])?, r(&s[1], d.shape[1])?);
        d.reads.push(a.clone());
        let (n, m) = (a.len(), b.len());
        let v: Vec<T> = d.rows[a].iter().flat_map(|row| row[b.clone()].iter()).map(|x| (x as &dyn Any).downcast_ref::<T>().cloned().ok_or(Error("dataset of another type".into()))).collect::<Result<Vec<T>>>()?;
        Ok(Array2::from_shape_vec((n, m), v).unwrap())
    }
    pub fn write_slice<T: H5Type>(&self, t: &[T], s: Range<usize>) -> Result<()> {
        if !self.rw { return err("file is open for reading only"); }
        let mut d = lock(&self.set);
        if s.start > s.end || s.end > d.shape[0] || s.len() != t.len() { return err(format!("{s:?} for {} values out of bounds of {:?}", t.len(), d.shape)); }
        for (i, x) in s.zip(t) { d.values[i] = Some(Arc::new(x.clone())); }
        Ok(())
    }
    /// for contracts: the selections read so far (and forget them)
    pub fn vx_reads(&self) -> Vec<Range<usize>> { std::mem::take(&mut lock(&self.set).reads) }
    pub fn vx_set_rows(&self, rows: Vec<Vec<f64>>) { let mut d = lock(&self.set); d.shape = vec![rows.len(), rows.first().map_or(3, |r| r.len())]; d.rows = rows; }
}
/// for contracts: forget all files
pub fn vx_clear() { files(|m| m.clear()) }
pub mod file { pub use crate::File; }
pub use vxderive::H5Type;

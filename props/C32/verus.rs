use vstd::prelude::*;
verus! {
//@ include ../vx_helpers.rs
//@ extract src/units/dimension.rs :: struct Dimension
//@ end
//@ extract src/io/file_distribution.rs :: struct Region
//@ end
impl Region {
    //@ extract src/io/file_distribution.rs :: impl Region :: fn size
    //@ ret r
    //@ spec
        requires self.start <= self.end,
        ensures r == self.end - self.start,
    //@ end
}
// ------------------------------------------------------------------ assumed of HDF5
/// a scalar attribute
pub enum Val { Nothing, F(f64), I(i32) }
/// the attributes of a dataset
pub struct Dataset { pub attrs: Ghost<Map<Seq<char>, Val>>, pub len: Ghost<nat> }
pub struct Attr { pub name: Ghost<Seq<char>> }
#[verifier::external_body]
fn vx_new_attr(d: &mut Dataset, name: &str) -> (a: Attr)
    requires !old(d).attrs@.contains_key(name@),
    ensures a.name@ == name@, final(d).attrs@ == old(d).attrs@.insert(name@, Val::Nothing), final(d).len == old(d).len
{ unimplemented!() }
#[verifier::external_body]
fn vx_put_f(d: &mut Dataset, a: &Attr, v: f64)
    requires old(d).attrs@.contains_key(a.name@),
    ensures final(d).attrs@ == old(d).attrs@.insert(a.name@, Val::F(v)), final(d).len == old(d).len
{ unimplemented!() }
#[verifier::external_body]
fn vx_put_i(d: &mut Dataset, a: &Attr, v: i32)
    requires old(d).attrs@.contains_key(a.name@),
    ensures final(d).attrs@ == old(d).attrs@.insert(a.name@, Val::I(v)), final(d).len == old(d).len
{ unimplemented!() }
#[verifier::external_body]
fn vx_get_i(d: &Dataset, name: &str) -> (v: i32)
    requires d.attrs@.contains_key(name@), d.attrs@[name@] is I,
    ensures d.attrs@[name@] == Val::I(v)
{ unimplemented!() }
/// the attribute, or zero if there is none
#[verifier::external_body]
fn vx_get_i_or_zero(d: &Dataset, name: &str) -> (v: i32)
    requires d.attrs@.contains_key(name@) ==> d.attrs@[name@] is I,
    ensures v == (if d.attrs@.contains_key(name@) { d.attrs@[name@]->I_0 } else { 0i32 })
{ unimplemented!() }
#[verifier::external_body]
fn vx_get_f(d: &Dataset, name: &str) -> (v: f64)
    requires d.attrs@.contains_key(name@), d.attrs@[name@] is F,
    ensures d.attrs@[name@] == Val::F(v)
{ unimplemented!() }
/// the files of a snapshot: for each file the values of the dataset
pub struct Store<T> { pub sets: Ghost<Map<int, Seq<Option<T>>>>, pub attrs: Ghost<Map<int, Map<Seq<char>, Val>>> }
pub struct File { pub id: Ghost<int> }
pub struct FileWithRegion { pub file: File, pub region: Region }
pub struct Set { pub id: Ghost<int> }
#[verifier::external_body]
fn vx_open<T>(s: &Store<T>, f: &File) -> (d: Set)
    requires s.sets@.contains_key(f.id@),
    ensures d.id@ == f.id@
{ unimplemented!() }
#[verifier::external_body]
fn vx_write_slice<T>(s: &mut Store<T>, d: &Set, data: &Vec<T>, a: usize, b: usize, start: usize, end: usize)
    requires old(s).sets@.contains_key(d.id@), a <= b <= data@.len(), start <= end <= old(s).sets@[d.id@].len(), b - a == end - start,
    ensures final(s).sets@ == old(s).sets@.insert(d.id@, put(old(s).sets@[d.id@], start as int, data@.subrange(a as int, b as int))), final(s).attrs == old(s).attrs
{ unimplemented!() }
#[verifier::external_body]
fn vx_create<T>(s: &mut Store<T>, f: &File, n: usize) -> (d: Dataset)
    requires !old(s).sets@.contains_key(f.id@),
    ensures final(s).sets@ == old(s).sets@.insert(f.id@, Seq::new(n as nat, |i: int| None)), d.len@ == n, d.attrs@ == Map::<Seq<char>, Val>::empty(),
        final(s).attrs@ == old(s).attrs@.insert(f.id@, Map::<Seq<char>, Val>::empty())
{ unimplemented!() }
/// the attributes of the dataset of a file are what was written to them
#[verifier::external_body]
fn vx_keep<T>(s: &mut Store<T>, f: &File, d: &Dataset)
    ensures final(s).sets == old(s).sets, final(s).attrs@ == old(s).attrs@.insert(f.id@, d.attrs@)
{ unimplemented!() }
spec fn dimension_known<T>(s: Store<T>, f: File) -> bool { s.attrs@.contains_key(f.id@) && carries(Dataset { attrs: Ghost(s.attrs@[f.id@]), len: Ghost(0) }, dimension_of::<T>()) }
spec fn put<T>(s: Seq<Option<T>>, start: int, v: Seq<T>) -> Seq<Option<T>> { Seq::new(s.len(), |i: int| if start <= i < start + v.len() { Some(v[i - start]) } else { s[i] }) }
fn vx_require(b: bool) requires b {}

pub uninterp spec fn dimension_of<T>() -> Dimension;
pub uninterp spec fn factor_of(d: Dimension) -> f64;
#[verifier::external_body]
fn vx_dimension<T>() -> (d: Dimension) ensures d == dimension_of::<T>() { unimplemented!() }
impl Dimension {
    #[verifier::external_body]
    pub fn base_conversion_factor(&self) -> (f: f64) ensures f == factor_of(*self) { unimplemented!() }
}
//@ extract src/io/output/mod.rs :: const SCALE_FACTOR_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/io/output/mod.rs :: const LENGTH_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/io/output/mod.rs :: const TIME_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/io/output/mod.rs :: const MASS_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/io/output/mod.rs :: const TEMPERATURE_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/io/output/mod.rs :: const H_SCALING_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/io/output/mod.rs :: const A_SCALING_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
/// assumed (compared in the executable contract): the seven names differ
spec fn names() -> Seq<Seq<char>> { seq![SCALE_FACTOR_IDENTIFIER@, LENGTH_IDENTIFIER@, TIME_IDENTIFIER@, MASS_IDENTIFIER@, TEMPERATURE_IDENTIFIER@, H_SCALING_IDENTIFIER@, A_SCALING_IDENTIFIER@] }
#[verifier::external_body]
proof fn names_differ() ensures names().no_duplicates() {}
spec fn has(d: Dataset, name: Seq<char>, v: Val) -> bool { d.attrs@.contains_key(name) && d.attrs@[name] == v }
/// the attributes carry the dimension and its factor
spec fn carries(d: Dataset, dim: Dimension) -> bool {
    &&& has(d, SCALE_FACTOR_IDENTIFIER@, Val::F(factor_of(dim)))
    &&& has(d, LENGTH_IDENTIFIER@, Val::I(dim.length)) && has(d, TIME_IDENTIFIER@, Val::I(dim.time)) && has(d, MASS_IDENTIFIER@, Val::I(dim.mass))
    &&& has(d, TEMPERATURE_IDENTIFIER@, Val::I(dim.temperature)) && has(d, H_SCALING_IDENTIFIER@, Val::I(dim.h)) && has(d, A_SCALING_IDENTIFIER@, Val::I(dim.a))
}
//@ extract src/io/output/mod.rs :: fn write_dimension
//@ rewrite 1 `dataset: &Dataset` => `dataset: &mut Dataset`
//@ rewrite 1 `dataset.new_attr::<i32>().shape(()).create(identifier).unwrap()` => `vx_new_attr(dataset, identifier)`
//@ rewrite 1 `attr.write_scalar(&dimension).unwrap()` => `vx_put_i(dataset, &attr, dimension)`
//@ spec
    requires !old(dataset).attrs@.contains_key(identifier@),
    ensures final(dataset).attrs@ == old(dataset).attrs@.insert(identifier@, Val::I(dimension)), final(dataset).len == old(dataset).len,
//@ exit
    proof { assert(dataset.attrs@ =~= old(dataset).attrs@.insert(identifier@, Val::I(dimension))); }
//@ end
//@ extract src/io/output/mod.rs :: fn add_dimension_attrs
//@ rewrite 1 `<T: ToDataset>` => `<T>`
//@ rewrite 1 `dataset: &Dataset` => `dataset: &mut Dataset`
//@ rewrite 1 `dataset.new_attr::<f64>().shape(()).create(SCALE_FACTOR_IDENTIFIER).unwrap()` => `vx_new_attr(dataset, SCALE_FACTOR_IDENTIFIER)`
//@ rewrite 1 `attr.write_scalar(&scale_factor).unwrap()` => `vx_put_f(dataset, &attr, scale_factor)`
//@ rewrite 1 `T::dimension()` => `vx_dimension::<T>()`
//@ spec
    requires old(dataset).attrs@ == Map::<Seq<char>, Val>::empty(),
    ensures carries(*final(dataset), dimension_of::<T>()), final(dataset).len == old(dataset).len,
//@ entry
    proof { names_differ(); let n = names(); assert(n[0] != n[1] && n[0] != n[2] && n[0] != n[3] && n[0] != n[4] && n[0] != n[5] && n[0] != n[6] && n[1] != n[2] && n[1] != n[3] && n[1] != n[4] && n[1] != n[5] && n[1] != n[6] && n[2] != n[3] && n[2] != n[4] && n[2] != n[5] && n[2] != n[6] && n[3] != n[4] && n[3] != n[5] && n[3] != n[6] && n[4] != n[5] && n[4] != n[6] && n[5] != n[6]); }
//@ end
pub struct DefaultUnitReader;
impl DefaultUnitReader {
    //@ extract src/io/unit_reader.rs :: impl UnitReader for DefaultUnitReader :: fn read_scale_factor
    //@ rewrite 1 `set.attr(SCALE_FACTOR_IDENTIFIER).expect("No scale factor in dataset").read_scalar().unwrap()` => `vx_get_f(set, SCALE_FACTOR_IDENTIFIER)`
    //@ ret r
    //@ spec
        requires exists|dim: Dimension| carries(*set, dim),
        ensures forall|dim: Dimension| carries(*set, dim) ==> r == factor_of(dim),
    //@ end
    //@ extract src/io/unit_reader.rs :: impl UnitReader for DefaultUnitReader :: fn read_dimension
    //@ rewrite 1 `let read_attr = |ident, error_message| set.attr(ident).expect(error_message).read_scalar().unwrap();` => ``
    //@ rewrite 1 `let read_optional_attr = |ident| match set.attr(ident) { Ok(attr) => attr.read_scalar().unwrap(), Err(_) => 0, };` => ``
    //@ rewrite * `read_attr(LENGTH_IDENTIFIER, "No length scale factor in dataset")` => `vx_get_i(set, LENGTH_IDENTIFIER)`
    //@ rewrite * `read_attr(MASS_IDENTIFIER, "No mass scale factor in dataset")` => `vx_get_i(set, MASS_IDENTIFIER)`
    //@ rewrite * `read_attr(TIME_IDENTIFIER, "No time scale factor in dataset")` => `vx_get_i(set, TIME_IDENTIFIER)`
    //@ rewrite * `read_attr(TEMPERATURE_IDENTIFIER, "No temperature scale factor in dataset",)` => `vx_get_i(set, TEMPERATURE_IDENTIFIER)`
    //@ rewrite * `read_optional_attr(H_SCALING_IDENTIFIER)` => `vx_get_i_or_zero(set, H_SCALING_IDENTIFIER)`
    //@ rewrite * `read_optional_attr(A_SCALING_IDENTIFIER)` => `vx_get_i_or_zero(set, A_SCALING_IDENTIFIER)`
    //@ ret r
    //@ spec
        // what was written is what is read: all six exponents
        requires exists|dim: Dimension| carries(*set, dim),
        ensures carries(*set, r), forall|dim: Dimension| carries(*set, dim) ==> r == dim,
    //@ end
}
// ------------------------------------------------------------------ the values
spec fn offset(fs: Seq<FileWithRegion>, i: int) -> int decreases i { if i <= 0 { 0 } else { offset(fs, i - 1) + (fs[i - 1].region.end - fs[i - 1].region.start) } }
proof fn offset_monotone(fs: Seq<FileWithRegion>, i: int, j: int)
    requires 0 <= i <= j <= fs.len(), forall|k: int| 0 <= k < fs.len() ==> (#[trigger] fs[k]).region.start <= fs[k].region.end,
    ensures 0 <= offset(fs, i) <= offset(fs, j), i < j ==> offset(fs, i) + (fs[i].region.end - fs[i].region.start) <= offset(fs, j),
    decreases j,
{
    if i < j { offset_monotone(fs, i, j - 1); let _ = fs[j - 1]; } else if 0 < i { offset_monotone(fs, i - 1, i - 1); let _ = fs[i - 1]; offset_monotone(fs, i - 1, i - 1); }
}
spec fn inside(f: FileWithRegion, id: int, p: int) -> bool { f.file.id@ == id && f.region.start <= p < f.region.end }
/// the regions of one rank: each within its file, none overlapping another (C01)
spec fn valid<T>(fs: Seq<FileWithRegion>, s: Store<T>) -> bool {
    &&& forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).region.start <= fs[i].region.end && s.sets@.contains_key(fs[i].file.id@) && fs[i].region.end <= s.sets@[fs[i].file.id@].len()
    &&& forall|i: int, j: int, id: int, p: int| 0 <= i < j < fs.len() && #[trigger] inside(fs[i], id, p) ==> !#[trigger] inside(fs[j], id, p)
}
spec fn same_shape<T>(a: Store<T>, b: Store<T>) -> bool { a.sets@.dom() == b.sets@.dom() && forall|id: int| a.sets@.contains_key(id) ==> (#[trigger] a.sets@[id]).len() == b.sets@[id].len() }
/// the first n regions hold the data, in order
spec fn holds<T>(s: Store<T>, fs: Seq<FileWithRegion>, data: Seq<T>, n: int) -> bool {
    forall|i: int, p: int| 0 <= i < n && inside(fs[i], fs[i].file.id@, p) ==> #[trigger] s.sets@[fs[i].file.id@][p] == Some(data[offset(fs, i) + (p - fs[i].region.start)])
}
/// nothing else is touched
spec fn untouched<T>(a: Store<T>, b: Store<T>, fs: Seq<FileWithRegion>, n: int) -> bool {
    forall|id: int, p: int| a.sets@.contains_key(id) && 0 <= p < a.sets@[id].len() && (forall|i: int| 0 <= i < n ==> !inside(fs[i], id, p)) ==> #[trigger] b.sets@[id][p] == a.sets@[id][p]
}
//@ extract src/io/output/mod.rs :: fn write_dataset_to_files
//@ rewrite 1 `<T: ToDataset>` => `<T>`
//@ rewrite * `descriptor: &DatasetDescriptor,` => `vx_store: &mut Store<T>`
//@ rewrite * `for FileWithRegion { file, region } in files.iter() {` => `for vx_i in 0..files.len() { let file = &files[vx_i].file; let region = &files[vx_i].region;`
//@ rewrite * `for FileWithRegion { file, region } in files {` => `for vx_i in 0..files.len() { let file = &files[vx_i].file; let region = &files[vx_i].region;`
//@ rewrite 1 `file.dataset(&descriptor.dataset_name()).expect("Failed to open dataset")` => `vx_open(vx_store, file)`
//@ rewrite 1 `dataset.write_slice(&data[data_start..data_end], region.start..region.end).expect("Failed to write slice to dataset")` => `vx_write_slice(vx_store, &dataset, &data, data_start, data_end, region.start, region.end)`
//@ rewrite 1 `assert_eq!(data_start, data.len())` => `vx_require(data_start == data.len())`
//@ spec
    requires valid(files@, *old(vx_store)), offset(files@, files@.len() as int) == data@.len(),
    ensures
        same_shape(*old(vx_store), *final(vx_store)),
        holds(*final(vx_store), files@, data@, files@.len() as int),
        untouched(*old(vx_store), *final(vx_store), files@, files@.len() as int),
//@ loop 0 spec
    invariant
        valid(files@, *old(vx_store)), valid(files@, *vx_store), same_shape(*old(vx_store), *vx_store), offset(files@, files@.len() as int) == data@.len(),
        data_start == offset(files@, vx_i as int),
        holds(*vx_store, files@, data@, vx_i as int), untouched(*old(vx_store), *vx_store, files@, vx_i as int),
//@ loop 0 start
    let ghost before = *vx_store;
    let vx_n = data.len();
    proof { let _ = files@[vx_i as int]; offset_monotone(files@, vx_i as int, files@.len() as int); offset_monotone(files@, vx_i + 1, files@.len() as int); }
//@ loop 0 end
    proof {
        let fs = files@;
        let fi = fs[vx_i as int];
        let a = offset(fs, vx_i as int);
        let v = data@.subrange(a, a + (fi.region.end - fi.region.start));
        assert(vx_store.sets@ == before.sets@.insert(fi.file.id@, put(before.sets@[fi.file.id@], fi.region.start as int, v)));
        assert(vx_store.sets@.dom() =~= before.sets@.dom());
        assert forall|i: int, p: int| 0 <= i < vx_i + 1 && inside(fs[i], fs[i].file.id@, p) implies #[trigger] vx_store.sets@[fs[i].file.id@][p] == Some(data@[offset(fs, i) + (p - fs[i].region.start)]) by {
            let _ = fs[i];
            if i < vx_i {
                assert(!inside(fi, fs[i].file.id@, p));
                assert(vx_store.sets@[fs[i].file.id@][p] == before.sets@[fs[i].file.id@][p]);
            }
        }
        assert forall|id: int, p: int| old(vx_store).sets@.contains_key(id) && 0 <= p < old(vx_store).sets@[id].len() && (forall|i: int| 0 <= i < vx_i + 1 ==> !inside(fs[i], id, p)) implies #[trigger] vx_store.sets@[id][p] == old(vx_store).sets@[id][p] by {
            assert(!inside(fi, id, p));
            assert(forall|i: int| 0 <= i < vx_i ==> !inside(fs[i], id, p));
            assert(before.sets@[id][p] == old(vx_store).sets@[id][p]);
            assert(vx_store.sets@[id][p] == before.sets@[id][p]);
        }
    }
//@ end
//@ extract src/io/output/mod.rs :: fn create_dataset_in_files
//@ rewrite 1 `<T: ToDataset>` => `<T>`
//@ rewrite * `descriptor: &DatasetDescriptor,` => `vx_store: &mut Store<T>`
//@ rewrite * `for FileWithRegion { file, region } in files.iter() {` => `for vx_i in 0..files.len() { let file = &files[vx_i].file; let region = &files[vx_i].region;`
//@ rewrite * `for FileWithRegion { file, region } in files {` => `for vx_i in 0..files.len() { let file = &files[vx_i].file; let region = &files[vx_i].region;`
//@ rewrite 1 `assert!(region.start == 0)` => `vx_require(region.start == 0)`
//@ rewrite 1 `let dataset = file.new_dataset::<T>().shape(&[region.end - region.start]).create(descriptor.dataset_name()).expect("Failed to create dataset");` => `let mut dataset = vx_create(vx_store, file, region.end - region.start);`
//@ rewrite * `add_dimension_attrs::<T>(&dataset)` => `{ add_dimension_attrs::<T>(&mut dataset); vx_keep(vx_store, file, &dataset); }`
//@ spec
    requires
        forall|i: int| 0 <= i < files@.len() ==> (#[trigger] files@[i]).region.start == 0 && !old(vx_store).sets@.contains_key(files@[i].file.id@),
        forall|i: int, j: int| 0 <= i < j < files@.len() ==> (#[trigger] files@[i]).file.id@ != (#[trigger] files@[j]).file.id@,
    ensures
        // every file gets a dataset with room for its entries, and the dimension of the field
        forall|i: int| 0 <= i < files@.len() ==> dimension_known(*final(vx_store), (#[trigger] files@[i]).file),
        forall|i: int| 0 <= i < files@.len() ==> final(vx_store).sets@.contains_key((#[trigger] files@[i]).file.id@) && final(vx_store).sets@[files@[i].file.id@].len() == files@[i].region.end,
//@ loop 0 spec
    invariant
        forall|i: int| 0 <= i < files@.len() ==> (#[trigger] files@[i]).region.start == 0,
        forall|i: int| vx_i <= i < files@.len() ==> !vx_store.sets@.contains_key((#[trigger] files@[i]).file.id@),
        forall|i: int, j: int| 0 <= i < j < files@.len() ==> (#[trigger] files@[i]).file.id@ != (#[trigger] files@[j]).file.id@,
        forall|i: int| 0 <= i < vx_i ==> dimension_known(*vx_store, (#[trigger] files@[i]).file),
        forall|i: int| 0 <= i < vx_i ==> vx_store.sets@.contains_key((#[trigger] files@[i]).file.id@) && vx_store.sets@[files@[i].file.id@].len() == files@[i].region.end,
//@ loop 0 start
    let _ = &files[vx_i];
    let ghost before = *vx_store;
//@ loop 0 end
    proof {
        assert forall|i: int| 0 <= i < vx_i + 1 implies dimension_known(*vx_store, (#[trigger] files@[i]).file) by {
            if i < vx_i { assert(files@[i].file.id@ != files@[vx_i as int].file.id@); assert(dimension_known(before, files@[i].file)); }
        }
    }
//@ end
// ------------------------------------------------------------------ the theorem
/// what a rank reads from its regions (C01: regions in order; C16: every entry of a region once, in order)
spec fn reads_back<T>(s: Store<T>, fs: Seq<FileWithRegion>, i: int) -> Seq<Option<T>> decreases i {
    if i <= 0 { Seq::empty() } else { reads_back(s, fs, i - 1) + s.sets@[fs[i - 1].file.id@].subrange(fs[i - 1].region.start as int, fs[i - 1].region.end as int) }
}
/// Reading the regions that were written yields the data, in order.
proof fn theorem_reads_back<T>(s: Store<T>, fs: Seq<FileWithRegion>, data: Seq<T>, n: int)
    requires valid(fs, s), holds(s, fs, data, fs.len() as int), 0 <= n <= fs.len(), offset(fs, fs.len() as int) == data.len(),
    ensures reads_back(s, fs, n).len() == offset(fs, n), forall|k: int| 0 <= k < offset(fs, n) ==> reads_back(s, fs, n)[k] == Some(data[k]),
    decreases n,
{
    if n > 0 {
        theorem_reads_back(s, fs, data, n - 1);
        let f = fs[n - 1];
        offset_monotone(fs, 0, n - 1);
        assert forall|k: int| 0 <= k < offset(fs, n) implies reads_back(s, fs, n)[k] == Some(data[k]) by {
            if k >= offset(fs, n - 1) {
                let p = f.region.start + (k - offset(fs, n - 1));
                assert(inside(fs[n - 1], fs[n - 1].file.id@, p));
                assert(s.sets@[fs[n - 1].file.id@][p] == Some(data[offset(fs, n - 1) + (p - f.region.start)]));
            }
        }
    }
}
}
fn main() {}

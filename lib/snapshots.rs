// Executable contracts of the output: when snapshots are due, and that they read back as written.
// Stand-ins: HDF5 (files in memory; a file is open for writing by one rank at a time), MPI (ranks are threads),
// bevy's schedule (the systems are called in the order in which the plugin registers them, under their criteria).
pub mod vx {
    use super::*;
    use crate::components::*;
    use crate::io::input::attribute::read_attribute;
    use crate::io::input::{get_file_or_all_hdf5_files_in_path_if_dir, Reader};
    use crate::io::InputDatasetDescriptor;
    use crate::named::Named;
    use crate::prelude::*;
    use crate::simulation_plugin::*;
    use crate::units::{Dimensionless, Time, VecLength};
    use bevy_ecs::prelude::{EventReader, EventWriter};
    use bevy_ecs::schedule::ShouldRun;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::{Arc, Mutex};
    use vxcore::*;

    fn params(dir: PathBuf, first: Option<f64>, every: f64, nfiles: usize, padding: usize) -> OutputParameters {
        OutputParameters {
            time_between_snapshots: Time::seconds(every),
            time_first_snapshot: first.map(Time::seconds),
            output_dir: dir,
            snapshots_dir: "snaps".into(),
            time_series_dir: "series".into(),
            fields: parameters::Fields::All,
            snapshot_padding: padding,
            used_parameters_filename: "p".into(),
            handle_existing_output: parameters::HandleExistingOutput::Panic,
            performance_data_filename: "q".into(),
            num_output_files: nfiles,
        }
    }
    fn stop(n: bool) -> EventReader<StopSimulationEvent> { EventReader(if n { vec![StopSimulationEvent] } else { vec![] }) }
    fn timer(p: &OutputParameters) -> Timer {
        let c = Commands::default();
        Timer::initialize_system(c.clone(), Res(p));
        c.vx_take::<Timer>().expect("a timer was inserted")
    }
    fn yes(r: ShouldRun) -> bool { r == ShouldRun::Yes }
    fn ended(final_time: Option<f64>, now: Time) -> bool {
        let sent = EventWriter::default();
        stop_simulation_system(Res(&SimulationParameters { final_time: final_time.map(Time::seconds) }), Res(&SimulationTime(now)), sent.clone());
        sent.vx_len() > 0
    }

    fn exits(over: bool) -> bool {
        let sent = EventWriter::default();
        exit_system(sent.clone(), stop(over));
        sent.vx_len() > 0
    }

    // ------------------------------------------------------------------ C21
    fn history(g: &mut Rng) {
        let first = match g.below(4) { 0 => None, 1 => Some(0.0), _ => Some(g.below(12) as f64) };
        let every = g.below(6) as f64;
        let end = if g.bool() { None } else { Some(g.below(40) as f64) };
        let padding = g.below(5) as usize;
        let steps = if g.below(8) == 0 { 130 } else { 1 + g.below(40) };
        let mut times = vec![];
        let mut t = if g.below(3) == 0 { g.below(9) as f64 } else { 0.0 };
        let big = g.below(3);
        for _ in 0..steps { times.push(t); t += match big { 0 => g.below(2) as f64, 1 => g.below(3) as f64, _ => g.below(15) as f64 }; }
        let inp = || format!("first at {first:?} s, every {every} s, run ends at {end:?} s, numbers of {padding} digits, steps at {times:?} s");
        case(times.len() > 3, inp);
        let p = params("/vx/out".into(), first, every, 1, padding);
        guarded("the timer runs", inp, || {
            let mut tm = timer(&p);
            let mut n = 0usize; // outputs so far
            let mut dirs = std::collections::HashSet::new();
            for &now in &times {
                let time = SimulationTime(Time::seconds(now));
                let over = ended(end, *time);
                check("the run ends exactly when its final time is reached", over == end.map_or(false, |e| now >= e), inp, || format!("at {now} s: {over}"));
                let due = over || now >= first.unwrap_or(0.0) + n as f64 * every;
                let at = || format!("at {now} s after {n} outputs");
                check("an output is written exactly when it is due", yes(Timer::run_criterion(Res(&time), Res(&tm), stop(over))) == due, inp, at);
                check("a field that changes is in every output", yes(Timer::dataset_write_run_criterion::<Temperature>(Res(&time), Res(&tm), stop(over))) == due, inp, at);
                check("a field that never changes is in the first output only", yes(Timer::dataset_write_run_criterion::<Density>(Res(&time), Res(&tm), stop(over))) == (due && n == 0), inp, at);
                check("the number of the snapshot is the number of outputs before it", tm.snapshot_num() == n && tm.is_first_snapshot() == (n == 0), inp, || format!("{} at {now} s after {n} outputs", tm.snapshot_num()));
                let dir = get_snapshot_dir(&p, &tm);
                check("the snapshot is named by its number", dir == PathBuf::from(format!("/vx/out/snaps/{n:0padding$}")), inp, || format!("{dir:?} {}", at()));
                if due {
                    check("no two snapshots share a name", dirs.insert(dir.clone()), inp, || format!("{dir:?} {}", at()));
                    Timer::update_system(ResMut(&mut tm), Res(&p));
                    n += 1;
                }
                check("the run ends with the step in which its final time is reached", exits(over) == over, inp, || format!("at {now} s"));
                if over { break; }
            }
        });
    }

    // ------------------------------------------------------------------ C32
    /// a comoving field, as no built-in component has one
    #[derive(Clone, Debug)]
    struct Comoving(crate::units::ComovingLengthTimesH);
    crate::impl_to_dataset!(Comoving, crate::units::ComovingLengthTimesH, false);
    impl Named for Comoving { fn name() -> &'static str { "comoving" } }
    #[derive(Clone, Debug)]
    struct Physical(crate::units::Length);
    crate::impl_to_dataset!(Physical, crate::units::Length, false);
    impl Named for Physical { fn name() -> &'static str { "comoving" } }

    #[derive(Clone)]
    struct Local { pos: Vec<Position>, density: Vec<Density>, temp: Vec<Temperature>, ion: Vec<IonizationTime>, frac: Vec<IonizedHydrogenFraction>, com: Vec<Comoving> }
    fn local(g: &mut Rng, n: usize) -> Local {
        let mut f = || match g.below(6) { 0 => g.below(100) as f64, 1 => -0.0, _ => g.float(-1.0, 1.0) * (10f64).powi(g.range(-30, 30) as i32) };
        Local {
            pos: (0..n).map(|_| Position(VecLength::new_unchecked(MVec::new(f(), f(), f())))).collect(),
            density: (0..n).map(|_| Density(crate::units::Density::new_unchecked(f()))).collect(),
            temp: (0..n).map(|_| Temperature(crate::units::Temperature::new_unchecked(f()))).collect(),
            ion: (0..n).map(|i| if i % 2 == 0 { IonizationTime::default() } else { IonizationTime(Time::new_unchecked(f())) }).collect(),
            frac: (0..n).map(|_| IonizedHydrogenFraction(Dimensionless::dimensionless(f()))).collect(),
            com: (0..n).map(|_| Comoving(crate::units::ComovingLengthTimesH::new_unchecked(f()))).collect(),
        }
    }
    fn desc<T: Named>() -> OutputDatasetDescriptor<T> { OutputDatasetDescriptor::new(DatasetDescriptor::default_for::<T>()) }
    fn create<T: Component + ToDataset + Named>(f: &mut OutputFiles, on: bool) { if on { create_dataset_system::<T>(ResMut(f), NonSend(&desc::<T>())) } }
    fn write<T: Component + ToDataset + Named>(f: &mut OutputFiles, on: bool, data: &[T]) { if on { write_dataset_system::<T>(Particles(data.iter().collect()), ResMut(f), NonSend(&desc::<T>())) } }

    static NEXT: AtomicUsize = AtomicUsize::new(0);
    fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
    /// the values of a field read from the files, by `readers` ranks (0: all by one)
    fn read<T: ToDataset + Named>(files: &[PathBuf], readers: usize, chunk: usize, to: fn(&T) -> Vec<f64>) -> Result<Vec<f64>, String> {
        let fs = Arc::new(files.to_vec());
        let (_, res) = mpi::simulate(readers.max(1), move |_| {
            let r = if readers == 0 { Reader::full(fs.iter()) } else { Reader::split_between_ranks(fs.iter()) };
            let d = InputDatasetDescriptor::<T>::default();
            let v: Vec<T> = if chunk == 0 { r.read_dataset(d).collect() } else { r.read_dataset_chunked(d, chunk).collect() };
            v.iter().flat_map(to).collect::<Vec<f64>>()
        });
        let mut all = vec![];
        for r in res { all.extend(r?) }
        Ok(all)
    }

    fn snapshots(g: &mut Rng, ranks: usize) {
        let nfiles = match g.below(6) { 0 => 11, _ => 1 + g.below(4) as usize };
        let style = g.below(3);
        let counts: Vec<usize> = (0..ranks).map(|_| match style { 0 => g.below(2) as usize, 1 => g.below(9) as usize, _ => 3 }).collect();
        let total: usize = counts.iter().sum();
        let nsnaps = 1 + g.below(3) as usize;
        let inp = || format!("{ranks} ranks with {counts:?} particles, {nfiles} files, {nsnaps} snapshots");
        case(total > nfiles && ranks > 1, inp);
        if total == 0 { return; }
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("vx-snap-{}-{id}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let p = Arc::new(params(dir.clone(), None, 1.0, nfiles, 3));
        let data: Arc<Vec<Vec<Local>>> = Arc::new((0..nsnaps).map(|_| counts.iter().map(|n| local(g, *n)).collect()).collect());
        let (d2, p2) = (data.clone(), p.clone());
        let (_, res) = mpi::simulate(ranks, move |rank| {
            let (p, me) = (&*p2, WorldRank(rank));
            let size = WorldSize(d2[0].len());
            let nptot = NumParticlesTotal(d2[0].iter().map(|l| l.pos.len()).sum());
            let c = Commands::default();
            compute_output_rank_assignment_system(c.clone(), Res(&me), Res(p), Particles((0..d2[0][rank as usize].pos.len()).map(|i| Entity(i as u64)).collect()), Res(&nptot));
            let assignment = c.vx_take::<RankAssignment>().expect("an assignment was inserted");
            let mut tm = timer(p);
            let mut f = OutputFiles(None);
            for (k, snap) in d2.iter().enumerate() {
                let l = &snap[rank as usize];
                let time = SimulationTime(Time::seconds(k as f64));
                let on = yes(Timer::run_criterion(Res(&time), Res(&tm), stop(false)));
                let fixed = yes(Timer::dataset_write_run_criterion::<Position>(Res(&time), Res(&tm), stop(false)));
                assert!(on && fixed == (k == 0));
                if rank == 0 {
                    create_file_system(ResMut(&mut f), Res(p), Res(&tm), Res(&nptot), Res(&me));
                    create::<Position>(&mut f, fixed); create::<Density>(&mut f, fixed);
                    create::<Temperature>(&mut f, on); create::<IonizationTime>(&mut f, on); create::<IonizedHydrogenFraction>(&mut f, on); create::<Comoving>(&mut f, on);
                    attribute::vx_write(&time, &mut f);
                    close_file_system(ResMut(&mut f));
                }
                init_wait_for_other_ranks_system(Res(&size), Res(&me));
                open_file_system(ResMut(&mut f), Res(p), Res(&tm), Res(&assignment));
                write(&mut f, fixed, &l.pos); write(&mut f, fixed, &l.density);
                write(&mut f, on, &l.temp); write(&mut f, on, &l.ion); write(&mut f, on, &l.frac); write(&mut f, on, &l.com);
                close_file_system(ResMut(&mut f));
                finish_wait_for_other_ranks_system(Res(&size), Res(&me));
                Timer::update_system(ResMut(&mut tm), Res(p));
            }
        });
        let written = res.iter().all(|r| r.is_ok());
        check("every rank can write its part", written, inp, || format!("{res:?}"));
        for k in 0..nsnaps {
            let sdir = dir.join("snaps").join(format!("{k:03}"));
            let mut files = get_file_or_all_hdf5_files_in_path_if_dir(&sdir);
            files.sort();
            check("no snapshot has more files than asked for", files.len() <= nfiles && !files.is_empty(), inp, || format!("{files:?}"));
            for f in &files {
                let t = try_guarded(|| read_attribute::<SimulationTime>(f));
                check("the time of the snapshot is in every file", matches!(&t, Ok(t) if **t == Time::seconds(k as f64)), inp, || format!("{f:?} of snapshot {k}"));
            }
            let readers = g.below(4) as usize;
            let chunk = g.below(4) as usize;
            macro_rules! back { ($t: ty, $field: ident, $to: expr) => {
                let to: fn(&$t) -> Vec<f64> = $to;
                let want: Vec<f64> = data[k].iter().flat_map(|l| l.$field.iter().flat_map(to)).collect();
                let got = read::<$t>(&files, readers, chunk, to);
                let what = || format!("{}, {} of snapshot {k} read by {readers} ranks in chunks of {chunk}", inp(), <$t>::name());
                match got {
                    Ok(v) => check("a field reads back as it was written", bits(&v) == bits(&want), what, || format!("wrote {want:?}, read {v:?}")),
                    Err(e) => violated("a field that was written can be read", &what(), &e),
                }
            } }
            if k == 0 { back!(Position, pos, |x| { let v = x.0.value_unchecked(); vec![v.x, v.y, v.z] }); back!(Density, density, |x| vec![x.0.value_unchecked()]); }
            back!(Temperature, temp, |x| vec![x.0.value_unchecked()]);
            back!(IonizationTime, ion, |x| vec![x.0.value_unchecked()]);
            back!(IonizedHydrogenFraction, frac, |x| vec![x.0.value_unchecked()]);
            back!(Comoving, com, |x| vec![x.0.value_unchecked()]);
            // what is comoving is never taken for physical
            let other = read::<Physical>(&files, readers, chunk, |x| vec![x.0.value_unchecked()]);
            check("a field of another dimension is refused", other.is_err(), || format!("{}, comoving lengths of snapshot {k} read as physical lengths", inp()), || format!("{other:?}"));
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }

    fn attributes() {
        // every exponent of the dimension and the factor are in the file, each under its own name
        let f = File::create("/vx/attrs").unwrap();
        let d = f.new_dataset::<f64>().shape([1]).create("x").unwrap();
        #[derive(Clone)]
        struct Odd(f64);
        impl ToDataset for Odd { fn dimension() -> Dimension { Dimension { length: 2, time: -3, mass: 5, temperature: -7, h: 11, a: -13 } } fn convert_base_units(self, _: f64) -> Self { self } }
        add_dimension_attrs::<Odd>(&d);
        let inp = || "a field with exponents length 2, time -3, mass 5, temperature -7, h 11, a -13".to_string();
        case(true, inp);
        let r = crate::io::DefaultUnitReader;
        let got = try_guarded(|| crate::io::UnitReader::read_dimension(&r, &d));
        check("the dimension reads back as written", matches!(&got, Ok(x) if *x == Odd::dimension()), inp, || format!("{:?}", got));
        let s = try_guarded(|| crate::io::UnitReader::read_scale_factor(&r, &d));
        check("the factor to SI reads back as written", matches!(&s, Ok(x) if *x == Odd::dimension().base_conversion_factor()), inp, || format!("{:?}", s));
    }

    fn fields(g: &mut Rng) {
        let all = ["position", "density", "mass", "temperature", "photon_rate"];
        let some: Vec<String> = all.iter().filter(|_| g.bool()).map(|s| s.to_string()).collect();
        let mut p = params("/vx".into(), None, 1.0, 1, 3);
        let inp = || format!("fields {some:?}");
        case(some.len() > 1, inp);
        check("all fields are written unless some are named", p.is_desired_field::<Position>() && p.is_desired_field::<HeatingRate>(), inp, String::new);
        p.fields = parameters::Fields::Some(some.clone());
        macro_rules! want { ($($t: ty),*) => { $( check("exactly the fields named are written", p.is_desired_field::<$t>() == some.iter().any(|s| s == <$t>::name()), inp, || <$t>::name().to_string()); )* } }
        want!(Position, Density, Mass, Temperature, PhotonRate, HeatingRate);
    }

    pub fn timers() {
        quiet();
        let mut g = Rng::new(seed());
        for _ in 0..if thorough() { 60000 } else { 4000 } { history(&mut g); }
        done();
    }
    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        attributes();
        for _ in 0..200 { fields(&mut g); }
        let m = if thorough() { 20 } else { 1 };
        for n in 1..=5 { for _ in 0..40 * m { snapshots(&mut g, n); hdf5::vx_clear(); } }
        done();
    }
}

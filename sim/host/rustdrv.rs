// C entry points to the Rust interface, for the simulator. Every call is made by safe code; a panic is reported by the
// flag. The lifetimes of the interface are kept by the plans: a suite is not used while a problem of it is open.
use coco_rs::{observer, suite, LogLevel, Observer, Problem, RandomState, Suite};
use std::cell::Cell;
use std::ffi::CStr;
use std::mem::transmute;
use std::os::raw::{c_char, c_int};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::null_mut;

type P = Problem<'static>;
thread_local!(static PANIC: Cell<c_int> = Cell::new(0));

fn guard<T>(other: T, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => {
            PANIC.with(|p| p.set(1));
            other
        }
    }
}
fn text(s: *const c_char, n: usize) -> String {
    // strings of the plan may contain null characters
    let b = unsafe { std::slice::from_raw_parts(s as *const u8, n) };
    String::from_utf8_lossy(b).into_owned()
}
fn put(s: &str, buf: *mut c_char, n: usize) -> usize {
    let k = s.len().min(n);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, k) };
    s.len()
}
fn boxed<T>(v: Option<T>) -> *mut T {
    v.map(|x| Box::into_raw(Box::new(x))).unwrap_or(null_mut())
}
fn copy(x: *const f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| unsafe { *x.add(i) }).collect()
}

#[no_mangle]
pub extern "C" fn rs_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
#[no_mangle]
pub extern "C" fn rs_panicked() -> c_int {
    PANIC.with(|p| p.replace(0))
}
#[no_mangle]
pub extern "C" fn rs_version(buf: *mut c_char, n: usize) -> usize {
    guard(0, || put(coco_rs::version(), buf, n))
}
#[no_mangle]
pub extern "C" fn rs_log_level(k: c_int) {
    guard((), || [LogLevel::Error, LogLevel::Warning, LogLevel::Info, LogLevel::Debug][k as usize].set())
}
#[no_mangle]
pub extern "C" fn rs_suite(k: c_int, i: *const c_char, ni: usize, o: *const c_char, no: usize) -> *mut Suite {
    use suite::Name::*;
    let n = [Bbob, BbobBiobj, BbobBiobjExt, BbobLargescale, BbobConstrained, BbobMixint, BbobBiobjMixint, SboxCost, Toy];
    guard(null_mut(), || boxed(Suite::new(n[k as usize], &text(i, ni), &text(o, no))))
}
#[no_mangle]
pub extern "C" fn rs_suite_clone(s: &Suite) -> *mut Suite {
    guard(null_mut(), || boxed(Some(s.clone())))
}
#[no_mangle]
pub extern "C" fn rs_suite_drop(s: *mut Suite) {
    guard((), || drop(unsafe { Box::from_raw(s) }))
}
#[no_mangle]
pub extern "C" fn rs_suite_count(s: &Suite) -> usize {
    guard(0, || s.number_of_problems())
}
#[no_mangle]
pub extern "C" fn rs_suite_from_index(s: &Suite, what: c_int, i: usize) -> usize {
    guard(0, || match what {
        0 => s.function_from_function_index(suite::FunctionIdx(i)),
        1 => s.dimension_from_dimension_index(suite::DimensionIdx(i)),
        _ => s.instance_from_instance_index(suite::InstanceIdx(i)),
    })
}
#[no_mangle]
pub extern "C" fn rs_next(s: &'static mut Suite, o: *mut Observer) -> *mut P {
    guard(null_mut(), || boxed(s.next_problem(unsafe { o.as_mut() })))
}
#[no_mangle]
pub extern "C" fn rs_problem(s: &'static mut Suite, i: usize) -> *mut P {
    guard(null_mut(), || boxed(s.problem(suite::ProblemIdx(i)).map(|p| unsafe { transmute::<Problem<'_>, P>(p) })))
}
#[no_mangle]
pub extern "C" fn rs_problem_fdi(s: &'static mut Suite, f: usize, d: usize, i: usize) -> *mut P {
    guard(null_mut(), || boxed(s.problem_by_function_dimension_instance(f, d, i).map(|p| unsafe { transmute::<Problem<'_>, P>(p) })))
}
#[no_mangle]
pub extern "C" fn rs_problem_drop(p: *mut P) {
    guard((), || drop(unsafe { Box::from_raw(p) }))
}
#[no_mangle]
pub extern "C" fn rs_problem_text(p: &P, what: c_int, buf: *mut c_char, n: usize) -> usize {
    guard(0, || put(match what { 0 => p.id(), 1 => p.name(), _ => p.typ() }, buf, n))
}
#[no_mangle]
pub extern "C" fn rs_problem_number(p: &P, what: c_int) -> u64 {
    guard(0, || match what {
        0 => p.dimension() as u64,
        1 => p.number_of_objectives() as u64,
        2 => p.number_of_constraints() as u64,
        3 => p.number_of_integer_variables() as u64,
        4 => p.suite_index().0 as u64,
        5 => p.evaluations(),
        6 => p.evaluations_constraints(),
        _ => p.final_target_hit() as u64,
    })
}
#[no_mangle]
pub extern "C" fn rs_problem_value(p: &P, what: c_int) -> f64 {
    guard(0.0, || match what {
        0 => p.final_target_value(),
        1 => p.best_value(),
        _ => p.best_observed_value(),
    })
}
#[no_mangle]
pub extern "C" fn rs_problem_ranges(p: &P, lo: *mut f64, hi: *mut f64, n: usize) -> usize {
    guard(0, || {
        let r = p.ranges_of_interest();
        for (i, v) in r.iter().enumerate().take(n) {
            unsafe {
                *lo.add(i) = *v.start();
                *hi.add(i) = *v.end();
            }
        }
        r.len()
    })
}
// x and y are vectors of exactly the given lengths, so that reading or writing beyond them is noticed
#[no_mangle]
pub extern "C" fn rs_eval(p: &mut P, what: c_int, x: *mut f64, nx: usize, y: *mut f64, ny: usize) -> c_int {
    let mut xs = copy(x, nx).into_boxed_slice();
    let mut ys = copy(y, ny).into_boxed_slice();
    guard((), || match what {
        0 => p.evaluate_function(&xs, &mut ys),
        1 => p.evaluate_constraint(&xs, &mut ys),
        _ => p.initial_solution(&mut xs),
    });
    for (i, v) in ys.iter().enumerate() {
        unsafe { *y.add(i) = *v };
    }
    let same = (0..nx).all(|i| unsafe { (*x.add(i)).to_bits() } == xs[i].to_bits());
    for (i, v) in xs.iter().enumerate() {
        unsafe { *x.add(i) = *v };
    }
    same as c_int
}
#[no_mangle]
pub extern "C" fn rs_add(p: &mut P, o: &Observer) {
    guard((), || p.add_observer(o))
}
#[no_mangle]
pub extern "C" fn rs_remove(p: &mut P, o: &Observer) {
    guard((), || p.remove_observer(o))
}
#[no_mangle]
pub extern "C" fn rs_observer(k: c_int, o: *const c_char, no: usize) -> *mut Observer {
    use observer::Name::*;
    guard(null_mut(), || boxed(Observer::new([Bbob, BbobBiobj, Toy, None][k as usize], &text(o, no))))
}
#[no_mangle]
pub extern "C" fn rs_observer_folder(o: &Observer, buf: *mut c_char, n: usize) -> usize {
    guard(0, || put(o.result_folder(), buf, n))
}
#[no_mangle]
pub extern "C" fn rs_restart(o: &Observer, p: &P) {
    guard((), || o.signal_restart(p))
}
#[no_mangle]
pub extern "C" fn rs_observer_drop(o: *mut Observer) {
    guard((), || drop(unsafe { Box::from_raw(o) }))
}
#[no_mangle]
pub extern "C" fn rs_random(seed: u32) -> *mut RandomState {
    guard(null_mut(), || boxed(Some(RandomState::new(seed))))
}
#[no_mangle]
pub extern "C" fn rs_draw(r: &mut RandomState, normal: c_int) -> f64 {
    guard(0.0, || if normal != 0 { r.normal() } else { r.uniform() })
}
#[no_mangle]
pub extern "C" fn rs_random_drop(r: *mut RandomState) {
    guard((), || drop(unsafe { Box::from_raw(r) }))
}
#[allow(dead_code)]
fn promises() {
    // what the interface promises to threads
    fn send<T: Send>() {}
    send::<Suite>();
    send::<Problem>();
    let _ = CStr::from_bytes_with_nul(b"\0");
}

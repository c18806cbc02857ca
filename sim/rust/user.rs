// A user of the Rust API (lib.rs), driven by the simulator's adapter.
use std::slice::from_raw_parts as raw;
use trajoptlib::{
    cancel_all, HolonomicTrajectory, Pose2d, SwerveDrivetrain, SwerveModule, SwervePathBuilder,
};

extern "C" {
    fn rsuser_sample(out: *mut u8, v: *const f64, fx: *const f64, nx: usize, fy: *const f64, ny: usize);
    fn rsuser_error(out: *mut u8, p: *const u8, n: usize);
    fn rsuser_samples_new() -> *mut u8;
    fn rsuser_callback(slot: usize, out: *mut u8, handle: i64);
    fn rsuser_sample_cb(out: *mut u8, v: *const f64, fx: *const f64, nx: usize, fy: *const f64, ny: usize);
}
type Sink = unsafe extern "C" fn(*mut u8, *const f64, *const f64, usize, *const f64, usize);

fn show(t: &HolonomicTrajectory, out: *mut u8, sink: Sink) {
    for s in &t.samples {
        let v = [
            s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity,
        ];
        let (fx, fy) = (&s.module_forces_x, &s.module_forces_y);
        unsafe { sink(out, v.as_ptr(), fx.as_ptr(), fx.len(), fy.as_ptr(), fy.len()) }
    }
}
fn cb<const N: usize>(t: HolonomicTrajectory, handle: i64) {
    unsafe {
        let out = rsuser_samples_new();
        show(&t, out, rsuser_sample_cb);
        rsuser_callback(N, out, handle);
    }
}
macro_rules! slots {
    ($($h:literal)*) => { [$(
        cb::<{$h * 8}>, cb::<{$h * 8 + 1}>, cb::<{$h * 8 + 2}>, cb::<{$h * 8 + 3}>,
        cb::<{$h * 8 + 4}>, cb::<{$h * 8 + 5}>, cb::<{$h * 8 + 6}>, cb::<{$h * 8 + 7}>
    ),*] };
}
const SLOTS: [fn(HolonomicTrajectory, i64); 128] = slots!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);

unsafe fn floats(p: *const f64, n: usize) -> Vec<f64> {
    if n == 0 { Vec::new() } else { raw(p, n).to_vec() }
}
type P = *mut SwervePathBuilder;

#[no_mangle]
pub unsafe extern "C" fn rsuser_new(dflt: bool) -> P {
    Box::into_raw(Box::new(if dflt { Default::default() } else { SwervePathBuilder::new() }))
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_delete(b: P) {
    drop(Box::from_raw(b));
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_drivetrain(b: P, mass: f64, moi: f64, p: *const f64, n: usize) {
    let modules = floats(p, n * 5)
        .chunks(5)
        .map(|m| SwerveModule {
            x: m[0],
            y: m[1],
            wheel_radius: m[2],
            wheel_max_angular_velocity: m[3],
            wheel_max_torque: m[4],
        })
        .collect();
    (*b).set_drivetrain(&SwerveDrivetrain { mass, moi, modules });
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_bumpers(b: P, length: f64, width: f64) {
    (*b).set_bumpers(length, width);
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_counts(b: P, p: *const usize, n: usize) {
    (*b).set_control_interval_counts(if n == 0 { Vec::new() } else { raw(p, n).to_vec() });
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_wpt(b: P, kind: i32, i: usize, x: f64, y: f64, h: f64) {
    match kind {
        0 => (*b).pose_wpt(i, x, y, h),
        1 => (*b).translation_wpt(i, x, y, h),
        _ => (*b).empty_wpt(i, x, y, h),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_guess(b: P, from: usize, p: *const f64, n: usize) {
    let v: Vec<Pose2d> = floats(p, n * 3)
        .chunks(3)
        .map(|q| Pose2d { x: q[0], y: q[1], heading: q[2] })
        .collect();
    (*b).sgmt_initial_guess_points(from, &v);
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_wpt_con(b: P, kind: i32, i: usize, d: *const f64) {
    let d = |k: usize| *d.add(k);
    match kind {
        0 => (*b).wpt_linear_velocity_direction(i, d(0)),
        1 => (*b).wpt_linear_velocity_max_magnitude(i, d(0)),
        2 => (*b).wpt_angular_velocity_max_magnitude(i, d(0)),
        3 => (*b).wpt_linear_acceleration_max_magnitude(i, d(0)),
        _ => (*b).wpt_point_at(i, d(0), d(1), d(2)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_sgmt_con(b: P, kind: i32, i: usize, j: usize, d: *const f64) {
    let d = |k: usize| *d.add(k);
    match kind {
        0 => (*b).sgmt_linear_velocity_direction(i, j, d(0)),
        1 => (*b).sgmt_linear_velocity_max_magnitude(i, j, d(0)),
        2 => (*b).sgmt_angular_velocity_max_magnitude(i, j, d(0)),
        3 => (*b).sgmt_linear_acceleration_max_magnitude(i, j, d(0)),
        _ => (*b).sgmt_point_at(i, j, d(0), d(1), d(2)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_circle(b: P, i: usize, j: usize, x: f64, y: f64, r: f64) {
    (*b).sgmt_circle_obstacle(i, j, x, y, r);
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_polygon(
    b: P, i: usize, j: usize, x: *const f64, nx: usize, y: *const f64, ny: usize, r: f64,
) {
    (*b).sgmt_polygon_obstacle(i, j, floats(x, nx), floats(y, ny), r);
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_callback_add(b: P, slot: usize) {
    (*b).add_progress_callback(SLOTS[slot]);
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_generate(b: P, diag: bool, handle: i64, out: *mut u8) -> i32 {
    match (*b).generate(diag, handle) {
        Ok(t) => {
            show(&t, out, rsuser_sample);
            0
        }
        Err(e) => {
            rsuser_error(out, e.as_ptr(), e.len());
            1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rsuser_cancel() {
    cancel_all();
}

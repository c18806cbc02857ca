// Mock of the C++ half: records every call.
use std::cell::RefCell;
use std::pin::Pin;

#[derive(Debug, Clone)]
pub struct SwerveModule {
    pub x: f64,
    pub y: f64,
    pub wheel_radius: f64,
    pub wheel_max_angular_velocity: f64,
    pub wheel_max_torque: f64,
}
#[derive(Debug, Clone)]
pub struct SwerveDrivetrain {
    pub mass: f64,
    pub moi: f64,
    pub modules: Vec<SwerveModule>,
}
#[derive(Debug, Clone)]
pub struct Pose2d {
    pub x: f64,
    pub y: f64,
    pub heading: f64,
}
#[derive(Debug, Clone)]
pub struct HolonomicTrajectorySample {
    pub timestamp: f64,
    pub x: f64,
    pub y: f64,
    pub heading: f64,
    pub velocity_x: f64,
    pub velocity_y: f64,
    pub angular_velocity: f64,
    pub module_forces_x: Vec<f64>,
    pub module_forces_y: Vec<f64>,
}
#[derive(Debug, Clone)]
pub struct HolonomicTrajectory {
    pub samples: Vec<HolonomicTrajectorySample>,
}
pub type Callback = fn(HolonomicTrajectory, i64);
thread_local! {
    pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
    pub static FAIL: RefCell<Option<String>> = RefCell::new(None);
}
fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}
#[derive(Default)]
pub struct SwervePathBuilder {
    pub callbacks: Vec<Callback>,
}
macro_rules! recorded {
    ($($name:ident($($arg:ident: $ty:ty),*);)*) => {
        $(pub fn $name(self: Pin<&mut Self>, $($arg: $ty),*) {
            let _ = &self;
            let mut parts: Vec<String> = Vec::new();
            $(parts.push(format!("{:?}", $arg));)*
            log(format!("{} {}", stringify!($name), parts.join(" ")));
        })*
    };
}
impl SwervePathBuilder {
    recorded! {
        set_drivetrain(drivetrain: &SwerveDrivetrain);
        set_bumpers(length: f64, width: f64);
        set_control_interval_counts(counts: Vec<usize>);
        pose_wpt(index: usize, x: f64, y: f64, heading: f64);
        translation_wpt(index: usize, x: f64, y: f64, heading_guess: f64);
        empty_wpt(index: usize, x_guess: f64, y_guess: f64, heading_guess: f64);
        sgmt_initial_guess_points(from_index: usize, guess_points: &Vec<Pose2d>);
        wpt_linear_velocity_direction(index: usize, angle: f64);
        wpt_linear_velocity_max_magnitude(index: usize, magnitude: f64);
        wpt_angular_velocity_max_magnitude(index: usize, angular_velocity: f64);
        wpt_linear_acceleration_max_magnitude(index: usize, magnitude: f64);
        wpt_point_at(index: usize, field_point_x: f64, field_point_y: f64, heading_tolerance: f64);
        sgmt_linear_velocity_direction(from_index: usize, to_index: usize, angle: f64);
        sgmt_linear_velocity_max_magnitude(from_index: usize, to_index: usize, magnitude: f64);
        sgmt_angular_velocity_max_magnitude(from_index: usize, to_index: usize, angular_velocity: f64);
        sgmt_linear_acceleration_max_magnitude(from_index: usize, to_index: usize, magnitude: f64);
        sgmt_point_at(from_index: usize, to_index: usize, field_point_x: f64, field_point_y: f64, heading_tolerance: f64);
        sgmt_circle_obstacle(from_index: usize, to_index: usize, x: f64, y: f64, radius: f64);
        sgmt_polygon_obstacle(from_index: usize, to_index: usize, x: Vec<f64>, y: Vec<f64>, radius: f64);
    }
    pub fn add_progress_callback(self: Pin<&mut Self>, callback: Callback) {
        self.get_mut().callbacks.push(callback);
    }
    pub fn generate(&self, diagnostics: bool, uuid: i64) -> Result<HolonomicTrajectory, cxx::Exception> {
        log(format!("generate {:?} {:?}", diagnostics, uuid));
        let sample = |t: f64| HolonomicTrajectorySample {
            timestamp: t, x: 1.0 + t, y: 2.0, heading: 3.0, velocity_x: 4.0, velocity_y: 5.0,
            angular_velocity: 6.0, module_forces_x: vec![7.0, 8.0], module_forces_y: vec![9.0, 10.0],
        };
        let traj = HolonomicTrajectory { samples: vec![sample(0.0), sample(0.5)] };
        for c in &self.callbacks {
            c(traj.clone(), uuid);
        }
        match FAIL.with(|f| f.borrow().clone()) {
            Some(m) => Err(cxx::Exception(m)),
            None => Ok(traj),
        }
    }
}
pub fn swerve_path_builder_new() -> cxx::UniquePtr<SwervePathBuilder> {
    log("new".to_string());
    cxx::UniquePtr::new(SwervePathBuilder::default())
}
pub fn cancel_all() {
    log("cancel_all".to_string());
}

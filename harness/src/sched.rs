//! Runs code compiled over the scheduled `std` under a generated thread schedule.
use crate::fw;
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use shuttle::{Config, FailurePersistence, MaxSteps, Runner};
use std::sync::Once;

/// Choice `c` at a scheduling point: 0 keeps the running thread, others pick the c-th runnable one. After the
/// last choice a thread runs until it blocks or yields.
struct Chosen {
    choices: Vec<u8>,
    i: usize,
    ran: bool,
    turn: usize,
}
impl Scheduler for Chosen {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.ran {
            return None;
        }
        self.ran = true;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        let c = if runnable.len() > 1 {
            let c = self.choices.get(self.i).copied().unwrap_or(0);
            self.i += 1;
            c
        } else {
            0
        };
        if c > 0 {
            return Some(runnable[(c as usize - 1) % runnable.len()].id());
        }
        if !yielding {
            if let Some(t) = runnable.iter().find(|t| Some(t.id()) == current) {
                return Some(t.id());
            }
        }
        self.turn += 1;
        let others: Vec<_> = runnable.iter().filter(|t| !yielding || Some(t.id()) != current).collect();
        if others.is_empty() {
            return Some(runnable[0].id());
        }
        Some(others[self.turn % others.len()].id())
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
}

fn run(choices: Vec<u8>, f: impl Fn() + Send + Sync + 'static) {
    let mut cfg = Config::new();
    cfg.stack_size = 128 << 10;
    cfg.failure_persistence = FailurePersistence::None;
    cfg.max_steps = MaxSteps::FailAfter(100_000);
    cfg.silence_warnings = true;
    Runner::new(Chosen { choices, i: 0, ran: false, turn: 0 }, cfg).run(f);
}

/// A deadlock, a panic in any thread or too many steps is an error.
pub fn explore(choices: &[u8], f: impl Fn() + Send + Sync + 'static) -> Result<(), String> {
    static INIT: Once = Once::new();
    INIT.call_once(|| {
        // shuttle installs its own panic hook at the first run
        run(vec![], || {});
        fw::install_hook();
    });
    fw::catch(|| run(choices.to_vec(), f))
}

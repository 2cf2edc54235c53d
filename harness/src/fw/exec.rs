//! A deterministic single-threaded executor: polls only when woken (through the waker of the latest poll), and counts polls.
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default)]
pub struct Count(pub AtomicUsize);
impl Count {
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn run<F: Future>(fut: F, max_polls: u64) -> Result<F::Output, String> {
    run_with(fut, max_polls, || false)
}

/// `idle` is called when the future is suspended and nobody woke it; it returns false when nothing is left
/// that could make progress.
pub fn run_with<F: Future>(
    fut: F,
    max_polls: u64,
    mut idle: impl FnMut() -> bool,
) -> Result<F::Output, String> {
    let mut fut = pin!(fut);
    // two wakers by turns: a wake has to reach the one of the latest poll
    let counts = [Arc::new(Count::default()), Arc::new(Count::default())];
    let wakers = [0, 1].map(|i| Waker::from(counts[i].clone()));
    let mut polls = 0;
    loop {
        polls += 1;
        if polls > max_polls {
            return Err(format!("not finished after {max_polls} polls"));
        }
        let turn = polls as usize % 2;
        let seen = counts[turn].get();
        if let Poll::Ready(v) = fut.as_mut().poll(&mut Context::from_waker(&wakers[turn])) {
            return Ok(v);
        }
        while counts[turn].get() == seen {
            if !idle() {
                return Err("suspended, but nothing will wake it".into());
            }
        }
    }
}

//! Stand-in for the parts of tokio that block or run threads. Channels are those
//! of tokio itself; a blocking task runs on a thread of its own, but only while
//! the simulator lets it: exactly one thread runs at any time, and tasks give
//! control back whenever they would wait and at every `sim::pause`.

pub mod sync {
    pub use real::sync::{oneshot, Mutex, Notify, RwLock, Semaphore};
    pub mod mpsc {
        pub use real::sync::mpsc::{error, unbounded_channel, Sender, UnboundedReceiver, UnboundedSender};
        pub struct Receiver<T>(real::sync::mpsc::Receiver<T>);
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (tx, rx) = real::sync::mpsc::channel(n);
            (tx, Receiver(rx))
        }
        impl<T> Receiver<T> {
            pub fn blocking_recv(&mut self) -> Option<T> {
                crate::sim::pause();
                loop {
                    match self.0.try_recv() {
                        Ok(v) => return Some(v),
                        Err(error::TryRecvError::Disconnected) => return None,
                        Err(error::TryRecvError::Empty) => crate::sim::wait(),
                    }
                }
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                self.0.try_recv()
            }
            pub async fn recv(&mut self) -> Option<T> {
                self.0.recv().await
            }
            pub fn close(&mut self) {
                self.0.close()
            }
        }
    }
}

pub mod task {
    use crate::sim::Task;
    use std::any::Any;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll};

    pub struct JoinError(pub Box<dyn Any + Send + 'static>);
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            true
        }
        pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
            self.0
        }
        pub fn is_cancelled(&self) -> bool {
            false
        }
    }
    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("JoinError::Panic(..)")
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("task panicked")
        }
    }
    impl std::error::Error for JoinError {}

    type Slot<T> = Arc<Mutex<Option<Result<T, Box<dyn Any + Send>>>>>;
    pub struct JoinHandle<T> {
        slot: Slot<T>,
        task: Arc<Task>,
    }
    impl<T> JoinHandle<T> {
        pub fn is_finished(&self) -> bool {
            self.task.done()
        }
        pub fn abort(&self) {}
    }
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            match self.slot.lock().unwrap().take() {
                Some(r) => Poll::Ready(r.map_err(JoinError)),
                None => Poll::Pending,
            }
        }
    }

    pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let slot: Slot<T> = Arc::new(Mutex::new(None));
        let out = slot.clone();
        let task = crate::sim::spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let killed = matches!(&r, Err(p) if p.is::<crate::sim::Killed>());
            if !killed {
                *out.lock().unwrap() = Some(r);
            }
        });
        JoinHandle { slot, task }
    }
}
pub use task::spawn_blocking;

pub mod runtime {
    use std::future::Future;
    use std::pin::pin;
    use std::task::{Context, Poll, Waker};
    #[derive(Clone)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Handle {
            Handle
        }
        pub fn try_current() -> Result<Handle, std::convert::Infallible> {
            Ok(Handle)
        }
        /// Runs the blocking tasks of the run until the future is ready.
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = pin!(f);
            let mut cx = Context::from_waker(Waker::noop());
            let mut idle = 0;
            loop {
                if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                    return v;
                }
                idle = if crate::sim::step_all() { 0 } else { idle + 1 };
                assert!(idle < 3, "deadlock: every task waits");
            }
        }
    }
}

/// The simulator's side.
pub mod sim {
    use std::cell::RefCell;
    use std::sync::{Arc, Condvar, Mutex};
    use std::thread;

    #[derive(Clone, Copy, PartialEq)]
    enum Turn {
        Caller,
        Task,
        Done,
    }
    struct State {
        turn: Turn,
        waiting: bool,
        killed: bool,
    }
    pub struct Task {
        state: Mutex<State>,
        cv: Condvar,
        thread: Mutex<Option<thread::JoinHandle<()>>>,
    }
    pub struct Killed;

    thread_local! {
        static TASKS: RefCell<Vec<Arc<Task>>> = const { RefCell::new(Vec::new()) };
        static CURRENT: RefCell<Option<Arc<Task>>> = const { RefCell::new(None) };
    }

    impl Task {
        pub fn done(&self) -> bool {
            self.state.lock().unwrap().turn == Turn::Done
        }
        fn give_back(&self, waiting: bool) {
            let mut s = self.state.lock().unwrap();
            s.waiting = waiting;
            s.turn = Turn::Caller;
            self.cv.notify_all();
            while s.turn != Turn::Task {
                s = self.cv.wait(s).unwrap();
            }
            if s.killed {
                drop(s);
                std::panic::resume_unwind(Box::new(Killed));
            }
        }
        /// Lets the task run until it gives control back. Tells whether it did
        /// more than wait.
        pub fn step(&self) -> bool {
            let mut s = self.state.lock().unwrap();
            if s.turn == Turn::Done {
                return false;
            }
            s.turn = Turn::Task;
            self.cv.notify_all();
            while s.turn == Turn::Task {
                s = self.cv.wait(s).unwrap();
            }
            let moved = s.turn == Turn::Done || !s.waiting;
            if s.turn == Turn::Done {
                drop(s);
                if let Some(t) = self.thread.lock().unwrap().take() {
                    let _ = t.join();
                }
            }
            moved
        }
    }

    pub(crate) fn spawn(f: impl FnOnce() + Send + 'static) -> Arc<Task> {
        let task = Arc::new(Task {
            state: Mutex::new(State { turn: Turn::Caller, waiting: false, killed: false }),
            cv: Condvar::new(),
            thread: Mutex::new(None),
        });
        let (hash, rng) = (simseam::next_u64(), simseam::next_u64());
        let t = task.clone();
        let handle = thread::spawn(move || {
            simseam::set_hash_seed(hash);
            simseam::set_rng_seed(rng);
            CURRENT.with(|c| *c.borrow_mut() = Some(t.clone()));
            let killed = {
                let mut s = t.state.lock().unwrap();
                while s.turn != Turn::Task {
                    s = t.cv.wait(s).unwrap();
                }
                s.killed
            };
            if !killed {
                f();
            }
            CURRENT.with(|c| *c.borrow_mut() = None);
            t.state.lock().unwrap().turn = Turn::Done;
            t.cv.notify_all();
        });
        *task.thread.lock().unwrap() = Some(handle);
        TASKS.with(|v| v.borrow_mut().push(task.clone()));
        task
    }

    /// Gives control to the simulator; the task can go on at once.
    pub fn pause() {
        if let Some(t) = CURRENT.with(|c| c.borrow().clone()) {
            t.give_back(false);
        }
    }
    /// Gives control to the simulator; the task waits for something.
    pub fn wait() {
        let t = CURRENT.with(|c| c.borrow().clone());
        t.expect("only a blocking task may block").give_back(true);
    }
    /// One step of every task. Tells whether any did more than wait.
    pub fn step_all() -> bool {
        let tasks = TASKS.with(|v| v.borrow().clone());
        let mut moved = false;
        for t in tasks {
            moved |= t.step();
        }
        moved
    }
    /// Ends every task of the run.
    pub fn end() {
        for t in TASKS.with(|v| std::mem::take(&mut *v.borrow_mut())) {
            t.state.lock().unwrap().killed = true;
            while !t.done() {
                t.step();
            }
        }
    }
}

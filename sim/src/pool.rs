//! One process per simulated run: every run starts from the same pristine image, so nothing that
//! happened before can influence it, and a crash of the process is contained.

use std::collections::BTreeMap;
use std::time::Duration;
use std::time::Instant;

use crate::driver;
use crate::driver::Report;
use crate::plan::Cfg;

/// CPU seconds one run may take (a normal run takes about a tenth of a second).
pub const CPU_LIMIT: u64 = 60;

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    started: Instant,
}

pub struct Pool<T> {
    jobs: usize,
    kids: BTreeMap<i32, (Child, T)>,
}

#[derive(Debug)]
pub enum Done {
    Report(Box<Report>),
    /// the process died: signal or exit code
    Died(String),
}

impl<T> Pool<T> {
    pub fn new(jobs: usize) -> Self {
        Pool { jobs: jobs.max(1), kids: BTreeMap::new() }
    }
    pub fn full(&self) -> bool {
        self.kids.len() >= self.jobs
    }
    pub fn is_empty(&self) -> bool {
        self.kids.is_empty()
    }
    pub fn start(&mut self, cfg: &Cfg, tag: T) {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let cpu = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &mem);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                // messages of the standard library about panics and aborts
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
                let r = driver::run(cfg, false);
                let v = serde_json::to_vec(&r).unwrap();
                let mut o = 0;
                while o < v.len() {
                    let k = libc::write(fds[1], v[o..].as_ptr() as *const libc::c_void, v.len() - o);
                    if k <= 0 {
                        break;
                    }
                    o += k as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            self.kids.insert(fds[0], (Child { pid, fd: fds[0], buf: vec![], started: Instant::now() }, tag));
        }
    }
    /// Wait for the next run to finish.
    pub fn next(&mut self) -> Option<(T, Done)> {
        loop {
            if self.kids.is_empty() {
                return None;
            }
            let mut p: Vec<libc::pollfd> =
                self.kids.keys().map(|fd| libc::pollfd { fd: *fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(p.as_mut_ptr(), p.len() as libc::nfds_t, 1000) };
            for x in p {
                if x.revents == 0 {
                    // a process that sleeps for ever burns no CPU: bound its wall clock as well
                    let late = self.kids[&x.fd].0.started.elapsed() > Duration::from_secs(10 * CPU_LIMIT);
                    if late {
                        unsafe { libc::kill(self.kids[&x.fd].0.pid, libc::SIGKILL) };
                    }
                    continue;
                }
                let mut b = [0u8; 65536];
                let k = unsafe { libc::read(x.fd, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
                if k > 0 {
                    self.kids.get_mut(&x.fd).unwrap().0.buf.extend_from_slice(&b[..k as usize]);
                    continue;
                }
                let (c, tag) = self.kids.remove(&x.fd).unwrap();
                let mut st = 0;
                unsafe {
                    libc::close(c.fd);
                    libc::waitpid(c.pid, &mut st, 0);
                }
                let d = match serde_json::from_slice::<Report>(&c.buf) {
                    Ok(r) if libc::WIFEXITED(st) => Done::Report(Box::new(r)),
                    _ if libc::WIFSIGNALED(st) => Done::Died(format!("signal {}", libc::WTERMSIG(st))),
                    _ => Done::Died(format!("status {}", st)),
                };
                return Some((tag, d));
            }
        }
    }
    pub fn kill_all(&mut self) {
        for (c, _) in self.kids.values() {
            unsafe {
                libc::kill(c.pid, libc::SIGKILL);
            }
        }
        while self.next().is_some() {}
    }
}

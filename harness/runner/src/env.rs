//! Paths, seeds and budgets of a check.

use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Env {
    /// /verif
    pub verif: PathBuf,
    /// Scratch directory of this run, removed at the end.
    pub work: PathBuf,
    /// The compiled libraries generated programs link with.
    pub oracle: PathBuf,
    pub runtime: PathBuf,
    pub deps: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    pub jobs: usize,
    owner: bool,
}

impl Env {
    pub fn new(tag: &str) -> Env {
        let verif = PathBuf::from(std::env::var("BP_VERIF").expect("BP_VERIF is not set: run through check.sh"));
        let work = verif.join("work").join(format!("{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).expect("work directory");
        let mut env = Env::inner(&work.display().to_string());
        env.owner = true;
        env
    }

    /// The environment of a child process, whose scratch directory belongs to its parent.
    pub fn inner(work: &str) -> Env {
        let var = |k: &str| std::env::var(k).unwrap_or_else(|_| panic!("{} is not set: run through /verif/check.sh", k));
        let verif = PathBuf::from(var("BP_VERIF"));
        let work = PathBuf::from(work);
        let runtime = PathBuf::from(var("BP_RUNTIME_RLIB"));
        Env {
            oracle: PathBuf::from(var("BP_ORACLE_RLIB")),
            deps: runtime.parent().unwrap().to_path_buf(),
            runtime,
            verif,
            work,
            seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<i64>().ok()).unwrap_or(1) as u64,
            tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
            jobs: std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).clamp(2, 8),
            owner: false,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `a` in the quick tier, `b` in the thorough one.
    pub fn pick<T>(&self, a: T, b: T) -> T {
        if self.quick() { a } else { b }
    }
}

impl Drop for Env {
    fn drop(&mut self) {
        if self.owner && std::env::var_os("BP_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.work);
        }
    }
}

/// Runs `f` on every item, on several threads, keeping the order.
pub fn parallel<T: Send + Sync, R: Send>(jobs: usize, items: Vec<T>, f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<R>>> = items.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..jobs.min(items.len()).max(1) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(i, &items[i]);
                    *out[i].lock().unwrap() = Some(r);
                })
                .expect("thread");
        }
    });
    out.into_iter().map(|v| v.into_inner().unwrap().expect("every item is done")).collect()
}

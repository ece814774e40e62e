//! Exhaustive exploration of spaces, in a supervised child process
//!
//! A space is a tree of paths: every node says how many extensions it has.
//! Every node is visited; those that have something to judge run the real code.
use std::collections::{HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What visiting a node gave
pub struct Out {
    /// whether the extensions of the node are to be visited
    pub extend: bool,
    /// canonical model state, or 0 if the node has none
    pub state: u64,
    /// how many runs of the real code were compared
    pub runs: u64,
}
pub type Verdict = Result<Out, String>;
pub const INNER: Out = Out {
    extend: true,
    state: 0,
    runs: 0,
};

pub trait Space: Sync + Send {
    fn name(&self) -> String;
    /// What is enumerated, in words
    fn bound(&self) -> String;
    /// How many extensions a node has
    fn width(&self, path: &[u32]) -> u32;
    fn run(&self, path: &[u32]) -> Verdict;
    fn show(&self, path: &[u32]) -> String;
}

pub fn digest<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish().max(1)
}

#[derive(Default)]
struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
type Set = HashSet<u64, BuildHasherDefault<Ident>>;

const SHARDS: usize = 256;
/// A concurrent set of hashes
struct Shared {
    shards: Vec<Mutex<Set>>,
}
impl Shared {
    fn new() -> Self {
        Shared {
            shards: (0..SHARDS).map(|_| Mutex::new(Set::default())).collect(),
        }
    }
    fn add(&self, x: u64) {
        let x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        self.shards[(x >> 40) as usize % SHARDS]
            .lock()
            .unwrap()
            .insert(x);
    }
    fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}
/// Recently added hashes, to keep off the locks
struct Recent(Vec<u64>);
impl Recent {
    fn new() -> Self {
        Recent(vec![0; 1 << 14])
    }
    fn add(&mut self, to: &Shared, x: u64) {
        let slot = &mut self.0[x as usize & ((1 << 14) - 1)];
        if *slot != x {
            *slot = x;
            to.add(x);
        }
    }
}

// what the processes share: for every worker the case that it is running
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
const SLOT_WORDS: usize = 1024;
const SLOTS: usize = 65;
struct Slots(*mut u32);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len((SLOTS * SLOT_WORDS * 4) as u64).unwrap();
        let p = unsafe {
            mmap(
                std::ptr::null_mut(),
                SLOTS * SLOT_WORDS * 4,
                3,
                1,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p as isize != -1, "mmap");
        Slots(p as *mut u32)
    }
    /// words: sequence number (odd while running), space, length, path
    fn set(&self, worker: usize, space: usize, path: &[u32]) {
        unsafe {
            let p = self.0.add(worker * SLOT_WORDS);
            p.write_volatile(p.read_volatile().wrapping_add(1));
            p.add(1).write_volatile(space as u32);
            p.add(2).write_volatile(path.len() as u32);
            for (i, x) in path.iter().enumerate().take(SLOT_WORDS - 3) {
                p.add(3 + i).write_volatile(*x);
            }
        }
    }
    fn done(&self, worker: usize) {
        unsafe {
            let p = self.0.add(worker * SLOT_WORDS);
            p.write_volatile(p.read_volatile().wrapping_add(1));
        }
    }
    fn seq(&self, worker: usize) -> u32 {
        unsafe { self.0.add(worker * SLOT_WORDS).read_volatile() }
    }
    fn get(&self, worker: usize) -> (usize, Vec<u32>) {
        unsafe {
            let p = self.0.add(worker * SLOT_WORDS);
            let n = p.add(2).read_volatile() as usize;
            (
                p.add(1).read_volatile() as usize,
                (0..n).map(|i| p.add(3 + i).read_volatile()).collect(),
            )
        }
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn judge(space: &dyn Space, path: &[u32]) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| space.run(path))) {
        Ok(v) => v,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

struct Work<'a> {
    index: usize,
    space: &'a dyn Space,
    slots: &'a Slots,
    states: &'a Shared,
    edges: &'a Shared,
    runs: &'a AtomicU64,
    nodes: &'a AtomicU64,
    samples: &'a Mutex<Vec<String>>,
    stop: &'a AtomicBool,
    found: &'a Mutex<Option<(usize, Vec<u32>, String)>>,
    deadline: Instant,
    late: &'a AtomicBool,
    /// what is to be visited
    queue: Mutex<VecDeque<Part>>,
    /// how much is in the queue
    queued: AtomicUsize,
    /// how much is in the queue or being visited
    pending: AtomicUsize,
    /// how many workers have nothing to do
    idle: AtomicUsize,
}

/// Some of the children of a node
struct Part {
    path: Vec<u32>,
    state: u64,
    from: u32,
    to: u32,
}

struct Worker {
    id: usize,
    states: Recent,
    edges: Recent,
    runs: u64,
    nodes: u64,
}

impl<'a> Work<'a> {
    /// Visits one node
    fn visit(&self, w: &mut Worker, path: &[u32], parent: u64) -> Option<(bool, u64)> {
        self.slots.set(w.id, self.index, path);
        let v = judge(self.space, path);
        self.slots.done(w.id);
        w.nodes += 1;
        if w.nodes & 0xfff == 0 && Instant::now() > self.deadline {
            self.late.store(true, SeqCst);
            self.stop.store(true, SeqCst);
        }
        match v {
            Ok(o) => {
                w.runs += o.runs;
                if o.state != 0 {
                    let s = o.state ^ (self.index as u64 + 1).wrapping_mul(0xABCD_EF12_3457);
                    w.states.add(self.states, s);
                    w.edges.add(
                        self.edges,
                        parent.rotate_left(17)
                            ^ s.wrapping_mul(0x2545_F491_4F6C_DD1D)
                            ^ path.last().copied().unwrap_or(0) as u64,
                    );
                }
                if o.runs > 0 && w.nodes.is_power_of_two() && w.nodes.trailing_zeros() % 3 == 0 {
                    let mut s = self.samples.lock().unwrap();
                    if s.len() < 3 * (self.index + 1) {
                        let mut t = self.space.show(path);
                        if t.len() > 300 {
                            t = t.chars().take(280).collect::<String>() + "...";
                        }
                        s.push(format!("{}: {}", self.space.name(), t));
                    }
                }
                Some((o.extend, o.state))
            }
            Err(e) => {
                let mut f = self.found.lock().unwrap();
                // the least case that was seen before everything stopped
                let better = match &*f {
                    None => true,
                    Some((_, p, _)) => (path.len(), path) < (p.len(), p),
                };
                if better {
                    *f = Some((self.index, path.to_vec(), e));
                }
                self.stop.store(true, SeqCst);
                None
            }
        }
    }
    fn share(&self, part: Part) {
        self.pending.fetch_add(1, SeqCst);
        self.queued.fetch_add(1, SeqCst);
        self.queue.lock().unwrap().push_back(part);
    }
    /// Visits some children of a node and everything below them
    fn part(&self, w: &mut Worker, part: Part) {
        let Part {
            mut path,
            state,
            from,
            to,
        } = part;
        let base = path.len();
        // for each node of the path its state and the children that are left
        let mut stack = vec![(state, from, to)];
        while !self.stop.load(Relaxed) {
            if self.idle.load(Relaxed) > self.queued.load(Relaxed) {
                // others take half of what is left, as near to the root as possible
                if let Some(d) = stack.iter().position(|f| f.2 - f.1 > 1) {
                    let f = &mut stack[d];
                    let mid = f.1 + (f.2 - f.1) / 2;
                    self.share(Part {
                        path: path[..base + d].to_vec(),
                        state: f.0,
                        from: mid,
                        to: f.2,
                    });
                    f.2 = mid;
                }
            }
            let Some((state, next, to)) = stack.last_mut() else {
                break;
            };
            if next == to {
                stack.pop();
                path.pop();
                continue;
            }
            path.push(*next);
            *next += 1;
            match self.visit(w, &path, *state) {
                Some((true, state)) => stack.push((state, 0, self.space.width(&path))),
                _ => {
                    path.pop();
                }
            }
        }
    }
    /// Visits what is in the queue until there is nothing more
    fn serve(&self, w: &mut Worker) {
        let take = || {
            let p = self.queue.lock().unwrap().pop_front();
            if p.is_some() {
                self.queued.fetch_sub(1, SeqCst);
            }
            p
        };
        loop {
            let mut part = take();
            if part.is_none() {
                self.idle.fetch_add(1, SeqCst);
                while part.is_none() && self.pending.load(SeqCst) > 0 && !self.stop.load(SeqCst) {
                    std::thread::sleep(Duration::from_micros(50));
                    part = take();
                }
                self.idle.fetch_sub(1, SeqCst);
            }
            let Some(p) = part else {
                break;
            };
            self.part(w, p);
            self.pending.fetch_sub(1, SeqCst);
        }
    }
    fn flush(&self, w: &mut Worker) {
        self.runs.fetch_add(w.runs, SeqCst);
        self.nodes.fetch_add(w.nodes, SeqCst);
        w.runs = 0;
    }
}

fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16)
}

/// Runs all spaces; writes the result as lines to a file
fn explore(spaces: &[Box<dyn Space>], slots: &Slots, result: &str, limit: Duration) {
    let deadline = Instant::now() + limit;
    let (states, edges) = (Shared::new(), Shared::new());
    let (runs, nodes) = (AtomicU64::new(0), AtomicU64::new(0));
    let samples = Mutex::new(vec![]);
    let found = Mutex::new(None);
    let (stop, late) = (AtomicBool::new(false), AtomicBool::new(false));
    let mut lines = vec![];
    for (index, space) in spaces.iter().enumerate() {
        let start = Instant::now();
        let runs_before = runs.load(SeqCst);
        let work = Work {
            index,
            space: space.as_ref(),
            slots,
            states: &states,
            edges: &edges,
            runs: &runs,
            nodes: &nodes,
            samples: &samples,
            stop: &stop,
            found: &found,
            deadline,
            late: &late,
            queue: Mutex::new(VecDeque::new()),
            queued: AtomicUsize::new(0),
            pending: AtomicUsize::new(1),
            idle: AtomicUsize::new(0),
        };
        let worker = |id| Worker {
            id,
            states: Recent::new(),
            edges: Recent::new(),
            runs: 0,
            nodes: 0,
        };
        std::thread::scope(|s| {
            for id in 0..threads() {
                let (work, worker) = (&work, &worker);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = worker(id + 1);
                        if id == 0 {
                            if let Some((true, state)) = work.visit(&mut w, &[], 0) {
                                work.part(&mut w, Part {
                                    path: vec![],
                                    state,
                                    from: 0,
                                    to: space.width(&[]),
                                });
                            }
                            work.pending.fetch_sub(1, SeqCst);
                        }
                        work.serve(&mut w);
                        work.flush(&mut w);
                    })
                    .unwrap();
            }
        });
        lines.push(format!(
            "space\t{}\t{}\t{}\t{:.1}",
            space.name(),
            space.bound(),
            runs.load(SeqCst) - runs_before,
            start.elapsed().as_secs_f64()
        ));
        if stop.load(SeqCst) {
            break;
        }
    }
    lines.push(format!("states\t{}", states.len()));
    lines.push(format!("transitions\t{}", edges.len()));
    lines.push(format!("runs\t{}", runs.load(SeqCst)));
    lines.push(format!("nodes\t{}", nodes.load(SeqCst)));
    for s in samples.lock().unwrap().iter() {
        lines.push(format!("sample\t{}", s.escape_debug()));
    }
    if let Some((index, path, why)) = found.lock().unwrap().take() {
        lines.push(format!("found\t{index}\t{}", show_path(&path)));
        lines.push(format!("why\t{}", why.replace('\n', "\u{1}")));
    } else if late.load(SeqCst) {
        lines.push("late".into());
    }
    lines.push("end".into());
    std::fs::write(result, lines.join("\n")).unwrap();
}

fn show_path(p: &[u32]) -> String {
    p.iter()
        .map(|x| x.to_string())
        .collect::<Vec<_>>()
        .join(" ")
}
fn read_path(s: &str) -> Vec<u32> {
    s.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

pub type Spaces = fn(&str, bool) -> Vec<Box<dyn Space>>;

/// Where what is written to the standard streams goes
pub fn capture_len() -> u64 {
    let Ok(p) = std::env::var("HMLMC_CAPTURE") else {
        return 0;
    };
    std::fs::metadata(p).map(|m| m.len()).unwrap_or(0)
}

fn child_setup() {
    use std::os::fd::AsRawFd;
    if let Ok(p) = std::env::var("HMLMC_CAPTURE") {
        let f = std::fs::OpenOptions::new().append(true).open(p).unwrap();
        unsafe {
            dup2(f.as_raw_fd(), 1);
            dup2(f.as_raw_fd(), 2);
        }
    }
    unsafe {
        // address space and core
        setrlimit(9, &[12 << 30, 12 << 30]);
        setrlimit(4, &[0, 0]);
    }
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = s.clone());
        if let Ok(p) = std::env::var("HMLMC_PANICS") {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                if f.metadata().map(|m| m.len() < 100_000).unwrap_or(false) {
                    let _ = writeln!(f, "{}", s.replace('\n', " "));
                }
            }
        }
    }));
}

/// `child <property> <tier> <slots> <result> <seconds>`
pub fn child(args: &[String], spaces: Spaces) -> i32 {
    child_setup();
    let slots = Slots::open(&args[2]);
    let spaces = spaces(&args[0], args[1] == "thorough");
    explore(
        &spaces,
        &slots,
        &args[3],
        Duration::from_secs(args[4].parse().unwrap()),
    );
    0
}

/// `one <property> <tier> <space> <path> <result>`: a single case
pub fn one(args: &[String], spaces: Spaces) -> i32 {
    child_setup();
    let spaces = spaces(&args[0], args[1] == "thorough");
    let space = spaces.iter().find(|s| s.name() == args[2]).expect("space");
    let path = read_path(&args[3]);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || judge(space.as_ref(), &path))
            .unwrap()
            .join()
            .unwrap()
    });
    let t = match r {
        Ok(_) => "held".to_string(),
        Err(e) => format!("broken\n{e}"),
    };
    std::fs::write(&args[4], t).unwrap();
    0
}

struct Dir(String);
impl Dir {
    fn new(root: &str) -> Self {
        let d = format!("{root}/evidence/run-{}", std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn file(&self, n: &str) -> String {
        format!("{}/{n}", self.0)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        for n in ["slots", "result", "capture", "panics", "one"] {
            let _ = std::fs::remove_file(self.file(n));
        }
        let _ = std::fs::remove_dir_all(self.file("work"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

enum End {
    Done,
    Died(String, bool),
    Hung(usize),
}

fn spawn(dir: &Dir, args: &[String]) -> std::process::Child {
    let capture = dir.file("capture");
    std::fs::write(&capture, "").unwrap();
    let _ = std::fs::remove_file(dir.file("panics"));
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("HMLMC_CAPTURE", capture)
        .env("HMLMC_PANICS", dir.file("panics"))
        .env("HMLMC_WORK", dir.file("work"))
        .stdin(std::process::Stdio::null())
        .spawn()
        .unwrap()
}

fn died(s: std::process::ExitStatus) -> (String, bool) {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        // killed from outside
        Some(n @ (9 | 15 | 2)) => (format!("signal {n}"), false),
        Some(n) => (format!("signal {n}"), true),
        None => (format!("exit {:?}", s.code()), false),
    }
}

fn supervise(dir: &Dir, args: &[String], hang: Duration) -> End {
    let slots_file = dir.file("slots");
    std::fs::write(&slots_file, "").unwrap();
    let slots = Slots::open(&slots_file);
    let mut c = spawn(dir, args);
    let mut last = [(0u32, Instant::now()); SLOTS];
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            if s.success() {
                return End::Done;
            }
            let (how, real) = died(s);
            return End::Died(how, real);
        }
        std::thread::sleep(Duration::from_millis(20));
        for (w, l) in last.iter_mut().enumerate() {
            let q = slots.seq(w);
            if q != l.0 {
                *l = (q, Instant::now());
            } else if q & 1 == 1 && l.1.elapsed() > hang {
                let _ = c.kill();
                let _ = c.wait();
                return End::Hung(w);
            }
        }
    }
}

/// Runs one case in a process of its own: Err if it is broken
fn alone(dir: &Dir, prop: &str, tier: &str, space: &str, path: &[u32]) -> Result<(), String> {
    let out = dir.file("one");
    let _ = std::fs::remove_file(&out);
    let args: Vec<String> = ["one", prop, tier, space, &show_path(path), &out]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut c = spawn(dir, &args);
    let start = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            if !s.success() {
                let p = std::fs::read_to_string(dir.file("panics")).unwrap_or_default();
                return Err(format!("the process ended with {}: {}", died(s).0, p.trim()));
            }
            let r = std::fs::read_to_string(&out).unwrap_or_default();
            return match r.strip_prefix("broken\n") {
                Some(e) => Err(e.to_string()),
                None => Ok(()),
            };
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = c.kill();
            let _ = c.wait();
            return Err("no result within 60 s".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// `check <property>`
pub fn check(root: &str, prop: &str, assumptions: &[&str], spaces: Spaces) -> i32 {
    let start = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let all = spaces(prop, tier == "thorough");
    if all.is_empty() {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let dir = Dir::new(root);
    let evidence = format!("{root}/evidence/{prop}.json");
    let _ = std::fs::remove_file(&evidence);
    let replay_dir = format!("{root}/evidence/replay");
    std::fs::create_dir_all(&replay_dir).unwrap();
    let replay = format!("{replay_dir}/{prop}.txt");
    let _ = std::fs::remove_file(&replay);
    let result = dir.file("result");
    let args: Vec<String> = [
        "child",
        prop,
        tier,
        &dir.file("slots"),
        &result,
        "760",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // (space, path, why)
    let mut found: Option<(String, Vec<u32>, String)> = None;
    let end = supervise(&dir, &args, Duration::from_secs(60));
    match &end {
        End::Done => (),
        End::Hung(_) | End::Died(..) => {
            if let End::Died(how, false) = &end {
                eprintln!("the exploration ended with {how}");
                return 2;
            }
            let panics = std::fs::read_to_string(dir.file("panics")).unwrap_or_default();
            let slots = Slots::open(&dir.file("slots"));
            let mut order: Vec<usize> = (0..SLOTS).filter(|w| slots.seq(*w) & 1 == 1).collect();
            if let End::Hung(w) = &end {
                order.sort_by_key(|x| x != w);
            }
            for w in order {
                let (i, path) = slots.get(w);
                if i >= all.len() || path.len() > SLOT_WORDS - 3 {
                    continue;
                }
                if let Err(e) = alone(&dir, prop, tier, &all[i].name(), &path) {
                    found = Some((all[i].name(), path, e));
                    break;
                }
            }
            if found.is_none() {
                eprintln!("the exploration ended early and no case reproduces it: {panics}");
                return 2;
            }
        }
    }
    let (mut states, mut transitions, mut runs, mut nodes) = (0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut space_lines = vec![];
    let mut late = false;
    let mut ended = false;
    let mut alone_too = String::new();
    if let End::Done = end {
        let text = std::fs::read_to_string(&result).unwrap_or_default();
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "states" => states = f[1].parse().unwrap(),
                "transitions" => transitions = f[1].parse().unwrap(),
                "runs" => runs = f[1].parse().unwrap(),
                "nodes" => nodes = f[1].parse().unwrap(),
                "sample" => samples.push(f[1..].join("\t")),
                "space" => {
                    space_lines.push((f[1].to_string(), f[2].to_string(), f[3].to_string()));
                    if std::env::var("HMLMC_VERBOSE").is_ok() {
                        println!("{:32} {:>10} {:>7} s  {}", f[1], f[3], f[4], f[2]);
                    }
                }
                "found" => {
                    let i: usize = f[1].parse().unwrap();
                    found = Some((all[i].name(), read_path(f[2]), String::new()));
                }
                "why" => {
                    if let Some(x) = &mut found {
                        x.2 = f[1..].join("\t").replace('\u{1}', "\n");
                    }
                }
                "late" => late = true,
                "end" => ended = true,
                _ => (),
            }
        }
        if !ended {
            eprintln!("the exploration gave no result");
            return 2;
        }
        if let Some((space, path, _)) = &found {
            alone_too = match alone(&dir, prop, tier, space, path) {
                Err(_) => "also when run alone".into(),
                Ok(()) => "only in the course of the exploration, not when run alone".into(),
            };
        }
    }
    if late && found.is_none() {
        eprintln!("the exploration did not end in time");
        return 2;
    }
    let violations = found.is_some() as u32;
    let mut j = String::from("{\n");
    j += &format!(" \"property\": {},\n", json_str(prop));
    j += &format!(" \"tier\": {},\n \"seed\": {seed},\n", json_str(tier));
    j += " \"level\": \"model_checking\",\n \"coverage\": {\n";
    j += &format!("  \"states\": {states},\n  \"transitions\": {transitions},\n");
    j += &format!("  \"traces_validated_against_impl\": {runs},\n");
    j += &format!("  \"tree_nodes_visited\": {nodes},\n");
    j += &format!("  \"exhaustive\": {},\n", found.is_none());
    j += "  \"spaces\": [\n";
    for (i, (n, b, r)) in space_lines.iter().enumerate() {
        j += &format!(
            "   {{\"space\": {}, \"bound\": {}, \"runs\": {r}}}{}\n",
            json_str(n),
            json_str(b),
            if i + 1 < space_lines.len() { "," } else { "" }
        );
    }
    j += "  ],\n  \"samples\": [\n";
    for (i, s) in samples.iter().enumerate() {
        j += &format!(
            "   {}{}\n",
            json_str(s),
            if i + 1 < samples.len() { "," } else { "" }
        );
    }
    j += "  ]\n },\n \"assumptions\": [";
    j += &assumptions
        .iter()
        .map(|s| json_str(s))
        .collect::<Vec<_>>()
        .join(", ");
    j += &format!(
        "],\n \"violations\": {violations},\n \"wall_s\": {:.2}\n}}\n",
        start.elapsed().as_secs_f64()
    );
    std::fs::write(&evidence, j).unwrap();
    if let Some((space, path, why)) = found {
        let show = all
            .iter()
            .find(|s| s.name() == space)
            .map(|s| s.show(&path))
            .unwrap_or_default();
        let text = format!(
            "property {prop}\ntier {tier}\nspace {space}\npath {}\n\ncase {show}\n{alone_too}\n\n{why}\n",
            show_path(&path)
        );
        std::fs::write(&replay, &text).unwrap();
        println!("{text}");
        println!("to run it again: ./check replay {replay}");
        println!("VIOLATION property={prop} replay={replay}");
        return 1;
    }
    println!(
        "{prop} held: {runs} runs of the implementation, {states} states, {transitions} transitions, {:.1} s",
        start.elapsed().as_secs_f64()
    );
    0
}

/// `replay <file>`
pub fn replay(root: &str, file: &str, spaces: Spaces) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k))
            .unwrap_or("")
            .trim()
            .to_string()
    };
    let (prop, tier, space) = (get("property "), get("tier "), get("space "));
    let path = read_path(&get("path "));
    let dir = Dir::new(root);
    let all = spaces(&prop, tier == "thorough");
    if let Some(s) = all.iter().find(|s| s.name() == space) {
        println!("case {}", s.show(&path));
    }
    match alone(&dir, &prop, &tier, &space, &path) {
        Ok(()) => {
            println!("held");
            0
        }
        Err(e) => {
            println!("{e}");
            println!("VIOLATION property={prop} replay={file}");
            1
        }
    }
}

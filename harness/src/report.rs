//! Shard protocol: deterministic cases, current-case file for crash attribution, watchdog,
//! coverage counters, violations.
use crate::hook;
use crate::rng::{Rng, hash_str, mix};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub type Res = Result<(), String>;

pub struct Ctx {
	pub prop: String,
	pub seed: u64,
	pub thorough: bool,
	pub shard: u64,
	pub shards: u64,
	pub budget: Duration,
	pub out: String,
	pub only: Option<String>,
	/// Slow interpreter or heavily instrumented build: scale workloads down.
	pub slow: bool,
	pub extra: String,
	start: Instant,
	evaluations: u64,
	distinct: HashSet<u64>,
	scheds: HashSet<u64>,
	events: BTreeMap<String, u64>,
	samples: Vec<String>,
	violations: Vec<(String, String, String)>,
	case: String,
	desc: String,
	cur: Option<std::fs::File>,
	sample_at: u64,
	unfinished: bool,
	records: String,
}

fn escape(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);

#[cfg(not(miri))]
fn cpu_ms() -> u64 {
	#[repr(C)]
	struct Ts(i64, i64);
	unsafe extern "C" {
		fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
	}
	let mut t = Ts(0, 0);
	unsafe { clock_gettime(2, &mut t) };
	t.0 as u64 * 1000 + t.1 as u64 / 1_000_000
}
#[cfg(miri)]
fn cpu_ms() -> u64 {
	0
}

/// Runs `f`, turning a panic into its payload.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
	catch_unwind(AssertUnwindSafe(f))
}

/// What a payload says.
pub fn payload(p: &(dyn Any + Send)) -> String {
	if let Some(c) = p.downcast_ref::<hook::CapExceeded>() {
		format!("did not finish within {} callback calls", c.0)
	} else if let Some(i) = p.downcast_ref::<hook::Injected>() {
		format!("injected panic {}", i.0)
	} else {
		format!("panicked: {}", last_panic())
	}
}
pub fn last_panic() -> String {
	LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

impl Ctx {
	pub fn new(prop: &str) -> Self {
		let mut c = Ctx {
			prop: prop.into(),
			seed: 1,
			thorough: false,
			shard: 0,
			shards: 1,
			budget: Duration::from_secs(5),
			out: String::new(),
			only: None,
			slow: cfg!(miri),
			extra: String::new(),
			start: Instant::now(),
			evaluations: 0,
			distinct: HashSet::new(),
			scheds: HashSet::new(),
			events: BTreeMap::new(),
			samples: vec![],
			violations: vec![],
			case: String::new(),
			desc: String::new(),
			cur: None,
			sample_at: 1,
			unfinished: false,
			records: String::new(),
		};
		let mut a = std::env::args().skip(1);
		while let Some(k) = a.next() {
			let mut val = || a.next().expect("value");
			match k.as_str() {
				"--seed" => c.seed = val().parse().unwrap(),
				"--tier" => c.thorough = val() == "thorough",
				"--shard" => c.shard = val().parse().unwrap(),
				"--shards" => c.shards = val().parse().unwrap(),
				"--budget" => c.budget = Duration::from_secs_f64(val().parse().unwrap()),
				"--out" => c.out = val(),
				"--case" => c.only = Some(val()),
				"--slow" => c.slow = true,
				"--extra" => c.extra = val(),
				x => panic!("unknown argument {x}"),
			}
		}
		if !c.out.is_empty() {
			c.cur = Some(std::fs::File::create(format!("{}/shard-{}.cur", c.out, c.shard)).unwrap());
		}
		std::panic::set_hook(Box::new(|i| {
			if i.payload().downcast_ref::<hook::Injected>().is_some() {
				return;
			}
			let m = i
				.payload()
				.downcast_ref::<&str>()
				.map(|s| s.to_string())
				.or_else(|| i.payload().downcast_ref::<String>().cloned())
				.unwrap_or_default();
			let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
			*LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{m}{l}");
		}));
		#[cfg(not(miri))]
		{
			let file = format!("{}/shard-{}.hang", c.out, c.shard);
			let has = !c.out.is_empty();
			let limit: u64 = if c.slow { 600_000 } else { 90_000 };
			std::thread::spawn(move || {
				// Processor time stands still (deadlock): the case, the time, seconds without change.
				let mut still = (0, 0, Instant::now());
				loop {
					std::thread::sleep(Duration::from_millis(500));
					let (no, at) = (CASE_NO.load(SeqCst), CASE_CPU.load(SeqCst));
					let cpu = cpu_ms() / 200;
					if (no, cpu) != (still.0, still.1) {
						still = (no, cpu, Instant::now());
					} else if no > 0 && still.2.elapsed() > Duration::from_secs(60) {
						eprintln!("deadlock");
						std::process::exit(97);
					}
					if no > 0 && cpu_ms().saturating_sub(at) > limit && no == CASE_NO.load(SeqCst) {
						if has {
							let _ = std::fs::write(&file, format!("{limit}"));
						}
						std::process::exit(97);
					}
				}
			});
		}
		c
	}
	fn rng(&self, case: &str) -> Rng {
		Rng::new(mix(self.seed ^ hash_str(&self.prop)) ^ hash_str(case))
	}
	/// Names what the current case is about to run, for attribution of crashes.
	pub fn begin(&mut self, desc: std::fmt::Arguments) {
		self.desc.clear();
		let _ = self.desc.write_fmt(desc);
		self.mark();
	}
	fn mark(&mut self) {
		#[cfg(miri)]
		println!("CUR\t{}\t{}", self.case, self.desc);
		#[cfg(not(miri))]
		if let Some(f) = &self.cur {
			use std::os::unix::fs::FileExt;
			let mut l = format!("{}\t{}", self.case, self.desc);
			l.truncate(l.char_indices().map(|x| x.0).take_while(|&x| x < 500).last().unwrap_or(0) + 1);
			let s = format!("{l:<510}\n");
			let _ = f.write_all_at(s.as_bytes(), 0);
		}
	}
	/// One operation executed and judged. `sig` identifies the execution; `nontrivial` by the
	/// rule the check states.
	pub fn eval(&mut self, sig: u64, nontrivial: bool) {
		self.evaluations += 1;
		if nontrivial && self.distinct.len() < 1_500_000 {
			self.distinct.insert(sig);
		}
		if self.evaluations == self.sample_at && self.samples.len() < 12 {
			self.samples.push(format!("{}: {}", self.case, self.desc));
			self.sample_at = self.sample_at * 5 + 1;
		}
	}
	pub fn ev(&mut self, name: &str, n: u64) {
		if let Some(x) = self.events.get_mut(name) {
			*x += n;
		} else {
			self.events.insert(name.into(), n);
		}
	}
	/// A distinct schedule was observed.
	pub fn sched(&mut self, sig: u64) {
		if self.scheds.len() < 1_000_000 && self.scheds.insert(sig) {
			self.ev("distinct schedules (per shard)", 1);
		}
	}
	pub fn ev_max(&mut self, name: &str, n: u64) {
		let e = self.events.entry(format!("max:{name}")).or_insert(0);
		*e = (*e).max(n);
	}
	/// Something that must be the same in every process running this case.
	pub fn record(&mut self, what: &str, digest: &str) {
		// More of the random cases add nothing but work for the driver.
		if self.records.len() < if self.thorough { 60 << 20 } else { 4 << 20 } || !self.case.starts_with("random") {
			let _ = writeln!(self.records, "{}\t{}\t{}\t{}", self.case, what, digest, self.desc);
		}
	}
	pub fn desc(&self) -> &str {
		&self.desc
	}
	pub fn failed(&self) -> bool {
		!self.violations.is_empty()
	}
	pub fn elapsed(&self) -> f64 {
		self.start.elapsed().as_secs_f64()
	}
	fn one(&mut self, case: String, f: &mut dyn FnMut(&mut Ctx, &mut Rng, u64) -> Res, i: u64) {
		self.case = case;
		self.desc.clear();
		self.mark();
		CASE_CPU.store(cpu_ms(), SeqCst);
		CASE_NO.fetch_add(1, SeqCst);
		hook::reset();
		let mut r = self.rng(&self.case.clone());
		let res = match guard(|| f(self, &mut r, i)) {
			Ok(r) => r,
			Err(p) => Err(payload(&*p)),
		};
		let res = res.and_then(|()| crate::alloc::wrong().map_or(Ok(()), Err));
		if let Err(m) = res {
			self.violations.push((self.case.clone(), self.desc.clone(), m));
		}
	}
	/// Cases that always run to the end, `count` over all shards.
	pub fn fixed(&mut self, phase: &str, count: u64, mut f: impl FnMut(&mut Ctx, &mut Rng, u64) -> Res) {
		if let Some(o) = self.only.clone() {
			if let Some(i) = o.strip_prefix(&format!("{phase}#")) {
				let i = i.parse().unwrap();
				self.one(o.clone(), &mut f, i);
			}
			return;
		}
		let mut i = self.shard;
		while i < count && !self.failed() {
			self.one(format!("{phase}#{i}"), &mut f, i);
			i += self.shards;
		}
	}
	/// Cases until the shard's time (a fraction of the budget since start) is used up, at least `min`.
	pub fn timed(&mut self, phase: &str, upto: f64, min: u64, mut f: impl FnMut(&mut Ctx, &mut Rng, u64) -> Res) {
		if let Some(o) = self.only.clone() {
			if let Some(i) = o.strip_prefix(&format!("{phase}#")) {
				let i = i.parse().unwrap();
				self.one(o.clone(), &mut f, i);
			}
			return;
		}
		let mut i = self.shard;
		let mut done = 0;
		while !self.failed() && (done < min || self.start.elapsed() < self.budget.mul_f64(upto)) {
			self.one(format!("{phase}#{i}"), &mut f, i);
			i += self.shards;
			done += 1;
		}
	}
	/// The workload could not do what it is meant to do (not a violation).
	pub fn inconclusive(&mut self, why: &str) {
		self.unfinished = true;
		eprintln!("inconclusive: {why}");
	}
	pub fn finish(mut self) {
		if crate::alloc::blocks() > 0 {
			self.ev("heap blocks watched", crate::alloc::blocks());
		}
		for (c, d, m) in &self.violations {
			println!("case {c}: {d}: {m}");
		}
		if !self.out.is_empty() {
			let mut s = String::new();
			let _ = write!(s, "{{\"evaluations\":{},\"distinct\":{},\"events\":{{", self.evaluations, self.distinct.len());
			for (i, (k, v)) in self.events.iter().enumerate() {
				let _ = write!(s, "{}\"{}\":{}", if i > 0 { "," } else { "" }, escape(k), v);
			}
			s.push_str("},\"samples\":[");
			for (i, x) in self.samples.iter().enumerate() {
				let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, escape(x));
			}
			s.push_str("],\"violations\":[");
			for (i, (c, d, m)) in self.violations.iter().enumerate() {
				let _ = write!(
					s,
					"{}{{\"case\":\"{}\",\"desc\":\"{}\",\"message\":\"{}\"}}",
					if i > 0 { "," } else { "" },
					escape(c),
					escape(d),
					escape(m)
				);
			}
			let _ = write!(s, "],\"unfinished\":{}}}", self.unfinished);
			let mut h = Vec::with_capacity(self.distinct.len() * 8);
			for x in &self.distinct {
				h.extend_from_slice(&x.to_le_bytes());
			}
			let base = format!("{}/shard-{}", self.out, self.shard);
			std::fs::write(format!("{base}.hash"), h).unwrap();
			if !self.records.is_empty() {
				std::fs::write(format!("{base}.rec"), &self.records).unwrap();
			}
			std::fs::write(format!("{base}.json.tmp"), s).unwrap();
			std::fs::rename(format!("{base}.json.tmp"), format!("{base}.json")).unwrap();
		}
		let code = if !self.violations.is_empty() {
			1
		} else if self.unfinished {
			2
		} else {
			0
		};
		std::process::exit(code);
	}
}

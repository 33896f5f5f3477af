//! Small helpers shared by all harnesses.
use std::path::{Path, PathBuf};
use std::sync::Mutex;

/// splitmix64
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_5A5A_1234_5678))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let h = blake3::hash(s.as_bytes());
    u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Short printable description of a byte string.
pub fn brief(b: &[u8]) -> String {
    if b.len() <= 24 {
        hex(b)
    } else {
        format!(
            "{}..(len {}, b3 {})",
            hex(&b[..12]),
            b.len(),
            &blake3::hash(b).to_hex()[..12]
        )
    }
}

pub fn scratch_root() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base);
        let probe = p.join(format!(".jbkverif-probe-{}", std::process::id()));
        if std::fs::write(&probe, b"x").is_ok() {
            let _ = std::fs::remove_file(&probe);
            return p.to_path_buf();
        }
    }
    std::env::temp_dir()
}

/// Interns a string so it can be used as a `&'static str` property name.
pub fn intern(s: &str) -> &'static str {
    static TABLE: Mutex<Option<std::collections::HashMap<String, &'static str>>> = Mutex::new(None);
    let mut t = TABLE.lock().unwrap();
    let t = t.get_or_insert_with(Default::default);
    if let Some(s) = t.get(s) {
        return s;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(s.to_string(), l);
    l
}

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let th = std::thread::current().name().unwrap_or("?").to_string();
        let line = format!("PANIC [{th}] at {loc}: {msg}");
        eprintln!("{line}");
        if let Ok(mut p) = PANICS.lock() {
            p.push(line);
        }
    }));
}

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Run `f`, turning a panic into Err(text).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = take_panics();
            Err(p.first().cloned().unwrap_or_else(|| "panic".into()))
        }
    }
}

/// At most `n` bytes of `s`
pub fn cut(s: &str, n: usize) -> &str {
    let mut k = n.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    &s[..k]
}

//! Coverage-guided search. A worker process of the build in which the library
//! is instrumented (`instrument.sh`) drives the strategies of the generated
//! checks with mutated byte strings and keeps those that reach new edges, new
//! edge counts or come closer to satisfying a comparison in the library.

use std::{
    arch::naked_asm,
    sync::atomic::{AtomicBool, AtomicU8, AtomicU64, AtomicUsize, Ordering::Relaxed},
};

// ------------------------------------------------------------ instrumentation

/// Edges of the library; the guards of the instrumented code hold their numbers.
const EDGES: usize = 1 << 16;
static HITS: [AtomicU8; EDGES] = [const { AtomicU8::new(0) }; EDGES];
static N_EDGES: AtomicUsize = AtomicUsize::new(0);

/// Only one thread runs the library while comparisons are recorded.
static RECORD: AtomicBool = AtomicBool::new(false);
const CMP_BITS: usize = 20;
static CMP_SEEN: [AtomicU64; 1 << (CMP_BITS - 6)] = [const { AtomicU64::new(0) }; 1 << (CMP_BITS - 6)];
static CMP_NEW: AtomicUsize = AtomicUsize::new(0);
/// Operands of recent failed comparisons.
const OPERANDS: usize = 256;
static OPERAND: [AtomicU64; OPERANDS] = [const { AtomicU64::new(0) }; OPERANDS];
static OPERAND_POS: AtomicUsize = AtomicUsize::new(0);

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            if *p == 0 {
                let n = N_EDGES.load(Relaxed);
                *p = n.min(EDGES - 1) as u32 + 1;
                N_EDGES.store(n + 1, Relaxed);
            }
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *const u32) {
    if RECORD.load(Relaxed) {
        let c = &HITS[unsafe { *guard } as usize - 1];
        c.store(c.load(Relaxed).saturating_add(1), Relaxed);
    }
}

fn cmp_feature(f: u64) {
    let h = f.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - CMP_BITS);
    let (w, b) = (&CMP_SEEN[h as usize / 64], 1u64 << (h % 64));
    if w.load(Relaxed) & b == 0 {
        w.store(w.load(Relaxed) | b, Relaxed);
        CMP_NEW.store(CMP_NEW.load(Relaxed) + 1, Relaxed);
    }
}

extern "C" fn compare(a: u64, b: u64, pc: u64) {
    if !RECORD.load(Relaxed) {
        return;
    }
    cmp_feature((pc << 8) ^ u64::from((a ^ b).count_ones()));
    cmp_feature((pc << 8) ^ 0x80 ^ u64::from(64 - a.abs_diff(b).leading_zeros()));
    if a != b && (a > 255 || b > 255) {
        let p = OPERAND_POS.load(Relaxed);
        OPERAND[p % OPERANDS].store(a, Relaxed);
        OPERAND[(p + 1) % OPERANDS].store(b, Relaxed);
        OPERAND_POS.store(p + 2, Relaxed);
    }
}

extern "C" fn switch(val: u64, cases: *const u64, pc: u64) {
    if !RECORD.load(Relaxed) {
        return;
    }
    let n = unsafe { *cases } as usize;
    for i in 0..n.min(80) {
        compare(val, unsafe { *cases.add(2 + i) }, pc.wrapping_add(i as u64));
    }
}

macro_rules! hook {
    ($($name:ident $shrink_a:literal $shrink_b:literal;)*) => {$(
        #[unsafe(naked)]
        #[unsafe(no_mangle)]
        extern "C" fn $name() {
            naked_asm!($shrink_a, $shrink_b, "mov rdx, [rsp]", "jmp {}", sym compare)
        }
    )*};
}

hook! {
    __sanitizer_cov_trace_cmp1 "movzx edi, dil" "movzx esi, sil";
    __sanitizer_cov_trace_cmp2 "movzx edi, di" "movzx esi, si";
    __sanitizer_cov_trace_cmp4 "mov edi, edi" "mov esi, esi";
    __sanitizer_cov_trace_cmp8 "" "";
    __sanitizer_cov_trace_const_cmp1 "movzx edi, dil" "movzx esi, sil";
    __sanitizer_cov_trace_const_cmp2 "movzx edi, di" "movzx esi, si";
    __sanitizer_cov_trace_const_cmp4 "mov edi, edi" "mov esi, esi";
    __sanitizer_cov_trace_const_cmp8 "" "";
}

#[unsafe(naked)]
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_switch() {
    naked_asm!("mov rdx, [rsp]", "jmp {}", sym switch)
}

pub fn instrumented() -> bool {
    N_EDGES.load(Relaxed) > 0
}

fn hits() -> &'static [AtomicU8] {
    &HITS[..N_EDGES.load(Relaxed).min(EDGES)]
}

/// Records one run of the library; true if it did something new.
pub struct Coverage {
    seen: Vec<u8>,
    pub features: u64,
}

impl Coverage {
    pub fn new() -> Self {
        CMP_SEEN.iter().for_each(|w| w.store(0, Relaxed));
        Coverage {
            seen: vec![0; hits().len()],
            features: 0,
        }
    }
    pub fn begin(&self) {
        hits().iter().for_each(|h| h.store(0, Relaxed));
        CMP_NEW.store(0, Relaxed);
        RECORD.store(true, Relaxed);
    }
    pub fn end(&mut self) -> bool {
        RECORD.store(false, Relaxed);
        let mut new = CMP_NEW.load(Relaxed) as u64;
        for (h, seen) in hits().iter().zip(&mut self.seen) {
            let bucket = match h.load(Relaxed) {
                0 => continue,
                1 => 1,
                2 => 2,
                3 => 4,
                4..8 => 8,
                8..16 => 16,
                16..32 => 32,
                32..128 => 64,
                _ => 128u8,
            };
            if *seen & bucket == 0 {
                *seen |= bucket;
                new += 1;
            }
        }
        self.features += new;
        new > 0
    }
}

// ------------------------------------------------------------------ mutations

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

const MAX_LEN: usize = 1 << 16;

pub struct Corpus {
    /// contents, without the eight bytes that seed the continuation
    items: Vec<Vec<u8>>,
}

impl Corpus {
    pub fn new() -> Self {
        Corpus { items: vec![] }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn add(&mut self, mut data: Vec<u8>, used: usize) {
        data.truncate(used);
        self.items.push(data);
    }
    /// Prefers recent and short ones.
    fn pick(&self, r: &mut Rng) -> &Vec<u8> {
        let n = self.items.len();
        let mut one = || &self.items[if r.below(2) == 0 { n - 1 - r.below(n.min(50)) } else { r.below(n) }];
        let (a, b) = (one(), one());
        if (a.len() <= b.len()) == (r.below(3) > 0) { a } else { b }
    }
    /// The next byte string to try.
    pub fn next(&self, r: &mut Rng) -> Vec<u8> {
        let mut v = if self.items.is_empty() || r.below(16) == 0 {
            (0..512).flat_map(|_| r.next().to_le_bytes()).collect()
        } else {
            let mut v = self.pick(r).clone();
            let mut n = 1;
            while n < 8 && r.below(5) < 3 {
                n += 1;
            }
            for _ in 0..n {
                self.mutate(&mut v, r);
            }
            v
        };
        v.truncate(MAX_LEN);
        // a stretch of fresh bytes that becomes mutable, then the seed of the rest
        v.extend((0..9).flat_map(|_| r.next().to_le_bytes()));
        v
    }
    fn mutate(&self, v: &mut Vec<u8>, r: &mut Rng) {
        if v.len() < 8 {
            v.extend(r.next().to_le_bytes());
            return;
        }
        let words = v.len() / 4;
        let at = r.below(words) * 4;
        let old = u32::from_le_bytes(v[at..at + 4].try_into().unwrap());
        let put = |v: &mut Vec<u8>, x: u32| v[at..at + 4].copy_from_slice(&x.to_le_bytes());
        match r.below(13) {
            0 | 1 => put(v, r.next() as u32),
            2 => put(v, old ^ 1 << r.below(32)),
            3 => put(v, old.wrapping_add(r.below(33) as u32).wrapping_sub(16)),
            4 => {
                let w = u32::from(crate::dict::dict().words[r.below(crate::dict::dict().words.len())]);
                put(v, if r.below(2) == 0 { w } else { old & 0xFFFF_0000 | w });
            }
            5 | 6 => {
                let x = OPERAND[r.below(OPERANDS)].load(Relaxed);
                match r.below(4) {
                    0 => put(v, x as u32),
                    1 => put(v, (x as u16).swap_bytes().into()),
                    2 if at + 8 <= v.len() => v[at..at + 8].copy_from_slice(&x.to_le_bytes()),
                    _ => put(v, old & 0xFFFF_0000 | u32::from(x as u16)),
                }
            }
            // the same value somewhere else
            7 => {
                let to = r.below(words) * 4;
                v.copy_within(at..at + 4, to);
            }
            // crossover with another one at the same place
            8 => {
                let other = self.pick(r);
                if other.len() > at {
                    let len = if r.below(2) == 0 { 4 << r.below(8) } else { other.len() };
                    let end = (at + len).min(other.len());
                    v.resize(v.len().max(end), 0);
                    v[at..end].copy_from_slice(&other[at..end]);
                }
            }
            // remove, insert, repeat
            9 => {
                let end = (at + (4 << r.below(6))).min(v.len());
                v.drain(at..end);
            }
            10 => {
                let n = 1 << r.below(5);
                let new: Vec<u8> = (0..n).flat_map(|_| (r.next() as u32).to_le_bytes()).collect();
                v.splice(at..at, new);
            }
            11 => {
                let other = self.pick(r);
                let from = r.below(other.len() / 4 + 1) * 4;
                let end = (from + (4 << r.below(7))).min(other.len());
                v.splice(at..at, other[from..end].to_vec());
            }
            // everything behind
            _ => v.truncate(at),
        }
    }
}

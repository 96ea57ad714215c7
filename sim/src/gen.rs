//! Keys, values and trees. Everything is drawn from the choice sequence.
use crate::trie::Map;
use simrt::ctx::ctx;

pub struct Gen {
    alphabet: &'static [u8],
    pool: Vec<Vec<u8>>,
    vseq: u64,
    long: u64,
    pub max_val: usize,
    pub max_key: usize,
    /// lengths beyond 16 bits
    pub big: bool,
}

const ALPHABETS: [&[u8]; 7] = [b"ab", b"abc", b"a", &[0, 255], b"abcdefghijklmnop", &[0, 1, 127, 128, 255], b"01234567"];
/// around the sizes where the representation changes
const EDGE: [usize; 16] = [7, 8, 9, 126, 127, 128, 129, 15, 16, 63, 64, 254, 255, 256, 300, 125];
const BIG: [usize; 5] = [65536, 32768, 65535 - 4, 70000, 131072];

impl Gen {
    pub fn new(max_key: usize, max_val: usize) -> Gen {
        let c = ctx();
        let alphabet = ALPHABETS[c.weighted(&[10, 6, 3, 3, 4, 3, 2])];
        // how often long segments appear
        let long = *c.pick(&[12u64, 4, 1000, 30]);
        Gen { alphabet, pool: vec![], vseq: 0, long, max_val, max_key, big: false }
    }
    fn byte(&self) -> u8 {
        *ctx().pick(self.alphabet)
    }
    fn short(&self, max: u64) -> Vec<u8> {
        let n = ctx().draw(max + 1);
        (0..n).map(|_| self.byte()).collect()
    }
    fn edge(&self) -> usize {
        let c = ctx();
        let e = *c.pick(&EDGE);
        if self.big && c.chance(1, 6) {
            c.count("op.big");
            return *c.pick(&BIG) - 1 + c.draw(3) as usize;
        }
        (e as i64 + c.draw(3) as i64 - 1) as usize
    }
    /// a fresh or derived key
    pub fn key(&mut self) -> Vec<u8> {
        let c = ctx();
        let mut k = match c.weighted(&[10, if self.pool.is_empty() { 0 } else { 10 }, 1]) {
            0 => self.short(5),
            1 => {
                let mut k = c.pick(&self.pool).clone();
                match c.weighted(&[4, 6, 4, 4, 2]) {
                    0 => {}
                    1 => k.extend(self.short(4)),
                    2 => {
                        let n = c.draw(k.len() as u64 + 1) as usize;
                        k.truncate(n);
                    }
                    3 => {
                        // diverge somewhere
                        let n = c.draw(k.len() as u64 + 1) as usize;
                        k.truncate(n);
                        k.push(self.byte());
                        k.extend(self.short(2));
                    }
                    _ => {
                        if let Some(l) = k.last_mut() {
                            *l = self.alphabet[0];
                        }
                    }
                }
                k
            }
            _ => vec![],
        };
        if c.chance(1, self.long) {
            let b = self.byte();
            let n = self.edge();
            let at = c.draw(k.len() as u64 + 1) as usize;
            let tail = k.split_off(at);
            k.resize(at + n, b);
            if c.chance(1, 2) {
                k.extend(tail);
            }
        }
        if k.len() > self.max_key {
            k.truncate(self.max_key);
        }
        if self.pool.len() < 40 {
            self.pool.push(k.clone());
        } else {
            let i = c.draw(40) as usize;
            self.pool[i] = k.clone();
        }
        k
    }
    /// a key for a query or removal: mostly one that is there, or close to one
    pub fn probe(&mut self, m: &Map) -> Vec<u8> {
        let c = ctx();
        if m.is_empty() || c.chance(1, 6) {
            return self.key();
        }
        let i = c.draw(m.len() as u64) as usize;
        let mut k = m.keys().nth(i).unwrap().clone();
        match c.weighted(&[10, 3, 3, 2]) {
            0 => {}
            1 => {
                let n = c.draw(k.len() as u64 + 1) as usize;
                k.truncate(n);
            }
            2 => k.push(self.byte()),
            _ => {
                if !k.is_empty() {
                    let n = c.draw(k.len() as u64) as usize;
                    k[n] = self.byte();
                }
            }
        }
        k
    }
    /// a prefix: ends at, inside or beyond keys
    pub fn prefix(&mut self, m: &Map) -> Vec<u8> {
        let c = ctx();
        if m.is_empty() || c.chance(1, 10) {
            return self.key();
        }
        let i = c.draw(m.len() as u64) as usize;
        let mut k = m.keys().nth(i).unwrap().clone();
        match c.weighted(&[6, 3, 2, 2, 1]) {
            0 => {
                let n = if k.len() > 20 && c.chance(1, 2) { k.len() as u64 - c.draw(10) } else { c.draw(k.len() as u64 + 1) } as usize;
                k.truncate(n);
            }
            1 => {}
            2 => k.push(self.byte()),
            3 => {
                if !k.is_empty() {
                    let n = c.draw(k.len() as u64) as usize;
                    k.truncate(n + 1);
                    k[n] = self.byte();
                }
            }
            _ => k.clear(),
        }
        k
    }
    pub fn value(&mut self) -> Vec<u8> {
        let c = ctx();
        self.vseq += 1;
        let len = match c.weighted(&[14, 5, 4, 6, 1]) {
            0 => 1 + c.draw(5) as usize,
            1 => 0,
            2 => 6 + c.draw(4) as usize,
            3 => self.edge(),
            _ => self.max_val.min(3000),
        }
        .min(self.max_val);
        self.value_of(len)
    }
    pub fn value_of(&mut self, len: usize) -> Vec<u8> {
        self.vseq += 1;
        let mut v = format!("{}.", self.vseq).into_bytes();
        while v.len() < len {
            let n = v.len() as u64;
            v.push((n.wrapping_mul(self.vseq + 7) % 251) as u8);
        }
        v.truncate(len);
        v
    }
    pub fn map(&mut self, max: u64) -> Map {
        let n = ctx().draw(max + 1);
        let mut m = Map::new();
        for _ in 0..n {
            ctx().span_start();
            let k = self.key();
            let v = self.value();
            m.insert(k, v);
            ctx().span_end();
        }
        m
    }
    /// a prefix under which many children hang
    pub fn fan(&mut self) -> Vec<(Vec<u8>, Vec<u8>)> {
        let c = ctx();
        let base = if c.chance(1, 2) { self.key() } else { vec![] };
        if c.chance(1, 6) {
            return self.chain(base);
        }
        let n = *c.pick(&[4u64, 17, 64, 256, 255]);
        let from = c.draw(257 - n.min(256));
        let tail = self.short(2);
        let vl = *c.pick(&[0usize, 1, 3, 9]);
        (0..n)
            .map(|i| {
                let mut k = base.clone();
                k.push((from + i) as u8);
                k.extend(&tail);
                k.truncate(self.max_key.max(1));
                let v = self.value_of(vl);
                (k, v)
            })
            .collect()
    }
    /// keys that are prefixes of each other: a deep tree
    fn chain(&mut self, base: Vec<u8>) -> Vec<(Vec<u8>, Vec<u8>)> {
        let c = ctx();
        c.count("op.chain");
        let mut n = *c.pick(&[20usize, 10, 20, 60, 20, 10, 130, 40, 20, 260, 20, 40]);
        if self.big && c.chance(1, 6) {
            c.count("op.deep_chain");
            c.max_steps += 20_000_000;
            n = *c.pick(&[1030usize, 520, 1100]);
        }
        let step = *c.pick(&[1usize, 1, 2, 3]);
        let b = self.byte();
        let vl = *c.pick(&[0usize, 1, 3, 9]);
        let mut k = base;
        let mut r = vec![];
        for _ in 0..n {
            k.resize(k.len() + step, b);
            if k.len() > self.max_key.max(step) {
                break;
            }
            r.push((k.clone(), self.value_of(vl)));
        }
        if r.is_empty() {
            r.push((vec![b], vec![]));
        }
        r
    }
}

//! Copy-on-write paged memory with an expression shadow per byte.
use crate::expr::E;
use std::rc::Rc;

pub const PS: usize = 4096;
#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[u32; PS]>>,
    pub nsym: u32,
}
impl Page {
    fn new() -> Page {
        Page { d: [0; PS], s: None, nsym: 0 }
    }
}
#[derive(Clone)]
pub struct Mem {
    pub pages: Vec<Option<Rc<Page>>>,
    pub lo: u64,
    pub hi: u64,
}
pub enum Ld {
    C(u64),
    S,
}
impl Mem {
    pub fn new(lo: u64, hi: u64) -> Mem {
        Mem { pages: vec![], lo, hi }
    }
    #[inline]
    pub fn ok(&self, a: u64, n: u64) -> bool {
        a >= self.lo && a.wrapping_add(n) <= self.hi && a.wrapping_add(n) >= a
    }
    /// concrete little-endian load of n<=8 bytes; S when any byte is symbolic
    #[inline]
    pub fn load(&self, a: u64, n: usize) -> Ld {
        let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
        if o + n <= PS {
            match self.pages.get(p) {
                Some(Some(pg)) => {
                    if pg.nsym > 0 {
                        let s = pg.s.as_ref().unwrap();
                        if s[o..o + n].iter().any(|&x| x != 0) {
                            return Ld::S;
                        }
                    }
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&pg.d[o..o + n]);
                    Ld::C(u64::from_le_bytes(b))
                }
                _ => Ld::C(0),
            }
        } else {
            let mut v = 0u64;
            for i in 0..n {
                let (b, s) = self.byte(a + i as u64);
                if s != 0 {
                    return Ld::S;
                }
                v |= (b as u64) << (8 * i);
            }
            Ld::C(v)
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> (u8, E) {
        let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
        match self.pages.get(p) {
            Some(Some(pg)) => (pg.d[o], if pg.nsym > 0 { pg.s.as_ref().unwrap()[o] } else { 0 }),
            _ => (0, 0),
        }
    }
    #[inline]
    fn page_mut(&mut self, p: usize) -> &mut Page {
        if p >= self.pages.len() {
            self.pages.resize(p + 1, None);
        }
        let e = &mut self.pages[p];
        if e.is_none() {
            *e = Some(Rc::new(Page::new()));
        }
        Rc::make_mut(e.as_mut().unwrap())
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: usize, v: u64) {
        let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
        if o + n <= PS {
            let pg = self.page_mut(p);
            pg.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if pg.nsym > 0 {
                let s = pg.s.as_mut().unwrap();
                for x in &mut s[o..o + n] {
                    if *x != 0 {
                        *x = 0;
                        pg.nsym -= 1;
                    }
                }
            }
        } else {
            for i in 0..n {
                self.store(a + i as u64, 1, (v >> (8 * i)) & 255);
            }
        }
    }
    pub fn store_sym(&mut self, a: u64, e: E) {
        let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
        let pg = self.page_mut(p);
        if pg.s.is_none() {
            pg.s = Some(Box::new([0; PS]));
        }
        let s = pg.s.as_mut().unwrap();
        if s[o] == 0 {
            pg.nsym += 1;
        }
        s[o] = e;
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        if n <= 512 {
            let mut bd = [0u8; 512];
            let mut bs = [0u32; 512];
            let sym = self.read_into(s, &mut bd[..n as usize], &mut bs[..n as usize]);
            self.write_both(d, &bd[..n as usize], if sym { Some(&bs[..n as usize]) } else { None });
        } else {
            let mut bd = vec![0u8; n as usize];
            let mut bs = vec![0u32; n as usize];
            let sym = self.read_into(s, &mut bd, &mut bs);
            self.write_both(d, &bd, if sym { Some(&bs) } else { None });
        }
    }
    fn read_into(&self, s: u64, bd: &mut [u8], bs: &mut [u32]) -> bool {
        let n = bd.len();
        let mut i = 0;
        let mut sym = false;
        while i < n {
            let a = s + i as u64;
            let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
            let k = (PS - o).min(n - i);
            if let Some(Some(pg)) = self.pages.get(p) {
                bd[i..i + k].copy_from_slice(&pg.d[o..o + k]);
                if pg.nsym > 0 {
                    sym = true;
                    bs[i..i + k].copy_from_slice(&pg.s.as_ref().unwrap()[o..o + k]);
                }
            }
            i += k;
        }
        sym
    }
    fn write_both(&mut self, d: u64, bd: &[u8], bs: Option<&[u32]>) {
        let bs = match bs {
            None => return self.write(d, bd),
            Some(b) => b,
        };
        let n = bd.len();
        let mut i = 0;
        while i < n {
            let a = d + i as u64;
            let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
            let k = (PS - o).min(n - i);
            let pg = self.page_mut(p);
            pg.d[o..o + k].copy_from_slice(&bd[i..i + k]);
            let add = bs[i..i + k].iter().filter(|x| **x != 0).count() as u32;
            if add > 0 && pg.s.is_none() {
                pg.s = Some(Box::new([0; PS]));
            }
            if let Some(s) = &mut pg.s {
                let old = s[o..o + k].iter().filter(|x| **x != 0).count() as u32;
                s[o..o + k].copy_from_slice(&bs[i..i + k]);
                pg.nsym = pg.nsym + add - old;
            }
            i += k;
        }
    }
    /// visit n bytes
    #[inline]
    pub fn each(&self, a: u64, n: u64, mut f: impl FnMut(u8, E)) {
        let mut i = 0;
        while i < n {
            let x = a + i;
            let (p, o) = ((x >> 12) as usize, (x & 4095) as usize);
            let k = ((PS - o) as u64).min(n - i) as usize;
            match self.pages.get(p) {
                Some(Some(pg)) => {
                    if pg.nsym > 0 {
                        let s = pg.s.as_ref().unwrap();
                        for j in 0..k {
                            f(pg.d[o + j], s[o + j])
                        }
                    } else {
                        for j in 0..k {
                            f(pg.d[o + j], 0)
                        }
                    }
                }
                _ => {
                    for _ in 0..k {
                        f(0, 0)
                    }
                }
            }
            i += k as u64;
        }
    }
    pub fn write(&mut self, d: u64, buf: &[u8]) {
        let n = buf.len() as u64;
        let mut i = 0u64;
        while i < n {
            let a = d + i;
            let (p, o) = ((a >> 12) as usize, (a & 4095) as usize);
            let k = ((PS - o) as u64).min(n - i) as usize;
            let pg = self.page_mut(p);
            pg.d[o..o + k].copy_from_slice(&buf[i as usize..i as usize + k]);
            if pg.nsym > 0 {
                let s = pg.s.as_mut().unwrap();
                for x in &mut s[o..o + k] {
                    if *x != 0 {
                        *x = 0;
                        pg.nsym -= 1;
                    }
                }
            }
            i += k as u64;
        }
    }
    pub fn fill(&mut self, d: u64, b: u8, n: u64) {
        let buf = vec![b; n as usize];
        self.write(d, &buf);
    }
}

//! Memory of a symbolic state: objects, copied on write.
use crate::expr::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<Option<(E, u8)>>>,
    pub ro: bool,
}
const CH: usize = 64;
type Chunk = Vec<Option<Arc<Obj>>>;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Arc<Chunk>>,
    free: Vec<u32>,
    next: u32,
}
#[derive(Clone)]
pub enum Byte {
    C(u8),
    S(E, u8),
}
pub type MR<X> = Result<X, String>;

impl Mem {
    pub fn new(base: Vec<Option<Arc<Obj>>>) -> Self {
        let mut m = Mem { chunks: vec![], free: vec![], next: base.len() as u32 };
        for c in base.chunks(CH) {
            let mut v = c.to_vec();
            v.resize(CH, None);
            m.chunks.push(Arc::new(v));
        }
        m
    }
    pub fn alloc(&mut self, size: u64) -> MR<u64> {
        if size > 1 << 26 { return Err(format!("allocation of {} bytes", size)); }
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                if self.chunks.len() * CH <= i as usize { self.chunks.push(Arc::new(vec![None; CH])); }
                i
            }
        };
        Arc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] =
            Some(Arc::new(Obj { data: vec![0; size as usize], sym: None, ro: false }));
        Ok((id as u64) << 32)
    }
    pub fn kill(&mut self, a: u64) -> MR<()> {
        let id = (a >> 32) as usize;
        if a as u32 != 0 || self.obj(a).is_none() { return Err(format!("free of invalid pointer {:#x}", a)); }
        Arc::make_mut(&mut self.chunks[id / CH])[id % CH] = None;
        self.free.push(id as u32);
        Ok(())
    }
    pub fn obj(&self, a: u64) -> Option<&Arc<Obj>> {
        let id = (a >> 32) as usize;
        self.chunks.get(id / CH)?.get(id % CH)?.as_ref()
    }
    pub fn check(&self, a: u64, n: u64) -> MR<&Arc<Obj>> {
        match self.obj(a) {
            Some(o) => {
                let off = a as u32 as u64;
                if off + n <= o.data.len() as u64 { Ok(o) } else { Err(format!("access of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len())) }
            }
            None => Err(format!("access through invalid pointer {:#x}", a)),
        }
    }
    pub fn obj_mut(&mut self, a: u64, n: u64) -> MR<&mut Obj> {
        self.check(a, n)?;
        let id = (a >> 32) as usize;
        let o = Arc::make_mut(Arc::make_mut(&mut self.chunks[id / CH])[id % CH].as_mut().unwrap());
        if o.ro && n > 0 { return Err("write to a constant".into()); }
        Ok(o)
    }
    pub fn resize(&mut self, a: u64, n: u64) -> MR<()> {
        let o = self.obj_mut(a, 0)?;
        o.data.resize(n as usize, 0);
        if let Some(s) = &mut o.sym { s.resize(n as usize, None); }
        Ok(())
    }
    pub fn byte(&self, a: u64) -> MR<Byte> {
        let o = self.check(a, 1)?;
        let off = a as u32 as usize;
        if let Some(s) = &o.sym { if let Some((e, k)) = &s[off] { return Ok(Byte::S(e.clone(), *k)); } }
        Ok(Byte::C(o.data[off]))
    }
    /// Concrete little-endian load of n <= 8 bytes, if all bytes are concrete.
    #[inline]
    pub fn load_c(&self, a: u64, n: u64) -> MR<Option<u64>> {
        let o = self.check(a, n)?;
        let off = a as u32 as usize;
        let n = n as usize;
        if let Some(s) = &o.sym { if s[off..off + n].iter().any(|x| x.is_some()) { return Ok(None); } }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Ok(Some(u64::from_le_bytes(b)))
    }
    pub fn load_e(&self, a: u64, n: u64) -> MR<E> {
        let o = self.check(a, n)?;
        let off = a as u32 as usize;
        let n = n as usize;
        let none = vec![None; 0];
        let s = o.sym.as_ref().unwrap_or(&none);
        let at = |k: usize| s.get(off + k).and_then(|x| x.as_ref());
        // whole expression
        if let Some((e, 0)) = at(0) {
            if e.w as usize == 8 * n && (1..n).all(|k| matches!(at(k), Some((f, i)) if f.id == e.id && *i as usize == k)) { return Ok(e.clone()); }
        }
        let part = |k: usize| match at(k) {
            Some((e, i)) => extract(e, 8 * *i as u32, 8),
            None => cst(o.data[off + k] as u128, 8),
        };
        let mut r = part(n - 1);
        for k in (0..n - 1).rev() { r = concat(&r, &part(k)); }
        Ok(r)
    }
    pub fn store_c(&mut self, a: u64, n: u64, v: &[u8]) -> MR<()> {
        let off = a as u32 as usize;
        let o = self.obj_mut(a, n)?;
        let n = n as usize;
        o.data[off..off + n].copy_from_slice(&v[..n]);
        if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = None; } }
        Ok(())
    }
    pub fn store_e(&mut self, a: u64, n: u64, e: &E) -> MR<()> {
        let off = a as u32 as usize;
        let o = self.obj_mut(a, n)?;
        let len = o.data.len();
        let s = o.sym.get_or_insert_with(|| vec![None; len]);
        let e = if (e.w as u64) < 8 * n { zext(e, 8 * n as u32) } else { e.clone() };
        for k in 0..n as usize {
            let b = extract(&e, 8 * k as u32, 8);
            if let Some(v) = b.c() { o.data[off + k] = v as u8; s[off + k] = None; } else { s[off + k] = Some((e.clone(), k as u8)); }
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        let so = self.check(s, n)?.clone();
        let soff = s as u32 as usize;
        let doff = d as u32 as usize;
        let n_ = n as usize;
        let o = self.obj_mut(d, n)?;
        o.data[doff..doff + n_].copy_from_slice(&so.data[soff..soff + n_]);
        let any = so.sym.as_ref().map_or(false, |v| v[soff..soff + n_].iter().any(|x| x.is_some()));
        if any {
            let len = o.data.len();
            let t = o.sym.get_or_insert_with(|| vec![None; len]);
            let v = so.sym.as_ref().unwrap();
            for k in 0..n_ { t[doff + k] = v[soff + k].clone(); }
        } else if let Some(t) = &mut o.sym {
            for x in &mut t[doff..doff + n_] { *x = None; }
        }
        Ok(())
    }
    pub fn live(&self) -> usize { self.next as usize - self.free.len() }
}

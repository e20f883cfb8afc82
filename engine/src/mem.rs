//! Object memory with copy-on-write sharing between states.

use crate::expr::Ex;
use crate::ll::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Per byte: 0 concrete, 1 uninitialised, otherwise an 8-bit expression. Empty: all concrete.
    pub sym: Vec<Ex>,
    pub kind: Kind,
}

impl Obj {
    pub fn all_concrete(&self, off: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[off..off + n].iter().all(|&e| e == 0)
    }
    pub fn need_sym(&mut self) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
    }
}

pub const OFF0: u64 = 0x1000;
pub const ID0: u64 = 16;
const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    n: usize,
    free: std::collections::VecDeque<u32>,
    pub heap_live: u64,
    pub heap_bytes: u64,
}

pub enum Loc {
    Slot(usize, usize), // slot index, offset
    Const(usize, usize), // constant global, offset
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: Vec::new(), n: 0, free: Default::default(), heap_live: 0, heap_bytes: 0 }
    }
    pub fn add(&mut self, o: Obj) -> usize {
        if o.kind == Kind::Heap {
            self.heap_live += 1;
            self.heap_bytes += o.data.len() as u64;
        }
        let id = if self.free.len() > 512 {
            self.free.pop_front().unwrap() as usize
        } else {
            let id = self.n;
            self.n += 1;
            if id / CH >= self.chunks.len() {
                self.chunks.push(Rc::new(vec![None; CH]));
            }
            id
        };
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = Some(Rc::new(o));
        id
    }
    pub fn alloc(&mut self, size: u64, kind: Kind, init: Option<u8>) -> u64 {
        let o = match init {
            None => Obj { data: vec![0; size as usize], sym: vec![1; size as usize], kind },
            Some(b) => Obj { data: vec![b; size as usize], sym: Vec::new(), kind },
        };
        let id = self.add(o);
        Self::addr(id)
    }
    pub fn addr(id: usize) -> u64 {
        ((id as u64 + ID0) << 32) + OFF0
    }
    pub fn get(&self, id: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(id / CH).and_then(|c| c[id % CH].as_ref())
    }
    pub fn get_mut(&mut self, id: usize) -> &mut Obj {
        Rc::make_mut(Rc::make_mut(&mut self.chunks[id / CH])[id % CH].as_mut().unwrap())
    }
    pub fn release(&mut self, id: usize) {
        let c = Rc::make_mut(&mut self.chunks[id / CH]);
        if let Some(o) = &c[id % CH] {
            if o.kind == Kind::Heap {
                self.heap_live -= 1;
                self.heap_bytes -= o.data.len() as u64;
            }
        }
        c[id % CH] = None;
        self.free.push_back(id as u32);
    }
    /// Finds the object an access of `n` bytes at `addr` falls into.
    #[inline]
    pub fn locate(&self, m: &Module, gslot: &[u32], addr: u64, n: u64) -> Result<Loc, String> {
        let hi = addr >> 32;
        if hi >= ID0 {
            let id = (hi - ID0) as usize;
            let off = (addr & 0xffff_ffff).wrapping_sub(OFF0);
            match self.get(id) {
                Some(o) => {
                    if off.wrapping_add(n) <= o.data.len() as u64 && off <= o.data.len() as u64 {
                        Ok(Loc::Slot(id, off as usize))
                    } else {
                        Err(format!("out of bounds: {} bytes at offset {} of a {:?} object of {} bytes", n, off as i64, o.kind, o.data.len()))
                    }
                }
                None => Err(if id < self.n { "use after free (or after the end of a stack frame)".into() } else { "wild pointer".into() }),
            }
        } else if hi == 1 {
            let g = m.granule.get(((addr - GBASE) >> 4) as usize).copied().unwrap_or(0);
            if g == 0 {
                return Err("out of bounds of a global".into());
            }
            let gi = g as usize - 1;
            let g = &m.globals[gi];
            let off = addr - g.addr;
            if off + n > g.size {
                return Err(format!("out of bounds: {} bytes at offset {} of global {} of {} bytes", n, off, g.name, g.size));
            }
            if gslot[gi] != u32::MAX {
                Ok(Loc::Slot(gslot[gi] as usize, off as usize))
            } else {
                Ok(Loc::Const(gi, off as usize))
            }
        } else if hi == 0 {
            Err(format!("invalid pointer {:#x}", addr))
        } else {
            Err("data access to code".into())
        }
    }
}

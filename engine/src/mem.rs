//! Path state: frames, registers, memory objects.
use crate::expr::E;
use crate::ir::*;
use crate::pc::Pc;
use std::collections::HashMap;
use std::rc::Rc;

/// A memory object: concrete bytes with an optional overlay of symbolic ones
/// (0 marks a concrete byte).
#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None }
    }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|e| *e != 0),
        }
    }
    pub fn set_sym(&mut self, off: usize, e: E) {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])[off] = e;
        self.data[off] = 0;
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            s[off..off + n].iter_mut().for_each(|e| *e = 0);
        }
    }
}

pub const CH: usize = 64;
#[derive(Clone)]
pub struct Chunk(pub [Option<Rc<Obj>>; CH]);

#[derive(Clone, Default)]
pub struct Heap {
    pub chunks: Vec<Rc<Chunk>>,
    pub free: Vec<u32>,
    pub n: u32,
    pub live: u32,
}

impl Heap {
    pub fn alloc(&mut self, o: Obj) -> u64 {
        self.live += 1;
        let i = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.n;
                self.n += 1;
                if i as usize / CH >= self.chunks.len() {
                    self.chunks.push(Rc::new(Chunk(std::array::from_fn(|_| None))));
                }
                i
            }
        };
        Rc::make_mut(&mut self.chunks[i as usize / CH]).0[i as usize % CH] = Some(Rc::new(o));
        HBASE + i as u64
    }
    pub fn release(&mut self, id: u64) -> Option<Rc<Obj>> {
        let i = (id - HBASE) as usize;
        let o = Rc::make_mut(self.chunks.get_mut(i / CH)?).0[i % CH].take();
        if o.is_some() {
            self.free.push(i as u32);
            self.live -= 1;
        }
        o
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let i = (id - HBASE) as usize;
        self.chunks.get(i / CH)?.0[i % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Rc<Obj>> {
        let i = (id - HBASE) as usize;
        Rc::make_mut(self.chunks.get_mut(i / CH)?).0[i % CH].as_mut()
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub ip: u32,
    pub base: u32,
    pub dst: u32,
    pub normal: Option<&'static Edge>,
}

#[derive(Clone)]
pub enum Draw {
    Bytes(u32, u32), // first variable, count
    Int(u32),
    Choice(u32),
}

#[derive(Clone)]
pub struct State {
    pub entry: u32,
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub sobjs: Vec<Option<Rc<Obj>>>,
    pub heap: Heap,
    pub gov: HashMap<u32, Rc<Obj>>,
    pub pc: Pc,
    pub draws: Vec<Draw>,
    pub log: Vec<Val>,
    pub reach: u64,
    pub steps: u64,
    pub depth: u32,
    pub hashmode: u32,
}

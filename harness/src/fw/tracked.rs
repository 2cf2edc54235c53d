//! Items whose creation and drop are accounted for, per thread.
use std::cell::RefCell;

#[derive(Default)]
struct Reg {
    /// per id: number of live instances
    live: Vec<i64>,
    faults: Vec<String>,
    /// the item of this value panics when it is dropped, once
    bomb: Option<u32>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

const MAGIC: u32 = 0x7ac_ced;

/// An identity-carrying item. `origin` names the value, `id` the instance.
#[derive(Debug)]
pub struct Tracked {
    magic: u32,
    id: u32,
    pub val: u32,
    /// heap part, so that double drops and leaks also show in the allocator
    _heap: Box<u32>,
}

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}

/// the destructor of the item of this value panics, once; returns what was armed before
pub fn arm(val: Option<u32>) -> Option<u32> {
    REG.with(|r| std::mem::replace(&mut r.borrow_mut().bomb, val))
}
/// number of live instances
pub fn live() -> i64 {
    REG.with(|r| r.borrow().live.iter().sum())
}
/// faults seen since `reset`
pub fn faults() -> Vec<String> {
    REG.with(|r| r.borrow().faults.clone())
}
/// Ok if every instance was dropped exactly once.
pub fn settled() -> Result<(), String> {
    let f = faults();
    if let Some(f) = f.first() {
        return Err(format!("drop accounting: {f}"));
    }
    let l = live();
    if l != 0 {
        return Err(format!("drop accounting: {l} item(s) never dropped"));
    }
    Ok(())
}

impl Tracked {
    pub fn new(val: u32) -> Self {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.live.push(1);
            r.live.len() as u32 - 1
        });
        Tracked { magic: MAGIC, id, val, _heap: Box::new(val) }
    }
    /// the value, checked for being a live item
    pub fn get(&self) -> Result<u32, String> {
        if self.magic != MAGIC {
            return Err("item memory is not a live item".into());
        }
        let ok = REG.with(|r| r.borrow().live.get(self.id as usize).copied() == Some(1));
        if !ok {
            return Err(format!("item {} read after being dropped", self.val));
        }
        Ok(self.val)
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.val)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let magic = self.magic;
        let (id, val) = (self.id, self.val);
        let mut boom = false;
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            if magic == MAGIC && r.bomb == Some(val) && !std::thread::panicking() {
                r.bomb = None;
                boom = true;
            }
            if magic != MAGIC {
                r.faults.push("dropped memory that is not a live item".into());
                return;
            }
            match r.live.get_mut(id as usize) {
                Some(l) => {
                    *l -= 1;
                    if *l < 0 {
                        r.faults.push(format!("item {val} dropped twice"));
                    }
                }
                None => r.faults.push("dropped an unknown item".into()),
            }
        });
        if magic != MAGIC {
            // do not free a heap part that is garbage
            let b = std::mem::replace(&mut self._heap, Box::new(0));
            std::mem::forget(b);
        } else {
            self.magic = 0xdead;
        }
        if boom {
            panic!("the destructor of item {val}");
        }
    }
}

//! A hash of `Debug` output that does not depend on the order of the entries
//! of sets and maps, nor on addresses. Streams: needs no memory of its own.
use crate::rng::mix;
use std::fmt;

#[derive(Clone, Copy)]
struct Frame {
    unordered: bool,
    total: u64,
    item: u64,
}

pub struct Canon {
    stack: Vec<Frame>,
    quote: u8,
    escaped: bool,
    /// 0 none, 1 seen '0', 2 inside an address.
    addr: u8,
    prev_word: bool,
    pub text_len: u64,
}

impl Canon {
    pub fn new() -> Self {
        Self {
            stack: vec![Frame { unordered: false, total: 0, item: 0 }],
            quote: 0,
            escaped: false,
            addr: 0,
            prev_word: false,
            text_len: 0,
        }
    }
    fn put(&mut self, v: u64) {
        let f = self.stack.last_mut().expect("frame");
        f.item = (f.item ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    }
    fn end_item(&mut self) {
        let f = self.stack.last_mut().expect("frame");
        if f.unordered {
            f.total = f.total.wrapping_add(mix(f.item));
        } else {
            f.total = mix(f.total.rotate_left(1) ^ f.item);
        }
        f.item = 0;
    }
    fn byte(&mut self, b: u8) {
        if self.quote != 0 {
            self.put(u64::from(b));
            if self.escaped {
                self.escaped = false;
            } else if b == b'\\' {
                self.escaped = true;
            } else if b == self.quote {
                self.quote = 0;
            }
            return;
        }
        match self.addr {
            2 if b.is_ascii_hexdigit() => return,
            1 if b == b'x' => {
                self.addr = 2;
                self.put(0xadd2);
                return;
            }
            1 => {
                self.addr = 0;
                self.put(u64::from(b'0'));
            }
            _ => self.addr = 0,
        }
        if b == b'0' && !self.prev_word {
            self.addr = 1;
            self.prev_word = true;
            return;
        }
        self.prev_word = b.is_ascii_alphanumeric() || b == b'_';
        match b {
            b' ' => {}
            b'{' | b'[' | b'(' => {
                self.put(u64::from(b));
                self.stack.push(Frame { unordered: b == b'{', total: 0, item: 0 });
            }
            b'}' | b']' | b')' if self.stack.len() > 1 => {
                self.end_item();
                let f = self.stack.pop().expect("frame");
                self.put(f.total);
                self.put(u64::from(b));
            }
            b',' => self.end_item(),
            b'"' => {
                self.quote = b;
                self.put(u64::from(b));
            }
            _ => self.put(u64::from(b)),
        }
    }
    pub fn finish(mut self) -> u64 {
        self.byte(b' ');
        while self.stack.len() > 1 {
            self.end_item();
            let f = self.stack.pop().expect("frame");
            self.put(f.total);
        }
        self.end_item();
        self.stack[0].total
    }
}

impl fmt::Write for Canon {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.text_len += s.len() as u64;
        for b in s.bytes() {
            self.byte(b);
        }
        Ok(())
    }
}

pub fn hash(v: &dyn fmt::Debug) -> u64 {
    let mut c = Canon::new();
    let _ = fmt::write(&mut c, format_args!("{v:?}"));
    c.finish()
}

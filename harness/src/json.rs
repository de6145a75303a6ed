//! Minimal JSON values, written one event per line.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(i64),
    B(bool),
    S(String),
    A(Vec<V>),
    O(Vec<(&'static str, V)>),
}

pub fn n<T: TryInto<i64>>(x: T) -> V {
    V::N(x.try_into().ok().unwrap())
}
pub fn b(x: bool) -> V {
    V::B(x)
}
pub fn s<T: Into<String>>(x: T) -> V {
    V::S(x.into())
}
pub fn a<I: IntoIterator<Item = V>>(x: I) -> V {
    V::A(x.into_iter().collect())
}
pub fn opt(x: Option<V>) -> V {
    V::A(x.into_iter().collect())
}

impl V {
    pub fn write(&self, o: &mut String) {
        match self {
            V::N(x) => write!(o, "{}", x).unwrap(),
            V::B(x) => write!(o, "{}", x).unwrap(),
            V::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                            let mut buf = [0u16; 2];
                            for u in c.encode_utf16(&mut buf) {
                                write!(o, "\\u{:04x}", u).unwrap();
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            V::A(x) => {
                o.push('[');
                for (i, v) in x.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.write(o);
                }
                o.push(']');
            }
            V::O(x) => {
                o.push('{');
                for (i, (k, v)) in x.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", k).unwrap();
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
}

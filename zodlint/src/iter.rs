//! Lazy iterators over abstract values.
use crate::interp::{Ctl, Interp, R};
use crate::value::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

pub enum It {
    Buf(VecDeque<V>),
    Range(i128, Option<i128>),
    Map(Box<It>, V),
    Filter(Box<It>, V, bool),
    FilterMap(Box<It>, V),
    FlatMap(Box<It>, Option<V>, Option<Box<It>>),
    Enumerate(Box<It>, i128),
    Zip(Box<It>, Box<It>),
    Chain(Option<Box<It>>, Box<It>),
    Skip(Box<It>, usize),
    Take(Box<It>, usize),
    SkipWhile(Box<It>, V, bool),
    TakeWhile(Box<It>, V, bool),
    MapWhile(Box<It>, V),
    StepBy(Box<It>, usize, bool),
    Peek(Box<It>, Option<Option<V>>),
    Inspect(Box<It>, V),
    Scan(Box<It>, Rc<RefCell<V>>, V),
    Repeat(V),
    Successors(Option<V>, V),
    FromFn(V),
    Cycle(Vec<V>, usize),
    Shared(Rc<RefCell<It>>),
    /// open sequence of the environment: every step is decided
    Open(String, String, usize, usize),
    User(Place),
    Busy,
}

impl It {
    pub fn buf(v: Vec<V>) -> It {
        It::Buf(v.into())
    }
}

pub fn wrap(it: It) -> V {
    V::Iter(Rc::new(RefCell::new(it)))
}

pub fn next_shared(ip: &mut Interp, rc: &Rc<RefCell<It>>) -> R<Option<V>> {
    let mut it = std::mem::replace(&mut *rc.borrow_mut(), It::Busy);
    let r = next(ip, &mut it);
    *rc.borrow_mut() = it;
    r
}

pub fn next(ip: &mut Interp, it: &mut It) -> R<Option<V>> {
    ip.tick()?;
    Ok(match it {
        It::Buf(b) => b.pop_front(),
        It::Range(a, e) => {
            if e.map(|e| *a < e).unwrap_or(true) {
                *a += 1;
                Some(V::Int(*a - 1))
            } else {
                None
            }
        }
        It::Map(i, f) => match next(ip, i)? {
            Some(v) => Some(ip.call_value(f, vec![v])?),
            None => None,
        },
        It::Filter(i, f, keep) => loop {
            match next(ip, i)? {
                Some(v) => {
                    let r = ip.call_value(f, vec![v.clone()])?;
                    if ip.truth(&r)? == *keep {
                        break Some(v);
                    }
                }
                None => break None,
            }
        },
        It::FilterMap(i, f) => loop {
            match next(ip, i)? {
                Some(v) => {
                    let r = ip.call_value(f, vec![v])?;
                    if let Some(x) = ip.as_option(&r)? {
                        break Some(x);
                    }
                }
                None => break None,
            }
        },
        It::FlatMap(i, f, cur) => loop {
            if let Some(c) = cur {
                if let Some(v) = next(ip, c)? {
                    break Some(v);
                }
                *cur = None;
            }
            match next(ip, i)? {
                Some(v) => {
                    let r = match f {
                        Some(f) => ip.call_value(f, vec![v])?,
                        None => v,
                    };
                    *cur = Some(Box::new(ip.into_it(r)?));
                }
                None => break None,
            }
        },
        It::Enumerate(i, n) => match next(ip, i)? {
            Some(v) => {
                *n += 1;
                Some(tuple(vec![V::Int(*n - 1), v]))
            }
            None => None,
        },
        It::Zip(a, b) => match next(ip, a)? {
            Some(x) => match next(ip, b)? {
                Some(y) => Some(tuple(vec![x, y])),
                None => None,
            },
            None => None,
        },
        It::Chain(a, b) => {
            if let Some(i) = a {
                if let Some(v) = next(ip, i)? {
                    return Ok(Some(v));
                }
                *a = None;
            }
            next(ip, b)?
        }
        It::Skip(i, n) => {
            while *n > 0 {
                *n -= 1;
                if next(ip, i)?.is_none() {
                    return Ok(None);
                }
            }
            next(ip, i)?
        }
        It::Take(i, n) => {
            if *n == 0 {
                None
            } else {
                *n -= 1;
                next(ip, i)?
            }
        }
        It::SkipWhile(i, f, started) => {
            if *started {
                next(ip, i)?
            } else {
                loop {
                    match next(ip, i)? {
                        Some(v) => {
                            let r = ip.call_value(f, vec![v.clone()])?;
                            if !ip.truth(&r)? {
                                *started = true;
                                break Some(v);
                            }
                        }
                        None => break None,
                    }
                }
            }
        }
        It::TakeWhile(i, f, done) => {
            if *done {
                None
            } else {
                match next(ip, i)? {
                    Some(v) => {
                        let r = ip.call_value(f, vec![v.clone()])?;
                        if ip.truth(&r)? {
                            Some(v)
                        } else {
                            *done = true;
                            None
                        }
                    }
                    None => None,
                }
            }
        }
        It::MapWhile(i, f) => match next(ip, i)? {
            Some(v) => {
                let r = ip.call_value(f, vec![v])?;
                ip.as_option(&r)?
            }
            None => None,
        },
        It::StepBy(i, n, first) => {
            if *first {
                *first = false;
                next(ip, i)?
            } else {
                for _ in 1..*n {
                    if next(ip, i)?.is_none() {
                        return Ok(None);
                    }
                }
                next(ip, i)?
            }
        }
        It::Peek(i, p) => match p.take() {
            Some(v) => v,
            None => next(ip, i)?,
        },
        It::Inspect(i, f) => match next(ip, i)? {
            Some(v) => {
                ip.call_value(f, vec![v.clone()])?;
                Some(v)
            }
            None => None,
        },
        It::Scan(i, st, f) => match next(ip, i)? {
            Some(v) => {
                let r = ip.call_value(f, vec![V::Ref(Place { cell: st.clone(), proj: vec![] }), v])?;
                ip.as_option(&r)?
            }
            None => None,
        },
        It::Repeat(v) => Some(v.clone()),
        It::Successors(cur, f) => match cur.take() {
            Some(v) => {
                let n = ip.call_value(f, vec![v.clone()])?;
                *cur = ip.as_option(&n)?;
                Some(v)
            }
            None => None,
        },
        It::FromFn(f) => {
            let r = ip.call_value(f, vec![])?;
            ip.as_option(&r)?
        }
        It::Cycle(v, i) => {
            if v.is_empty() {
                None
            } else {
                *i += 1;
                Some(v[(*i - 1) % v.len()].clone())
            }
        }
        It::Shared(rc) => next_shared(ip, rc)?,
        It::Open(key, ety, n, max) => {
            let k = format!("{key}#{}", *n);
            if *n >= *max {
                return Err(Ctl::Cut(format!("{key}: more than {max} items")));
            }
            if ip.decide(&format!("has({k})"), &["no", "yes"])? == 1 {
                *n += 1;
                Some(symv(&k, ety))
            } else {
                None
            }
        }
        It::User(p) => {
            let v = V::Ref(p.clone());
            let r = ip.method(v, "next", vec![], &[], None, 0)?;
            ip.as_option(&r)?
        }
        It::Busy => return Err(Ctl::Top("re-entrant iterator".into())),
    })
}

pub fn drain(ip: &mut Interp, it: &mut It) -> R<Vec<V>> {
    let mut out = Vec::new();
    while let Some(v) = next(ip, it)? {
        out.push(v);
        if out.len() > 4096 {
            return Err(Ctl::Top("unbounded iterator".into()));
        }
    }
    Ok(out)
}

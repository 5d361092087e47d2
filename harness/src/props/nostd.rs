//! C27: the message core without heap, without std, and identically with them
use crate::driver::{self, NAMES, SECTIONS};
use crate::ensure;
use crate::gen;
use crate::props::codec;
use crate::util::alloc;
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, Ctx, Slot};
use crate::util::show;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

struct Other {
    name: String,
    child: Child,
}
impl Other {
    fn start(path: &str) -> Other {
        let child = Command::new(path).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("cannot start the no_std program");
        Other { name: path.rsplit('/').nth(1).unwrap_or("?").to_string(), child }
    }
    fn ask(&mut self, input: &[u8]) -> Result<[u64; SECTIONS], String> {
        let mut go = || -> std::io::Result<[u64; SECTIONS]> {
            let mut m = (input.len() as u32).to_le_bytes().to_vec();
            m.extend(input);
            self.child.stdin.as_mut().unwrap().write_all(&m)?;
            let mut b = [0u8; 8 * SECTIONS];
            self.child.stdout.as_mut().unwrap().read_exact(&mut b)?;
            let mut d = [0; SECTIONS];
            for (x, y) in d.iter_mut().zip(b.chunks(8)) {
                *x = u64::from_le_bytes(y.try_into().unwrap());
            }
            Ok(d)
        };
        go().map_err(|e| {
            let _ = self.child.kill();
            format!("the program without std ({}) does not answer ({}): {:?}", self.name, e, self.child.wait())
        })
    }
}

pub fn input(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0..=2 => gen::parser_input(r),
        3..=4 => {
            let (t, a) = codec::typedish(r);
            gen::wire(&t, &a)
        }
        5 => {
            let (t, a) = codec::typedish(r);
            let mut v = gen::wire(&t, &a);
            gen::mutate(r, &mut v);
            v
        }
        6 => {
            let (t, a) = gen::message(r, 1024);
            gen::wire(&t, &a)
        }
        7 => gen::identish(r).into_bytes(),
        8 => gen::arg(r, 64),
        9 => codec::int(r).to_string().into_bytes(),
        10 => {
            let mut v = vec![];
            for _ in 0..1 + r.below(4) {
                let (t, a) = if r.chance(1, 2) { gen::message(r, 300) } else { codec::typedish(r) };
                v.extend(gen::wire(&t, &a));
            }
            v
        }
        _ => {
            let n = gen::boundary_len(r, 1500);
            r.bytes(n)
        }
    }
}

pub fn c27(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "one input (bytes taken as a message stream, an argument, an identifier and a recipe for a message); distinct by its bytes".into();
    let paths = std::env::var("VT6_NOSTD").unwrap_or_default();
    let mut others: Vec<Other> = paths.split(':').filter(|p| !p.is_empty()).map(Other::start).collect();
    assert!(!others.is_empty(), "VT6_NOSTD names no program");
    run_cases(ctx, obs, slot, u64::MAX / 2, |_, r, obs| {
        for _ in 0..20 {
            let v = input(r);
            if v.len() > driver::MAX {
                continue;
            }
            obs.current = show(&v);
            let before = alloc::count();
            let res = guard(|| {
                let d = driver::run(&v);
                (d, alloc::count())
            });
            let (d, after) = match res {
                Ok(x) => x,
                Err(e) => {
                    // panics are another property's business, but both programs have to agree on them
                    obs.count("panics", 1);
                    for o in &mut others {
                        if o.ask(&v).is_ok() {
                            return Err(format!("with std, there is a panic ({}), without std ({}) there is none", e, o.name));
                        }
                        *o = Other::start(&paths.split(':').find(|p| p.contains(&format!("/{}/", o.name))).unwrap().to_string());
                    }
                    continue;
                }
            };
            ensure!(after == before, "{} heap allocations while the message core handles one input", after - before);
            for o in &mut others {
                let w = o.ask(&v)?;
                for k in 0..SECTIONS {
                    ensure!(w[k] == d[k], "the results of {} differ between std and no_std ({})", NAMES[k], o.name);
                }
                obs.count(&format!("inputs_compared_with_no_std_{}", o.name), 1);
            }
            obs.count("inputs", 1);
            obs.count("input_bytes", v.len() as u64);
            if vt6::common::core::msg::Message::parse(&v).is_ok() {
                obs.count("inputs_which_are_messages", 1);
            }
            obs.case(Some(fnv(&v)));
            obs.sample(|| J::s(show(&v)));
        }
        Ok(())
    });
    for o in &mut others {
        drop(o.child.stdin.take());
        let _ = o.child.wait();
    }
}

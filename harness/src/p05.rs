//! Modules and circuits survive printing and parsing.
use super::{sym, util::*};
use std::collections::HashMap;

super::entries! { p05_names, p05_ports, p05_ext, p05_int, p05_double, p05_fraction, p05_params, p05_modules, p05_long, p05_many, p05_far }

fn info(n: u32) -> Option<String> {
    match sym::choice(n + 2) {
        0 => None,
        n => Some(sym::text(n as usize - 1, "]b@[:;, \n\\\t")),
    }
}
fn any_dir() -> Direction {
    if sym::flag() {
        Direction::Input
    } else {
        Direction::Output
    }
}
fn check(c: Circuit) {
    round_trip(&c, "circuit changed")
}

/// Names and infos of the circuit and its top module.
fn p05_names() {
    let n = match sym::choice(2) {
        0 => ident(1 + sym::choice(if sym::thorough() { 4 } else { 3 }) as usize),
        _ => {
            let k = ["circuit", "module", "extmodule", "input", "output", "skip", "defname", "parameter", "when"];
            k[sym::choice(k.len() as u32) as usize].to_string()
        }
    };
    let stmts: Vec<Statement> = (0..sym::choice(3)).map(|_| StmtKind::Empty.into()).collect();
    let mut m = match sym::choice(2) {
        0 => Module::new(n.into(), vec![], ModKind::Regular { stmts }),
        _ => Module::new(n.into(), vec![], ModKind::empty_external()),
    };
    m.set_info(info(1));
    check(Circuit::new(Arc::new(m)).with_info(info(2)))
}

/// Every list of ports.
fn p05_ports() {
    let n = sym::choice(if sym::thorough() { 5 } else { 4 });
    let which = sym::choice(3);
    let ports: Vec<_> = (0..n)
        .map(|i| {
            let name = match i {
                0 if which == 0 => ident(1 + sym::choice(3) as usize),
                1 => ["input", "output", "wire", "skip"][sym::choice(4) as usize].to_string(),
                _ => format!("port{}", i),
            };
            let t = match (i, which) {
                (0, 1) => match sym::choice(4) {
                    0 => ground_dec().into(),
                    1 => vec_t(GT::SInt(None).into(), u16_dec()),
                    2 => bundle(vec![field("x", uint(1), sym::flag()), field("flip", clock_t(), sym::flag())]),
                    _ => bundle(vec![]),
                },
                _ => uint(1 + i as u16),
            };
            let p = Port::new(name, t, any_dir());
            Arc::new(p.with_info(match (i, which) {
                (0, 2) => info(2),
                (1, 2) => info(0),
                _ => None,
            }))
        })
        .collect();
    if n > 1 {
        sym::assume(ports[0].name() != ports[1].name());
    }
    let kind = match sym::choice(2) {
        0 => ModKind::empty_external(),
        _ => {
            let u = ports.iter().map(|p| {
                let e = ent(Entity::Port(p.clone()));
                StmtKind::Invalidate(Expression::Reference(e)).into()
            });
            ModKind::Regular { stmts: if sym::flag() { u.collect() } else { vec![] } }
        }
    };
    check(Circuit::new(Arc::new(Module::new("M".into(), ports, kind))))
}

fn ext(defname: Option<String>, params: Vec<(String, ParamValue)>) -> Module {
    let n = params.len();
    let params: HashMap<Arc<str>, ParamValue> = params.into_iter().map(|(k, v)| (k.into(), v)).collect();
    sym::assume(params.len() == n);
    let kind = ModKind::External { defname: defname.map(Into::into), params };
    Module::new("E".into(), vec![input("p", uint(1))], kind)
}
/// In place of the top module, or instantiated by it.
fn place(m: Module) -> Circuit {
    let m = Arc::new(m);
    if sym::flag() {
        return Circuit::new(m);
    }
    let i = ent(Entity::Instance(Instance::new("e", m)));
    circuit_of(vec![], vec![decl(&i)])
}
fn string(n: u32) -> ParamValue {
    ParamValue::String(sym::text(n as usize, "ab'\"\\]\n%1. ").into())
}

/// Definition names, parameter names, strings.
fn p05_ext() {
    let d = match sym::choice(4) {
        0 => None,
        1 => Some("parameter".to_string()),
        n => Some(ident(n as usize - 1)),
    };
    let v = match sym::choice(4) {
        0 => vec![],
        1 => vec![(ident(1 + sym::choice(2) as usize), ParamValue::Int(-1))],
        2 => vec![("parameter".into(), string(sym::choice(3)))],
        _ => vec![("q".into(), ParamValue::Double(0.5))],
    };
    check(place(ext(d, v)))
}
/// Every integer.
fn p05_int() {
    let v = match sym::choice(4) {
        0 => sym::upto(if sym::thorough() { 9_999_999 } else { 99_999 }) as i64,
        1 => -(sym::within(1, if sym::thorough() { 9_999_999 } else { 99_999 }) as i64),
        2 => i64::MAX - sym::choice(4) as i64,
        _ => i64::MIN + sym::choice(4) as i64,
    };
    check(place(ext(None, vec![("n".into(), ParamValue::Int(v))])))
}
const DOUBLES: [f64; 24] = [
    0.0,
    1.0,
    1.5,
    0.1,
    0.3,
    2.0 / 3.0,
    123456789.125,
    1e15,
    1e16,
    1e17,
    1.7976931348623157e308,
    2.2250738585072014e-308,
    5e-324,
    1e-7,
    1e-5,
    1e21,
    1e22,
    1e23,
    4503599627370496.5,
    9007199254740991.0,
    9007199254740993.0,
    9223372036854775807.0,
    3.141592653589793,
    1.0000000000000002,
];
/// Representative doubles of either sign.
fn p05_double() {
    let v = DOUBLES[sym::choice(DOUBLES.len() as u32) as usize];
    let v = if sym::flag() { -v } else { v };
    check(place(ext(None, vec![("n".into(), ParamValue::Double(v))])))
}
/// Doubles with few digits.
fn p05_fraction() {
    let n = sym::choice(if sym::thorough() { 1000 } else { 100 });
    let d = [1.0, 8.0, 10.0, 1000.0, 1e6][sym::choice(5) as usize];
    let v = n as f64 / d;
    check(place(ext(None, vec![("n".into(), ParamValue::Double(v))])))
}
fn value(k: u32) -> ParamValue {
    match sym::choice(3) {
        0 => ParamValue::Int(k as i64),
        1 => ParamValue::Double(k as f64),
        _ => ParamValue::String(k.to_string().into()),
    }
}
/// Several parameters.
fn p05_params() {
    let n = 2 + sym::choice(if sym::thorough() { 3 } else { 2 });
    let v = (0..n).map(|i| (if i < 2 { ident(1) } else { format!("p{}", i) }, value(i))).collect();
    check(place(ext(if sym::flag() { Some("x".into()) } else { None }, v)))
}

/// Several modules with their own ports, infos and contents.
fn p05_modules() {
    let n = 1 + sym::choice(3);
    let mut mods: Vec<Arc<Module>> = vec![];
    for i in 0..n {
        let ports: Vec<_> = (0..sym::choice(2))
            .map(|k| Arc::new(Port::new(format!("p{}", k), uint(i as u16), any_dir())))
            .collect();
        let k = if i == n - 1 { 1 } else { sym::choice(2) };
        let kind = match k {
            0 => ModKind::External {
                defname: if sym::flag() { Some(format!("d{}", i).into()) } else { None },
                params: Default::default(),
            },
            _ => {
                // instances of the last, or of all before
                let from = if sym::flag() { 0 } else { mods.len().saturating_sub(1) };
                let stmts = mods[from..]
                    .iter()
                    .enumerate()
                    .map(|(k, m)| {
                        let i = Instance::new(format!("i{}", k), m.clone());
                        decl(&ent(Entity::Instance(i)))
                    })
                    .collect();
                ModKind::Regular { stmts }
            }
        };
        let m = Module::new(format!("m{}", i).into(), ports, kind);
        mods.push(Arc::new(m.with_info(if sym::flag() { Some(i.to_string()) } else { None })));
    }
    check(Circuit::new(mods.pop().unwrap()).with_info(info(0)))
}

/// Long names, texts and numbers.
fn p05_long() {
    let n = size();
    let text = || long_text(n, "ab'\"\\]\n%1. ");
    check(match sym::choice(7) {
        0 => circuit_of_name(long_name(n)),
        1 => {
            let mut p = vec![input("a", uint(1)), output("b", uint(1))];
            p.insert(spot(3), if sym::flag() { input(&long_name(n), uint(2)) } else { output(&long_name(n), uint(2)) });
            circuit_of(p, vec![])
        }
        2 => place(ext(Some(long_name(n)), vec![])),
        3 => place(ext(None, vec![("a".into(), ParamValue::Int(2)), (long_name(n), ParamValue::Int(3)), ("zz".into(), ParamValue::Int(4))])),
        4 => place(ext(None, vec![("p".into(), ParamValue::String(text().into()))])),
        5 => Circuit::new(module_of("M", vec![], vec![])).with_info(Some(text())),
        _ => {
            let m = Module::new("M".into(), vec![Arc::new(Port::new("a", uint(1), Direction::Input).with_info(Some(text())))], ModKind::empty_regular());
            let t = if sym::flag() { Some("x".to_string()) } else { None };
            Circuit::new(Arc::new(m.with_info(t)))
        }
    })
}
fn circuit_of_name(n: String) -> Circuit {
    let a = module_of(&n, vec![], vec![StmtKind::Empty.into()]);
    if sym::flag() {
        return Circuit::new(a);
    }
    let i = ent(Entity::Instance(Instance::new("e", a)));
    circuit_of(vec![], vec![decl(&i)])
}
/// Many ports, parameters and modules.
fn p05_many() {
    let n = size();
    let k = spot(n);
    let dirs = |i: usize| if i % 3 == 0 { Direction::Output } else { Direction::Input };
    match sym::choice(4) {
        0 => {
            let p: Vec<_> = names(n)
                .into_iter()
                .enumerate()
                .map(|(i, s)| {
                    let p = Port::new(s, uint(i as u16), if i == k { any_dir() } else { dirs(i) });
                    Arc::new(p.with_info(if i == k { info(1) } else { None }))
                })
                .collect();
            let kind = if sym::flag() { ModKind::empty_regular() } else { ModKind::empty_external() };
            check(Circuit::new(Arc::new(Module::new("M".into(), p, kind))))
        }
        1 => {
            let v = names(n).into_iter().enumerate().map(|(i, s)| (s, if i == k { value(i as u32) } else { ParamValue::Int(i as i64) })).collect();
            check(place(ext(None, v)))
        }
        2 => {
            // all instantiated by the top module
            let m: Vec<_> = names(n)
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    if i == k && sym::flag() {
                        Arc::new(Module::new(s.as_str().into(), vec![], ModKind::empty_external()))
                    } else {
                        module_of(s, vec![input("p", uint(i as u16))], vec![])
                    }
                })
                .collect();
            let s = m.iter().enumerate().map(|(i, m)| decl(&ent(Entity::Instance(Instance::new(format!("i{}", i), m.clone()))))).collect();
            check(circuit_of(vec![], s))
        }
        _ => {
            // instances of the same
            let a = module_of("A", vec![input("p", uint(1))], vec![]);
            let b = Arc::new(Module::new("B".into(), vec![], ModKind::empty_external()));
            let s = names(n)
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    let m = if i == k && sym::flag() { &b } else { &a };
                    decl(&ent(Entity::Instance(Instance::new(s.as_str(), m.clone()))))
                })
                .collect();
            check(circuit_of(vec![], s))
        }
    }
}
/// Chains of modules.
fn p05_far() {
    let n = depth();
    let k = spot(n);
    let ext = sym::flag();
    let mut m = Arc::new(Module::new("m".into(), vec![input("p", uint(1))], if ext { ModKind::empty_external() } else { ModKind::empty_regular() }));
    for (i, s) in names(n).iter().enumerate() {
        let mut v = vec![decl(&ent(Entity::Instance(Instance::new("x", m.clone()))))];
        if i == k && sym::flag() {
            v.push(decl(&ent(Entity::Instance(Instance::new("y", m)))));
        }
        m = Arc::new(Module::new(s.as_str().into(), vec![], ModKind::Regular { stmts: v }).with_info(if i == k { info(1) } else { None }));
    }
    check(Circuit::new(m))
}

//! vstd-like builtins: Seq, Set, Map, Multiset, int.
use crate::ast::*;
use crate::eval::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn undef_any(args: &[V]) -> bool {
    args.iter().any(|a| matches!(a, V::Undef))
}
fn us(i: i128, n: usize) -> Option<usize> {
    if i >= 0 && i <= n as i128 {
        Some(i as usize)
    } else {
        None
    }
}
pub fn setv(v: &V) -> ER<Rc<BTreeSet<V>>> {
    match v {
        V::Set(s) => Ok(s.clone()),
        o => bad(format!("expected set, got {:?}", o)),
    }
}
pub fn mapv(v: &V) -> ER<Rc<BTreeMap<V, V>>> {
    match v {
        V::Map(s) => Ok(s.clone()),
        o => bad(format!("expected map, got {:?}", o)),
    }
}
pub fn seqv(v: &V) -> ER<Rc<Vec<V>>> {
    match v {
        V::Seq(s) => Ok(s.clone()),
        o => bad(format!("expected seq, got {:?}", o)),
    }
}
pub fn intv(v: &V) -> ER<i128> {
    match v {
        V::Int(s) => Ok(*s),
        o => bad(format!("expected int, got {:?}", o)),
    }
}
fn msetv(v: &V) -> ER<Rc<BTreeMap<V, i128>>> {
    match v {
        V::MSet(s) => Ok(s.clone()),
        o => bad(format!("expected multiset, got {:?}", o)),
    }
}
fn truth(c: &mut Ctx, f: &V, a: &[V]) -> ER<Option<bool>> {
    let v = c.apply(f, a)?;
    match c.force(v)? {
        V::Bool(b) => Ok(Some(b)),
        V::Undef => Ok(None),
        o => bad(format!("predicate returned {:?}", o)),
    }
}
fn mset_norm(m: BTreeMap<V, i128>) -> V {
    V::MSet(Rc::new(m.into_iter().filter(|x| x.1 > 0).collect()))
}

pub fn method(c: &mut Ctx, recv: &V, m: Sym, args: Vec<V>) -> ER {
    let n = name(m);
    let n = &*n;
    let mut args = args;
    for a in args.iter_mut() {
        if let V::LVar(_) = a {
            *a = c.deref(a);
        }
    }
    match n {
        "view" | "clone" | "deep_view" | "as_nat" | "as_int" | "spec_clone" | "to_owned" => return Ok(recv.clone()),
        "ext_equal" | "spec_eq" | "eq" => {
            let a = c.ground(recv.clone())?;
            let b = c.ground(args[0].clone())?;
            if undef_any(&args) {
                return Ok(V::Undef);
            }
            return Ok(V::Bool(a == b));
        }
        "finite" => return Ok(V::Bool(true)),
        _ => {}
    }
    match recv {
        V::Seq(s) => {
            match n {
                "push" => {
                    let mut v = (**s).clone();
                    v.push(args[0].clone());
                    return Ok(V::seq(v));
                }
                "len" => return Ok(V::Int(s.len() as i128)),
                _ => {}
            }
            if undef_any(&args) {
                return Ok(V::Undef);
            }
            match n {
                "update" => {
                    let i = intv(&c.force(args[0].clone())?)?;
                    let mut v = (**s).clone();
                    if i < 0 || i as usize >= v.len() {
                        return Ok(V::Undef);
                    }
                    v[i as usize] = args[1].clone();
                    Ok(V::seq(v))
                }
                "index" | "spec_index" => c.index(recv.clone(), args[0].clone()),
                "subrange" => {
                    let a = intv(&c.force(args[0].clone())?)?;
                    let b = intv(&c.force(args[1].clone())?)?;
                    match (us(a, s.len()), us(b, s.len())) {
                        (Some(a), Some(b)) if a <= b => Ok(V::seq(s[a..b].to_vec())),
                        _ => Ok(V::Undef),
                    }
                }
                "take" => {
                    let a = intv(&c.force(args[0].clone())?)?;
                    Ok(us(a, s.len()).map(|a| V::seq(s[..a].to_vec())).unwrap_or(V::Undef))
                }
                "skip" => {
                    let a = intv(&c.force(args[0].clone())?)?;
                    Ok(us(a, s.len()).map(|a| V::seq(s[a..].to_vec())).unwrap_or(V::Undef))
                }
                "add" | "spec_add" => {
                    let o = seqv(&c.force(args[0].clone())?)?;
                    let mut v = (**s).clone();
                    v.extend(o.iter().cloned());
                    Ok(V::seq(v))
                }
                "first" => Ok(s.first().cloned().unwrap_or(V::Undef)),
                "last" => Ok(s.last().map(|x| c.deref(x)).unwrap_or(V::Undef)),
                "drop_last" => Ok(if s.is_empty() { V::Undef } else { V::seq(s[..s.len() - 1].to_vec()) }),
                "drop_first" => Ok(if s.is_empty() { V::Undef } else { V::seq(s[1..].to_vec()) }),
                "contains" => {
                    let x = c.ground(args[0].clone())?;
                    let mut stuck = None;
                    for y in s.iter() {
                        match c.ground(y.clone()) {
                            Ok(y) => {
                                if x == y {
                                    return Ok(V::Bool(true));
                                }
                            }
                            Err(Ctl::Stuck(i)) => stuck = Some(i),
                            Err(e) => return Err(e),
                        }
                    }
                    match stuck {
                        Some(i) => Err(Ctl::Stuck(i)),
                        None => Ok(V::Bool(false)),
                    }
                }
                "index_of" | "index_of_first" => {
                    let x = c.ground(args[0].clone())?;
                    let g = seqv(&c.ground(recv.clone())?)?;
                    Ok(g.iter().position(|y| *y == x).map(|i| V::Int(i as i128)).unwrap_or(V::Undef))
                }
                "to_set" => {
                    let g = seqv(&c.ground(recv.clone())?)?;
                    Ok(V::set(g.iter().cloned()))
                }
                "to_multiset" => {
                    let g = seqv(&c.ground(recv.clone())?)?;
                    let mut m = BTreeMap::new();
                    for x in g.iter() {
                        *m.entry(x.clone()).or_insert(0) += 1;
                    }
                    Ok(V::MSet(Rc::new(m)))
                }
                "map_values" => {
                    let mut v = vec![];
                    for x in s.iter() {
                        v.push(c.apply(&args[0], &[x.clone()])?);
                    }
                    Ok(V::seq(v))
                }
                "map" => {
                    let mut v = vec![];
                    for (i, x) in s.iter().enumerate() {
                        v.push(c.apply(&args[0], &[V::Int(i as i128), x.clone()])?);
                    }
                    Ok(V::seq(v))
                }
                "filter" => {
                    let mut v = vec![];
                    for x in s.iter() {
                        match truth(c, &args[0], &[x.clone()])? {
                            Some(true) => v.push(x.clone()),
                            Some(false) => {}
                            None => return Ok(V::Undef),
                        }
                    }
                    Ok(V::seq(v))
                }
                "fold_left" | "fold_left_alt" => {
                    let mut acc = args[0].clone();
                    for x in s.iter() {
                        acc = c.apply(&args[1], &[acc, x.clone()])?;
                    }
                    Ok(acc)
                }
                "fold_right" | "fold_right_alt" => {
                    let mut acc = args[1].clone();
                    for x in s.iter().rev() {
                        acc = c.apply(&args[0], &[x.clone(), acc])?;
                    }
                    Ok(acc)
                }
                "reverse" => Ok(V::seq(s.iter().rev().cloned().collect())),
                "insert" => {
                    let a = intv(&c.force(args[0].clone())?)?;
                    match us(a, s.len()) {
                        Some(a) => {
                            let mut v = (**s).clone();
                            v.insert(a, args[1].clone());
                            Ok(V::seq(v))
                        }
                        None => Ok(V::Undef),
                    }
                }
                "remove" => {
                    let a = intv(&c.force(args[0].clone())?)?;
                    match us(a, s.len()) {
                        Some(a) if a < s.len() => {
                            let mut v = (**s).clone();
                            v.remove(a);
                            Ok(V::seq(v))
                        }
                        _ => Ok(V::Undef),
                    }
                }
                "no_duplicates" => {
                    let g = seqv(&c.ground(recv.clone())?)?;
                    let st: BTreeSet<V> = g.iter().cloned().collect();
                    Ok(V::Bool(st.len() == g.len()))
                }
                "is_prefix_of" => {
                    let g = seqv(&c.ground(recv.clone())?)?;
                    let o = seqv(&c.ground(args[0].clone())?)?;
                    Ok(V::Bool(o.len() >= g.len() && o[..g.len()] == g[..]))
                }
                "is_suffix_of" => {
                    let g = seqv(&c.ground(recv.clone())?)?;
                    let o = seqv(&c.ground(args[0].clone())?)?;
                    Ok(V::Bool(o.len() >= g.len() && o[o.len() - g.len()..] == g[..]))
                }
                "zip_with" => {
                    let o = seqv(&c.force(args[0].clone())?)?;
                    if o.len() != s.len() {
                        return Ok(V::Undef);
                    }
                    Ok(V::seq(s.iter().zip(o.iter()).map(|(a, b)| V::tup(vec![a.clone(), b.clone()])).collect()))
                }
                "flatten" => {
                    let mut v = vec![];
                    for x in s.iter() {
                        v.extend(seqv(&c.force(x.clone())?)?.iter().cloned());
                    }
                    Ok(V::seq(v))
                }
                "is_empty" => Ok(V::Bool(s.is_empty())),
                _ => bad(format!("no Seq method {}", n)),
            }
        }
        V::Set(s) => {
            if undef_any(&args) {
                return Ok(V::Undef);
            }
            match n {
                "contains" => {
                    let x = c.resolve(&args[0]);
                    if let Some(i) = c.first_lvar(&x) {
                        if s.is_empty() {
                            return Ok(V::Bool(false));
                        }
                        return Err(Ctl::Stuck(i));
                    }
                    Ok(V::Bool(s.contains(&x)))
                }
                "insert" => {
                    let x = c.ground(args[0].clone())?;
                    let mut v = (**s).clone();
                    v.insert(x);
                    Ok(V::Set(Rc::new(v)))
                }
                "remove" => {
                    let x = c.ground(args[0].clone())?;
                    let mut v = (**s).clone();
                    v.remove(&x);
                    Ok(V::Set(Rc::new(v)))
                }
                "union" | "spec_add" | "generic_union" => {
                    let o = setv(&c.ground(args[0].clone())?)?;
                    Ok(V::set(s.union(&o).cloned()))
                }
                "intersect" | "spec_mul" | "generic_intersect" => {
                    let o = setv(&c.ground(args[0].clone())?)?;
                    Ok(V::set(s.intersection(&o).cloned()))
                }
                "difference" | "spec_sub" | "generic_difference" => {
                    let o = setv(&c.ground(args[0].clone())?)?;
                    Ok(V::set(s.difference(&o).cloned()))
                }
                "subset_of" | "spec_le" => {
                    let o = setv(&c.ground(args[0].clone())?)?;
                    Ok(V::Bool(s.is_subset(&o)))
                }
                "disjoint" => {
                    let o = setv(&c.ground(args[0].clone())?)?;
                    Ok(V::Bool(s.is_disjoint(&o)))
                }
                "len" => Ok(V::Int(s.len() as i128)),
                "is_empty" => Ok(V::Bool(s.is_empty())),
                "choose" => Ok(s.iter().next().cloned().unwrap_or(V::Undef)),
                "to_seq" => Ok(V::seq(s.iter().cloned().collect())),
                "is_full" => Ok(V::Bool(false)),
                "is_singleton" => Ok(V::Bool(s.len() == 1)),
                "map" => {
                    let mut v = BTreeSet::new();
                    for x in s.iter() {
                        let y = c.apply(&args[0], &[x.clone()])?;
                        v.insert(c.ground(y)?);
                    }
                    Ok(V::Set(Rc::new(v)))
                }
                "filter" => {
                    let mut v = BTreeSet::new();
                    for x in s.iter() {
                        match truth(c, &args[0], &[x.clone()])? {
                            Some(true) => {
                                v.insert(x.clone());
                            }
                            Some(false) => {}
                            None => return Ok(V::Undef),
                        }
                    }
                    Ok(V::Set(Rc::new(v)))
                }
                "all" | "any" => {
                    for x in s.iter() {
                        match truth(c, &args[0], &[x.clone()])? {
                            Some(b) => {
                                if b == (n == "any") {
                                    return Ok(V::Bool(b));
                                }
                            }
                            None => return Ok(V::Undef),
                        }
                    }
                    Ok(V::Bool(n == "all"))
                }
                "fold" => {
                    let mut acc = args[0].clone();
                    for x in s.iter() {
                        acc = c.apply(&args[1], &[acc, x.clone()])?;
                    }
                    Ok(acc)
                }
                "to_multiset" => Ok(V::MSet(Rc::new(s.iter().map(|x| (x.clone(), 1)).collect()))),
                "mk_map" => {
                    let mut v = BTreeMap::new();
                    for x in s.iter() {
                        v.insert(x.clone(), c.apply(&args[0], &[x.clone()])?);
                    }
                    Ok(V::Map(Rc::new(v)))
                }
                "flatten" => {
                    let mut v = BTreeSet::new();
                    for x in s.iter() {
                        v.extend(setv(x)?.iter().cloned());
                    }
                    Ok(V::Set(Rc::new(v)))
                }
                "is_least" | "is_greatest" => bad("set order"),
                "complement" => bad("Set::complement"),
                _ => bad(format!("no Set method {}", n)),
            }
        }
        V::Map(s) => match n {
            "dom" | "keys" => Ok(V::set(s.keys().cloned())),
            "len" => Ok(V::Int(s.len() as i128)),
            "is_empty" => Ok(V::Bool(s.is_empty())),
            "insert" => {
                if let V::Undef = args[0] {
                    return Ok(V::Undef);
                }
                let k = c.ground(args[0].clone())?;
                let mut v = (**s).clone();
                v.insert(k, args[1].clone());
                Ok(V::Map(Rc::new(v)))
            }
            "contains_key" => {
                if undef_any(&args) {
                    return Ok(V::Undef);
                }
                let x = c.resolve(&args[0]);
                if let Some(i) = c.first_lvar(&x) {
                    if s.is_empty() {
                        return Ok(V::Bool(false));
                    }
                    return Err(Ctl::Stuck(i));
                }
                Ok(V::Bool(s.contains_key(&x)))
            }
            "values" => {
                let mut v = BTreeSet::new();
                for x in s.values() {
                    v.insert(c.ground(x.clone())?);
                }
                Ok(V::Set(Rc::new(v)))
            }
            "index" | "spec_index" => c.index(recv.clone(), args[0].clone()),
            _ => {
                if undef_any(&args) {
                    return Ok(V::Undef);
                }
                match n {
                    "remove" => {
                        let k = c.ground(args[0].clone())?;
                        let mut v = (**s).clone();
                        v.remove(&k);
                        Ok(V::Map(Rc::new(v)))
                    }
                    "get" => {
                        let k = c.ground(args[0].clone())?;
                        Ok(match s.get(&k) {
                            Some(x) => c.p.mk_some(x.clone()),
                            None => c.p.mk_none(),
                        })
                    }
                    "union_prefer_right" => {
                        let o = mapv(&c.force(args[0].clone())?)?;
                        let mut v = (**s).clone();
                        for (k, x) in o.iter() {
                            v.insert(k.clone(), x.clone());
                        }
                        Ok(V::Map(Rc::new(v)))
                    }
                    "restrict" => {
                        let o = setv(&c.ground(args[0].clone())?)?;
                        Ok(V::map(s.iter().filter(|x| o.contains(x.0)).map(|(a, b)| (a.clone(), b.clone()))))
                    }
                    "remove_keys" => {
                        let o = setv(&c.ground(args[0].clone())?)?;
                        Ok(V::map(s.iter().filter(|x| !o.contains(x.0)).map(|(a, b)| (a.clone(), b.clone()))))
                    }
                    "submap_of" | "le" | "spec_le" => {
                        let a = mapv(&c.ground(recv.clone())?)?;
                        let o = mapv(&c.ground(args[0].clone())?)?;
                        Ok(V::Bool(a.iter().all(|(k, v)| o.get(k) == Some(v))))
                    }
                    "agrees" => {
                        let a = mapv(&c.ground(recv.clone())?)?;
                        let o = mapv(&c.ground(args[0].clone())?)?;
                        Ok(V::Bool(a.iter().all(|(k, v)| o.get(k).map_or(true, |w| w == v))))
                    }
                    "contains_value" => {
                        let x = c.ground(args[0].clone())?;
                        let a = mapv(&c.ground(recv.clone())?)?;
                        Ok(V::Bool(a.values().any(|y| *y == x)))
                    }
                    "contains_pair" => {
                        let k = c.ground(args[0].clone())?;
                        let x = c.ground(args[1].clone())?;
                        match s.get(&k).cloned() {
                            None => Ok(V::Bool(false)),
                            Some(y) => {
                                let y = c.ground(y)?;
                                Ok(V::Bool(x == y))
                            }
                        }
                    }
                    "is_injective" => {
                        let a = mapv(&c.ground(recv.clone())?)?;
                        let st: BTreeSet<V> = a.values().cloned().collect();
                        Ok(V::Bool(st.len() == a.len()))
                    }
                    "invert" => {
                        let a = mapv(&c.ground(recv.clone())?)?;
                        let mut v = BTreeMap::new();
                        for (k, x) in a.iter() {
                            v.entry(x.clone()).or_insert(k.clone());
                        }
                        Ok(V::Map(Rc::new(v)))
                    }
                    "map_values" => {
                        let mut v = BTreeMap::new();
                        for (k, x) in s.iter() {
                            v.insert(k.clone(), c.apply(&args[0], &[x.clone()])?);
                        }
                        Ok(V::Map(Rc::new(v)))
                    }
                    "map_entries" => {
                        let mut v = BTreeMap::new();
                        for (k, x) in s.iter() {
                            v.insert(k.clone(), c.apply(&args[0], &[k.clone(), x.clone()])?);
                        }
                        Ok(V::Map(Rc::new(v)))
                    }
                    "filter_keys" => {
                        let mut v = BTreeMap::new();
                        for (k, x) in s.iter() {
                            if truth(c, &args[0], &[k.clone()])? == Some(true) {
                                v.insert(k.clone(), x.clone());
                            }
                        }
                        Ok(V::Map(Rc::new(v)))
                    }
                    _ => bad(format!("no Map method {}", n)),
                }
            }
        },
        V::MSet(s) => {
            if undef_any(&args) {
                return Ok(V::Undef);
            }
            match n {
                "count" | "spec_index" => {
                    let x = c.ground(args[0].clone())?;
                    Ok(V::Int(*s.get(&x).unwrap_or(&0)))
                }
                "contains" => {
                    let x = c.ground(args[0].clone())?;
                    Ok(V::Bool(*s.get(&x).unwrap_or(&0) > 0))
                }
                "len" => Ok(V::Int(s.values().sum())),
                "insert" => {
                    let x = c.ground(args[0].clone())?;
                    let mut v = (**s).clone();
                    *v.entry(x).or_insert(0) += 1;
                    Ok(mset_norm(v))
                }
                "remove" => {
                    let x = c.ground(args[0].clone())?;
                    let mut v = (**s).clone();
                    *v.entry(x).or_insert(0) -= 1;
                    Ok(mset_norm(v))
                }
                "add" | "spec_add" => {
                    let o = msetv(&c.force(args[0].clone())?)?;
                    let mut v = (**s).clone();
                    for (k, x) in o.iter() {
                        *v.entry(k.clone()).or_insert(0) += x;
                    }
                    Ok(mset_norm(v))
                }
                "sub" | "spec_sub" => {
                    let o = msetv(&c.force(args[0].clone())?)?;
                    let mut v = (**s).clone();
                    for (k, x) in o.iter() {
                        *v.entry(k.clone()).or_insert(0) -= x;
                    }
                    Ok(mset_norm(v))
                }
                "subset_of" | "le" | "spec_le" => {
                    let o = msetv(&c.force(args[0].clone())?)?;
                    Ok(V::Bool(s.iter().all(|(k, x)| x <= o.get(k).unwrap_or(&0))))
                }
                "is_disjoint_from" => {
                    let o = msetv(&c.force(args[0].clone())?)?;
                    Ok(V::Bool(s.iter().all(|(k, x)| *x == 0 || *o.get(k).unwrap_or(&0) == 0)))
                }
                "intersection_with" => {
                    let o = msetv(&c.force(args[0].clone())?)?;
                    Ok(mset_norm(s.iter().map(|(k, x)| (k.clone(), *x.min(o.get(k).unwrap_or(&0)))).collect()))
                }
                "difference_with" => {
                    let o = msetv(&c.force(args[0].clone())?)?;
                    Ok(mset_norm(s.iter().map(|(k, x)| (k.clone(), x - o.get(k).unwrap_or(&0))).collect()))
                }
                "dom" => Ok(V::set(s.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()))),
                "is_singleton" => Ok(V::Bool(s.values().all(|x| *x <= 1))),
                "is_empty" => Ok(V::Bool(s.values().all(|x| *x <= 0))),
                "choose" => match s.iter().find(|x| *x.1 > 0) {
                    Some((k, _)) => Ok(k.clone()),
                    None => Ok(V::Undef),
                },
                "update" => {
                    let x = c.ground(args[0].clone())?;
                    let k = c.ground(args[1].clone())?;
                    let V::Int(k) = k else { return bad("Multiset update") };
                    let mut v = (**s).clone();
                    v.insert(x, k);
                    Ok(mset_norm(v))
                }
                "count_all" | "size" => Ok(V::Int(s.values().sum())),
                "filter" => {
                    let mut v = BTreeMap::new();
                    for (k, x) in s.iter() {
                        match c.apply(&args[0], &[k.clone()])? {
                            V::Bool(true) => {
                                v.insert(k.clone(), *x);
                            }
                            V::Bool(false) => {}
                            _ => return bad("Multiset filter"),
                        }
                    }
                    Ok(mset_norm(v))
                }
                _ => bad(format!("no Multiset method {}", n)),
            }
        }
        V::Int(i) => {
            if undef_any(&args) {
                return Ok(V::Undef);
            }
            let a = |k: usize| -> ER<i128> {
                match &args[k] {
                    V::LVar(l) => Err(Ctl::Stuck(*l)),
                    v => intv(v),
                }
            };
            match n {
                "spec_lt" => Ok(V::Bool(*i < a(0)?)),
                "spec_le" => Ok(V::Bool(*i <= a(0)?)),
                "spec_gt" => Ok(V::Bool(*i > a(0)?)),
                "spec_ge" => Ok(V::Bool(*i >= a(0)?)),
                "spec_add" | "add" => Ok(V::Int(i + a(0)?)),
                "spec_sub" | "sub" => Ok(V::Int(i - a(0)?)),
                "spec_mul" => Ok(V::Int(i * a(0)?)),
                "max" => Ok(V::Int(*i.max(&a(0)?))),
                "min" => Ok(V::Int(*i.min(&a(0)?))),
                _ => bad(format!("no int method {}", n)),
            }
        }
        V::Fun(_) => match n {
            "requires" => Ok(V::Bool(true)),
            _ => bad(format!("no closure method {}", n)),
        },
        V::Tup(_) | V::Bool(_) | V::Str(_) => bad(format!("no method {} on {:?}", n, recv)),
        o => bad(format!("method {} on {:?}", n, o)),
    }
}

pub fn constant(t: Sym, m: Sym) -> Option<V> {
    let (t, m) = (name(t), name(m));
    Some(match (&*t, &*m) {
        ("u8", "MAX") => V::Int(u8::MAX as i128),
        ("u16", "MAX") => V::Int(u16::MAX as i128),
        ("u32", "MAX") => V::Int(u32::MAX as i128),
        ("u64", "MAX") | ("usize", "MAX") => V::Int(u64::MAX as i128),
        _ => return None,
    })
}

pub fn static_fn(c: &mut Ctx, t: Sym, m: Sym, a: Vec<V>, arg_exprs: &[EP], _env: &Env, _fr: Fr) -> ER {
    let (tn, mn) = (name(t), name(m));
    match (&*tn, &*mn) {
        ("Map" | "IMap", "empty") => Ok(V::map(vec![])),
        ("Box" | "Arc" | "Rc" | "Ghost" | "Tracked", "new") => Ok(a.into_iter().next().unwrap()),
        ("Set" | "ISet", "empty") => Ok(V::set(vec![])),
        ("Seq", "empty") => Ok(V::seq(vec![])),
        ("Multiset", "empty") => Ok(V::MSet(Rc::new(BTreeMap::new()))),
        ("Multiset", "singleton") => {
            let x = c.ground(a[0].clone())?;
            Ok(V::MSet(Rc::new(std::iter::once((x, 1)).collect())))
        }
        ("Map" | "IMap", "new") => {
            let dom = match c.force(a[0].clone())? {
                V::Set(s) => s.iter().cloned().collect(),
                f => c.closure_domain(&f, Some(&a[1]))?,
            };
            let mut v = BTreeMap::new();
            for k in dom {
                let x = c.apply(&a[1], &[k.clone()])?;
                v.insert(k, x);
            }
            Ok(V::Map(Rc::new(v)))
        }
        ("Map", "new_from_set") => {
            let s = setv(&c.ground(a[0].clone())?)?;
            let mut v = BTreeMap::new();
            for k in s.iter() {
                v.insert(k.clone(), c.apply(&a[1], &[k.clone()])?);
            }
            Ok(V::Map(Rc::new(v)))
        }
        ("Set" | "ISet", "new") => Ok(V::set(c.closure_domain(&a[0], None)?)),
        ("Seq", "new") => {
            let n = c.force(a[0].clone())?;
            if let V::Undef = n {
                return Ok(V::Undef);
            }
            let n = intv(&n)?;
            if n > 100_000 {
                return bad("Seq::new too long");
            }
            let mut v = vec![];
            for i in 0..n.max(0) {
                v.push(c.apply(&a[1], &[V::Int(i)])?);
            }
            Ok(V::seq(v))
        }
        ("math", "max") => bin_int(c, &a, |x, y| x.max(y)),
        ("math", "min") => bin_int(c, &a, |x, y| x.min(y)),
        ("math", "abs") => {
            let x = intv(&c.force(a[0].clone())?)?;
            Ok(V::Int(x.abs()))
        }
        ("set_lib", "set_int_range") => {
            let lo = intv(&c.force(a[0].clone())?)?;
            let hi = intv(&c.force(a[1].clone())?)?;
            Ok(V::set((lo..hi).map(V::Int)))
        }
        ("pervasive" | "prelude", _) => free_fn(c, m, a),
        // UFCS calls: Seq::fold_left_alt(s, ...), Set::len(s) ...
        ("Seq" | "Map" | "Set" | "Multiset" | "Option" | "Result", _) if !a.is_empty() => c.call_method(a[0].clone(), m, a[1..].to_vec()),
        _ => {
            let _ = arg_exprs;
            bad(format!("unknown builtin {}::{}", tn, mn))
        }
    }
}
fn bin_int(c: &mut Ctx, a: &[V], f: fn(i128, i128) -> i128) -> ER {
    let x = c.force(a[0].clone())?;
    let y = c.force(a[1].clone())?;
    match (x, y) {
        (V::Int(x), V::Int(y)) => Ok(V::Int(f(x, y))),
        (V::Undef, _) | (_, V::Undef) => Ok(V::Undef),
        _ => bad("int args"),
    }
}

pub fn free_fn(c: &mut Ctx, m: Sym, a: Vec<V>) -> ER {
    let n = name(m);
    match &*n {
        "max" | "spec_max" => bin_int(c, &a, |x, y| x.max(y)),
        "min" | "spec_min" => bin_int(c, &a, |x, y| x.min(y)),
        "arbitrary" => Ok(V::Undef),
        "spec_affirm" => Ok(V::Bool(true)),
        "equal" | "spec_eq" => {
            let x = c.ground(a[0].clone())?;
            let y = c.ground(a[1].clone())?;
            Ok(V::Bool(x == y))
        }
        "set_int_range" => {
            let lo = intv(&c.force(a[0].clone())?)?;
            let hi = intv(&c.force(a[1].clone())?)?;
            Ok(V::set((lo..hi).map(V::Int)))
        }
        "set" => {
            let mut s = BTreeSet::new();
            for x in a {
                s.insert(c.ground(x)?);
            }
            Ok(V::Set(Rc::new(s)))
        }
        _ => bad(format!("unresolved function {}", n)),
    }
}

pub fn binop(c: &mut Ctx, op: Op, x: V, y: V) -> ER {
    match (&x, &y) {
        (V::Undef, _) | (_, V::Undef) => Ok(V::Undef),
        (V::Int(a), V::Int(b)) => {
            let (a, b) = (*a, *b);
            Ok(match op {
                Op::Add => V::Int(a + b),
                Op::Sub => V::Int(a - b),
                Op::Mul => match a.checked_mul(b) {
                    Some(v) => V::Int(v),
                    None => return bad("overflow"),
                },
                Op::Div => {
                    if b == 0 {
                        V::Undef
                    } else {
                        V::Int(a.div_euclid(b))
                    }
                }
                Op::Mod => {
                    if b == 0 {
                        V::Undef
                    } else {
                        V::Int(a.rem_euclid(b))
                    }
                }
                Op::Lt => V::Bool(a < b),
                Op::Le => V::Bool(a <= b),
                Op::Gt => V::Bool(a > b),
                Op::Ge => V::Bool(a >= b),
                Op::BitAnd => V::Int(a & b),
                Op::BitOr => V::Int(a | b),
                Op::BitXor => V::Int(a ^ b),
                Op::Shl => V::Int(a << b),
                Op::Shr => V::Int(a >> b),
                _ => return bad("int op"),
            })
        }
        (V::Set(_), _) => {
            let m = match op {
                Op::Add => "union",
                Op::Sub => "difference",
                Op::Mul => "intersect",
                Op::Le => "subset_of",
                Op::Ge => return binop(c, Op::Le, y, x),
                Op::Lt => {
                    let l = binop(c, Op::Le, x.clone(), y.clone())?;
                    return Ok(V::Bool(l.is_true() && x != y));
                }
                Op::Gt => return binop(c, Op::Lt, y, x),
                _ => return bad("set op"),
            };
            method(c, &x, sym(m), vec![y])
        }
        (V::Seq(_), _) => match op {
            Op::Add => method(c, &x, sym("add"), vec![y]),
            Op::Le => method(c, &x, sym("is_prefix_of"), vec![y]),
            _ => bad("seq op"),
        },
        (V::Map(_), _) => match op {
            Op::Le => method(c, &x, sym("submap_of"), vec![y]),
            Op::Add => method(c, &x, sym("union_prefer_right"), vec![y]),
            Op::Sub => method(c, &x, sym("remove_keys"), vec![y]),
            _ => bad("map op"),
        },
        (V::MSet(_), _) => {
            let m = match op {
                Op::Add => "add",
                Op::Sub => "sub",
                Op::Le => "subset_of",
                _ => return bad("multiset op"),
            };
            method(c, &x, sym(m), vec![y])
        }
        (V::Bool(a), V::Bool(b)) => Ok(match op {
            Op::BitAnd => V::Bool(*a && *b),
            Op::BitOr => V::Bool(*a || *b),
            Op::BitXor => V::Bool(*a != *b),
            _ => return bad("bool op"),
        }),
        (V::Data(_), _) => {
            let m = match op {
                Op::Add => "spec_add",
                Op::Sub => "spec_sub",
                Op::Lt => "spec_lt",
                Op::Le => "spec_le",
                Op::Gt => "spec_gt",
                Op::Ge => "spec_ge",
                _ => return bad("struct op"),
            };
            let r = c.call_method(x.clone(), sym(m), vec![y.clone()]);
            match (r, op) {
                (Err(Ctl::Err(_)), Op::Add) => c.call_method(x, sym("add"), vec![y]),
                (Err(Ctl::Err(_)), Op::Sub) => c.call_method(x, sym("sub"), vec![y]),
                (r, _) => r,
            }
        }
        _ => bad(format!("binop {:?} on {:?} and {:?}", op, x, y)),
    }
}

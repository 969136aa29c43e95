use fenris_nested_vec::NestedVec;
use vlib::{Case, Run};

fn same(c: &mut Case, a: &NestedVec<i32>, m: &Vec<Vec<i32>>, op: &str) {
    c.check(a.len() == m.len(), "len", || format!("after {op}: {} vs {}", a.len(), m.len()));
    c.check(a.iter().map(|s| s.to_vec()).collect::<Vec<_>>() == *m, "iter", || format!("after {op}: {a:?} vs {m:?}"));
    c.check(a.iter_array_elements().cloned().collect::<Vec<_>>() == m.iter().flatten().cloned().collect::<Vec<_>>(), "iter-elements", || format!("after {op}"));
    c.check(a.total_num_elements() == m.iter().map(|v| v.len()).sum::<usize>(), "total", || format!("after {op}: {}", a.total_num_elements()));
    c.check(a.first() == m.first().map(|v| v.as_slice()), "first", || format!("after {op}: {:?}", a.first()));
    c.check(a.last() == m.last().map(|v| v.as_slice()), "last", || format!("after {op}: {:?}", a.last()));
    for i in [0, 1, m.len() / 2, m.len().saturating_sub(1), m.len(), m.len() + 1, usize::MAX] {
        c.check(a.get(i) == m.get(i).map(|v| v.as_slice()), "get", || format!("after {op}: get({i}) = {:?}", a.get(i)));
    }
    c.count("states_compared", 1);
}

pub fn run(run: &mut Run) {
    run.section(
        "histories",
        "random operation histories on the container and on a list-of-lists model; every observer compared after every operation",
        6000, 200000, |c| {
            let mut a: NestedVec<i32> = match c.rng.below(3) { 0 => NestedVec::new(), 1 => NestedVec::default(), _ => NestedVec::from(Vec::new()) };
            let mut m: Vec<Vec<i32>> = vec![];
            let steps = 1 + c.rng.below(40);
            let mut ops = vec![];
            for _ in 0..steps {
                let op = c.rng.below(12);
                ops.push(op);
                match op {
                    0 | 1 => {
                        let n = c.rng.below(5);
                        let v: Vec<i32> = (0..n).map(|_| c.rng.below(100) as i32).collect();
                        a.push(&v);
                        m.push(v);
                    }
                    2 | 3 | 4 => {
                        let n = c.rng.below(5);
                        let mut v = vec![];
                        let mut counts = vec![];
                        {
                            let mut app = a.begin_array();
                            counts.push(app.count());
                            let mut i = 0;
                            while i < n {
                                let x = c.rng.below(100) as i32;
                                if c.rng.bool() {
                                    app.push_single(x);
                                    v.push(x);
                                } else {
                                    app.push_single(x).push_single(x + 1);
                                    v.push(x);
                                    v.push(x + 1);
                                    i += 1;
                                }
                                counts.push(app.count());
                                c.check(app.count() == v.len(), "appender-count", || format!("{counts:?} vs {}", v.len()));
                                i += 1;
                            }
                        }
                        m.push(v);
                    }
                    5 => if c.rng.chance(0.3) { a.clear(); m.clear(); },
                    6 | 7 => {
                        let i = c.rng.below(m.len() + 2);
                        let x = c.rng.below(1000) as i32;
                        let (ga, gm) = (a.get_mut(i), m.get_mut(i));
                        c.check(ga.is_some() == gm.is_some(), "get_mut", || format!("index {i}"));
                        if let (Some(ga), Some(gm)) = (ga, gm) {
                            c.check(ga == gm.as_slice(), "get_mut-contents", || format!("index {i}"));
                            if !gm.is_empty() { let k = c.rng.below(gm.len()); ga[k] = x; gm[k] = x; }
                        }
                    }
                    8 => {
                        let x = c.rng.below(1000) as i32;
                        if let (Some(ga), Some(gm)) = (a.first_mut(), m.first_mut()) {
                            for v in ga.iter_mut() { *v += x }
                            for v in gm.iter_mut() { *v += x }
                        } else { c.check(a.first_mut().is_none() && m.is_empty(), "first_mut", || "".into()); }
                    }
                    9 => {
                        let x = c.rng.below(1000) as i32;
                        if let (Some(ga), Some(gm)) = (a.last_mut(), m.last_mut()) {
                            for v in ga.iter_mut() { *v -= x }
                            for v in gm.iter_mut() { *v -= x }
                        } else { c.check(a.last_mut().is_none() && m.is_empty(), "last_mut", || "".into()); }
                    }
                    10 => {
                        // conversions and rebuilt equality
                        let v: Vec<Vec<i32>> = (&a).into();
                        c.check(v == m, "into-vec", || format!("{v:?} vs {m:?}"));
                        let b = NestedVec::from(&m);
                        c.check(a == b, "equality", || format!("equal lists compare different: {a:?} {b:?}"));
                        let mut m2 = m.clone();
                        if c.rng.bool() { m2.push(vec![]); } else if let Some(l) = m2.last_mut() { l.push(7); } else { m2.push(vec![1]); }
                        c.check(a != NestedVec::from(m2.clone()), "inequality", || format!("{a:?} == {m2:?}"));
                        if m.len() >= 2 {
                            // move an element across the boundary of neighbouring arrays: same flat data, different lists
                            let mut m3 = m.clone();
                            let i = c.rng.below(m3.len() - 1);
                            if let Some(x) = m3[i].pop() { m3[i + 1].insert(0, x); c.check(a != NestedVec::from(m3.clone()), "inequality", || format!("{a:?} == {m3:?}")); }
                        }
                    }
                    _ => {
                        let s = serde_json::to_string(&a).unwrap();
                        let b: Result<NestedVec<i32>, _> = serde_json::from_str(&s);
                        match b {
                            Ok(b) => { c.check(b == a, "serde", || format!("{s} -> {b:?}")); a = b; }
                            Err(e) => c.fail("serde", format!("{s}: {e}")),
                        }
                        let cl = a.clone();
                        c.check(cl == a, "clone", || "".into());
                    }
                }
                same(c, &a, &m, &format!("{ops:?}"));
            }
            c.count("operations", steps as u64);
            c.key((&ops, &m));
        },
    );
    run.section(
        "hostile-serialized",
        "serialized containers with edited offsets/data: whatever is accepted must behave as some list of lists (no panic, consistent observers)",
        4000, 100000, |c| {
            let m: Vec<Vec<i32>> = (0..c.rng.below(6)).map(|_| (0..c.rng.below(4)).map(|_| c.rng.below(9) as i32).collect()).collect();
            let mut v = serde_json::to_value(NestedVec::from(&m)).unwrap();
            for _ in 0..1 + c.rng.below(2) {
                let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
                let k = c.rng.pick(&keys).clone();
                let arr = v[&k].as_array_mut().unwrap();
                match c.rng.below(3) {
                    0 => { let p = c.rng.below(arr.len() + 1); arr.insert(p, serde_json::json!(c.rng.below(9))); }
                    1 if !arr.is_empty() => { let p = c.rng.below(arr.len()); arr.remove(p); }
                    _ if !arr.is_empty() => { let p = c.rng.below(arr.len()); arr[p] = serde_json::json!(c.rng.below(9)); }
                    _ => {}
                }
            }
            c.desc(v.to_string());
            let text = v.to_string();
            c.key(&text);
            let Ok(a) = serde_json::from_str::<NestedVec<i32>>(&text) else { c.count("refused", 1); c.check(true, "", || String::new()); return };
            c.count("accepted", 1);
            // the model is whatever get() shows; all other observers must agree with it
            let r = c.catch(|| (0..a.len()).map(|i| a.get(i).map(|s| s.to_vec())).collect::<Vec<_>>());
            match r {
                Ok(g) => {
                    c.check(g.iter().all(|x| x.is_some()), "accepted-inconsistent", || format!("{text}: get gives {g:?}"));
                    if g.iter().all(|x| x.is_some()) {
                        let m: Vec<Vec<i32>> = g.into_iter().map(|x| x.unwrap()).collect();
                        same(c, &a, &m, "deserialize");
                        c.check(a == NestedVec::from(&m), "accepted-equality", || format!("{text}"));
                    }
                }
                Err(e) => c.fail("accepted-panics", format!("{text}: {e}")),
            }
        },
    );
    run.section(
        "large",
        "containers with thousands of arrays and arrays of thousands of elements, built by push, by appender and from lists, edited at random places, every observer compared",
        60, 2000, |c| {
            let mut m: Vec<Vec<i32>> = vec![];
            let mut a: NestedVec<i32> = NestedVec::new();
            let total = *c.rng.pick(&[70usize, 130, 260, 520, 1030, 5000, 70_000]);
            let long = match c.rng.below(3) { 0 => 4, 1 => 300, _ => total };
            let mut sum = 0;
            while sum < total {
                let n = if c.rng.chance(0.1) { 0 } else { c.rng.below(long + 1) };
                let v: Vec<i32> = (0..n).map(|_| c.rng.below(1000) as i32).collect();
                match c.rng.below(2) {
                    0 => { a.push(&v); }
                    _ => { let mut app = a.begin_array(); for x in &v { app.push_single(*x); } c.check(app.count() == v.len(), "appender-count", || "".into()); }
                }
                sum += n + 1;
                m.push(v);
            }
            c.desc(format!("{} arrays, longest {}", m.len(), m.iter().map(|v| v.len()).max().unwrap_or(0)));
            same(c, &a, &m, "build");
            for _ in 0..5 {
                let i = c.rng.below(m.len());
                if let (Some(x), y) = (a.get_mut(i), &mut m[i]) {
                    if c.check(x == y.as_slice(), "get_mut-contents", || format!("index {i}")) && !y.is_empty() { let k = c.rng.below(y.len()); x[k] = -5; y[k] = -5; }
                } else { c.fail("get_mut", format!("index {i}")); }
            }
            same(c, &a, &m, "edit");
            for i in 0..m.len() { if a.get(i) != Some(m[i].as_slice()) { c.fail("get", format!("get({i})")); break; } }
            c.check(a == NestedVec::from(&m), "equality", || "".into());
            let s = serde_json::to_string(&a).unwrap();
            c.check(serde_json::from_str::<NestedVec<i32>>(&s).ok().as_ref() == Some(&a), "serde", || "".into());
            let v: Vec<Vec<i32>> = (&a).into();
            c.check(v == m, "into-vec", || "".into());
            a.clear(); m.clear();
            same(c, &a, &m, "clear");
            a.push(&[3]); m.push(vec![3]);
            same(c, &a, &m, "push after clear");
            c.key((total, long, sum));
        },
    );
    run.require("states_compared", 20_000);
}

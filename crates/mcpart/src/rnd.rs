use mce::*;
use rusty_machine::learning::toolkit::rand_utils as ru;
use std::collections::BTreeMap;

fn is_perm(v: &[u32], n: usize) -> bool {
    if v.len() != n { return false; }
    let mut seen = vec![false; n];
    for &x in v {
        if x as usize >= n || seen[x as usize] { return false; }
        seen[x as usize] = true;
    }
    true
}
fn fact(n: usize) -> f64 { (1..=n).map(|x| x as f64).product() }
fn binom(n: usize, k: usize) -> f64 { (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shuf { Copy, InPlace }
fn shuffle<T: Copy>(s: Shuf, v: &[T]) -> Vec<T> {
    match s {
        Shuf::Copy => ru::fisher_yates(v),
        Shuf::InPlace => { let mut w = v.to_vec(); ru::in_place_fisher_yates(&mut w); w }
    }
}
const BOTH: [Shuf; 2] = [Shuf::Copy, Shuf::InPlace];

/// Exact distribution check of a shuffle of `n` distinct elements.
fn uniform_perm(c: &Ch, s: Shuf, n: usize) -> R {
    let ids: Vec<u32> = (0..n as u32).collect();
    let d = c.distribution(|| shuffle(s, &ids));
    let mut w: BTreeMap<Vec<u32>, f64> = BTreeMap::new();
    let exact = d.iter().all(|x| x.2);
    for (v, p, _) in d {
        ensure!(is_perm(&v, n), "{:?} shuffle of {} distinct elements gave {:?}, which is not a permutation", s, n, v);
        c.saw(&v);
        *w.entry(v).or_insert(0.0) += p;
    }
    c.note(format!("{:?} n={} distinct permutations={}", s, n, w.len()));
    if exact {
        ensure!(w.len() as f64 == fact(n), "{:?} shuffle of {} elements reaches only {} of {} permutations", s, n, w.len(), fact(n));
        for (v, p) in &w {
            ensure!((p - 1.0 / fact(n)).abs() < 1e-9, "{:?} shuffle of {} elements yields {:?} with probability {} instead of 1/{}", s, n, v, p, fact(n));
        }
    }
    c.outcome(&w.len());
    Ok(())
}

/// Positions worth deviating at among `n`: the ends, the middle and those next to powers of two.
fn edge(i: usize, n: usize) -> bool {
    if n > 5000 { return i < 2 || i + 1 >= n || i == 256 || i == 65536; }
    i < 1 || i + 1 >= n || i == n / 2 || [128, 256, 1024, 4096, 32768, 65536].iter().any(|p| i == *p || i == p - 1 || (i == p + 1))
}
fn large_sizes(c: &Ch) -> Vec<usize> {
    let mut v: Vec<usize> = (7..=40).collect();
    v.extend([50, 63, 64, 65, 90, 100, 101, 127, 128, 129, 150, 200, 250, 255, 256, 257, 300, 400]);
    if c.thorough() { v.extend(41..=260); v.extend([499, 500, 501, 511, 512, 513, 600]); v.sort(); v.dedup(); }
    v
}

/// Does 65536 elements take so long that a million would not come to an end? (An implementation with a
/// quadratic number of steps is no error; it is not explored at the largest sizes.)
fn slow(c: &Ch, d: Default_, f: &mut dyn FnMut()) -> Result<bool, String> {
    let t = std::time::Instant::now();
    c.deviations(d, 0, || f(), |_| Ok(()))?;
    c.deviations(Default_::Cycle, 0, || f(), |_| Ok(()))?;
    Ok(t.elapsed().as_millis() > 120)
}

pub fn permutation() -> Property {
    let mut p = Property::new("C01");
    p.assume("uniform integer draws from rand 0.4 are uniform (the draw itself is the enumerated choice)");
    p.add("exhaustive", "n <= 9 (thorough 10) distinct elements, both shuffles, every random outcome: permutation, all n! reachable with equal exact probability", |c| {
        let s = c.of(&BOTH);
        let n = c.range(0, c.tier(9, 10));
        uniform_perm(c, s, n)
    });
    p.add("values", "n <= 5 elements with duplicates, four element types, every random outcome: same multiset", |c| {
        let s = c.of(&BOTH);
        let n = c.range(0, c.tier(4, 5));
        let v: Vec<usize> = c.vec_of(n, &[0, 1, 2]);
        let ty = c.pick(4);
        c.note(format!("{:?} {:?} type {}", s, v, ty));
        fn go<T: Copy + PartialOrd + std::fmt::Debug>(c: &Ch, s: Shuf, v: Vec<T>) -> R {
            let mut want = v.clone();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for (got, _, _) in c.distribution(|| shuffle(s, &v)) {
                let mut g = got.clone();
                g.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
                ensure!(g == want, "{:?} shuffle of {:?} gave {:?}", s, v, got);
            }
            Ok(())
        }
        match ty {
            0 => go(c, s, v.iter().map(|&x| x as u8).collect()),
            1 => go(c, s, v.iter().map(|&x| x as f64 - 0.5).collect()),
            2 => go(c, s, v.iter().map(|&x| [x as u64, x as u64 + 10, 7]).collect()),
            _ => go(c, s, v.iter().map(|&x| (x as u16, x == 1)).collect()),
        }
    });
    p.add("owned", "in-place shuffle of <= 5 owned values (boxes that count their drops, strings), every random outcome: same values, nothing dropped twice or lost, all orders equally likely", |c| {
        let n = c.range(0, 5);
        let strings = c.bool();
        c.note(format!("{} owned values", n));
        if strings {
            let want: Vec<String> = (0..n).map(|i| format!("value {}", i)).collect();
            let mut w: BTreeMap<Vec<String>, f64> = BTreeMap::new();
            let mut all = true;
            for (mut v, q, exact) in c.distribution(|| { let mut v = want.clone(); ru::in_place_fisher_yates(&mut v); v }) { *w.entry(v.clone()).or_insert(0.0) += q; all &= exact; v.sort(); ensure!(v == want, "{:?} instead of {:?}", v, want); }
            if all { for (o, q) in &w { ensure!((q - 1.0 / fact(n)).abs() < 1e-9, "strings: order {:?} has probability {} instead of 1/{}", o, q, fact(n)); } }
            return Ok(());
        }
        use std::cell::Cell;
        use std::rc::Rc;
        struct D(Rc<Vec<Cell<u32>>>, usize);
        impl Drop for D { fn drop(&mut self) { let c = &self.0[self.1]; c.set(c.get() + 1) } }
        let mut w: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
        let mut all = true;
        for (r, q, exact) in c.distribution(|| -> Result<Vec<usize>, String> {
            let drops = Rc::new(vec![Cell::new(0); n]);
            let mut v: Vec<Box<D>> = (0..n).map(|i| Box::new(D(drops.clone(), i))).collect();
            ru::in_place_fisher_yates(&mut v);
            ensure!(drops.iter().all(|d| d.get() == 0), "values were dropped while shuffling");
            let order: Vec<usize> = v.iter().map(|d| d.1).collect();
            let mut ids = order.clone();
            ids.sort();
            ensure!(ids == (0..n).collect::<Vec<_>>(), "values {:?}", ids);
            drop(v);
            ensure!(drops.iter().all(|d| d.get() == 1), "drops {:?}", drops);
            Ok(order)
        }) { *w.entry(r?).or_insert(0.0) += q; all &= exact; }
        if all { for (o, q) in &w { ensure!((q - 1.0 / fact(n)).abs() < 1e-9, "boxes: order {:?} has probability {} instead of 1/{}", o, q, fact(n)); } }
        Ok(())
    });
    p.add("owned-many", "in-place shuffle of 6 to 300 strings or boxes, at most one draw off the three default answers: same values, the conditions on probabilities as below", |c| {
        let n = c.of(&[6usize, 8, 13, 16, 17, 32, 33, 40, 64, 65, 100, 129, 257, 300]);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let boxes = c.bool();
        let what = || format!("in-place shuffle of {} {}", n, if boxes { "boxes" } else { "strings" });
        let mut b = Bound::new(factorial(n));
        let sb = &mut b;
        c.deviations_where(d, 1, |i, l, a, m| n <= 40 || edge(i, l) && edge(a as usize, m as usize), || -> Vec<usize> {
            if boxes { let mut v: Vec<Box<usize>> = (0..n).map(Box::new).collect(); ru::in_place_fisher_yates(&mut v); v.into_iter().map(|x| *x).collect() }
            else { let mut v: Vec<String> = (0..n).map(|i| i.to_string()).collect(); ru::in_place_fisher_yates(&mut v); v.iter().map(|x| x.parse().unwrap()).collect() }
        }, |mut v, drawn, _| { v.sort(); ensure!(v == (0..n).collect::<Vec<_>>(), "{}: values lost", what()); sb.see(&what, drawn) })?;
        b.end(&what)?;
        c.saw(&n);
        Ok(())
    });
    p.add("large-one-deviation", "n up to 400 (thorough 600): all draws at the default (0, max, middle) except at most one (two for n <= 16, thorough 32; above 130, thorough 400, one of those at either end, the middle and next to powers of two), which takes every value: permutation; no execution is more likely than 1/n!, n! divides the number of equally long executions, and if there are only n! they differ", |c| {
        let s = c.of(&BOTH);
        let n = c.of(&large_sizes(c));
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let ids: Vec<u32> = (0..n as u32).collect();
        let bound = if n <= c.tier(16, 32) { 2 } else { 1 };
        let what = || format!("{:?} shuffle of {}", s, n);
        let mut b = Bound::new(factorial(n));
        let mut seen = std::collections::HashSet::new();
        let mut twice = None;
        let (sb, ss, tw) = (&mut b, &mut seen, &mut twice);
        let all = n <= c.tier(130, 400);
        let runs = c.deviations_where(d, bound, |i, l, _, _| all || i + 8 > l || i < 8 || edge(i, l), || shuffle(s, &ids), |v, drawn, _| {
            ensure!(is_perm(&v, n), "{:?} shuffle of {} distinct elements is not a permutation: {:?}", s, n, v);
            sb.see(&what, drawn)?;
            if !ss.insert(bound::hash(&v)) { *tw = Some(v); }
            Ok(())
        })?;
        // as many executions as permutations: no two may lead to the same one
        if b.end(&what)? { if let Some(v) = twice { return Err(format!("{}: two outcomes of the draws lead to {:?}, so that another permutation is missed", what(), v)); } }
        c.note(format!("{:?} n={} default {:?}: {} runs", s, n, d, runs));
        c.saw(&(n, runs));
        Ok(())
    });
    p.add("coarse-draws", "both shuffles of 3..=40 elements, at most one draw off the three default answers: if every execution draws the same whole words of up to 24 bits or integers, n! divides their number of alternatives", |c| {
        let n = c.range(3, 40);
        let s = c.of(&BOTH);
        let ids: Vec<u32> = (0..n as u32).collect();
        let what = || format!("{:?} shuffle of {}", s, n);
        let mut b = Bound::new(factorial(n)).coarse();
        let sb = &mut b;
        for d in [Default_::Zero, Default_::Max, Default_::Half] { c.deviations_where(d, 1, |i, l, a, m| n <= 12 || edge(i, l) && edge(a as usize, m as usize), || shuffle(s, &ids), |_, drawn, _| sb.see(&what, drawn))?; }
        b.end(&what)?;
        c.saw(&n);
        Ok(())
    });
    p.add("huge", "every n <= 700 and sizes around 1024, 4096, 65536, 100000, 131072 and up to 1048577 with the three default answers, and for the latter and some of the others also one deviating draw at the first, middle and last positions (up to 2100 elements to every alternative) and those next to powers of two, to the first, middle and last alternatives and those next to powers of two: permutation, the conditions on probabilities as above", |c| {
        let s = c.of(&BOTH);
        let mut sizes: Vec<usize> = (0..=700).collect();
        sizes.extend([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 65700, 100000, 131071, 131072, 131073, 262145, 524289, 1048577]);
        let n = c.of(&sizes);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let lazy = n > 20000 && slow(c, d, &mut || { shuffle(s, &(0..65536u32).collect::<Vec<_>>()); })?;
        if lazy && n > 100000 { return Ok(()); }
        let ids: Vec<u32> = (0..n as u32).collect();
        let what = || format!("{:?} shuffle of {}", s, n);
        let mut b = Bound::new(factorial(n));
        let mut seen = std::collections::HashSet::new();
        let mut twice = false;
        let (sb, ss, tw) = (&mut b, &mut seen, &mut twice);
        let bound = (n > 700 && n <= 100000 && !lazy || [450, 500, 512, 513, 600, 700].contains(&n)) as usize;
        c.deviations_where(d, bound, |i, l, a, m| (n <= 2100 && (i == 0 || i == l / 2 || i + 3 > l)) || edge(i, l) && edge(a as usize, m as usize), || shuffle(s, &ids), |v, drawn, _| {
            ensure!(is_perm(&v, n), "{:?} shuffle of {} distinct elements is not a permutation", s, n);
            sb.see(&what, drawn)?;
            *tw |= !ss.insert(bound::hash(&v));
            Ok(())
        })?;
        if bound > 0 && b.end(&what)? { ensure!(!twice, "{}: two outcomes of the draws lead to the same permutation, so that another is missed", what()); }
        c.saw(&n);
        Ok(())
    });
    p.add("parts", "every part of up to 5 of 9 numbers shuffled in place or copied, every random outcome: a permutation of that part, nothing around it changes", |c| {
        let s = c.of(&BOTH);
        let n = c.range(0, c.tier(4, 5));
        let at = c.range(0, 9 - n);
        c.note(format!("{:?} of {}..{} of 9", s, at, at + n));
        let v: Vec<u64> = (0..9).map(|x| 1000 + x).collect();
        let mut seen = std::collections::BTreeSet::new();
        for (w, _, exact) in c.distribution(|| { let mut w = v.clone(); match s { Shuf::Copy => { let x = ru::fisher_yates(&w[at..at + n]); w[at..at + n].copy_from_slice(&x); } Shuf::InPlace => ru::in_place_fisher_yates(&mut w[at..at + n]) } w }) {
            let mut x = w.clone();
            x[at..at + n].sort();
            ensure!(x == v, "{:?} shuffle of elements {}..{} of {:?} gave {:?}", s, at, at + n, v, w);
            seen.insert((w, exact));
        }
        ensure!(seen.iter().any(|x| !x.1) || seen.len() as f64 == fact(n), "{} of {} orders reachable", seen.len(), fact(n));
        Ok(())
    });
    p.add("element-sizes", "elements of 0, 1, 2, 16, 40, 264 and 4096 bytes, up to 4 of them (every random outcome, equally likely orders), and 40, 130, 300 and 1100 with at most one draw off three default answers: intact, same values, the conditions on probabilities as above", |c| {
        fn go<T: Copy>(c: &Ch, make: fn(u16) -> T, id: fn(&T) -> Option<u16>) -> R {
            let s = c.of(&BOTH);
            let n = c.of(&[0usize, 1, 2, 3, 4, 40, 130, 300, 1100]);
            let v: Vec<T> = (0..n as u16).map(make).collect();
            let want: Vec<u16> = v.iter().filter_map(id).collect();
            let test = |w: Vec<T>| -> R {
                ensure!(w.len() == n, "{} elements became {}", n, w.len());
                let mut got: Vec<u16> = w.iter().filter_map(id).collect();
                got.sort();
                ensure!(got == want, "{:?} shuffle of {} elements of {} bytes: torn or lost elements, {:?} remain", s, n, std::mem::size_of::<T>(), &got[..got.len().min(20)]);
                Ok(())
            };
            c.note(format!("{:?} of {} elements of {} bytes", s, n, std::mem::size_of::<T>()));
            if n <= 4 {
                let mut p: BTreeMap<Vec<u16>, f64> = BTreeMap::new();
                let mut all = true;
                for (w, q, exact) in c.distribution(|| shuffle(s, &v)) { all &= exact; *p.entry(w.iter().filter_map(id).collect()).or_insert(0.0) += q; test(w)?; }
                if all && want.len() == n { for (o, q) in &p { ensure!((q - 1.0 / fact(n)).abs() < 1e-9, "{:?} shuffle of {} elements of {} bytes: order {:?} has probability {} instead of 1/{}", s, n, std::mem::size_of::<T>(), o, q, fact(n)); } }
            }
            else {
                let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
                let what = || format!("{:?} shuffle of {} elements of {} bytes", s, n, std::mem::size_of::<T>());
                let mut b = Bound::new(factorial(n));
                let sb = &mut b;
                // one draw off the default, to the alternatives at either end and next to powers of two
                c.deviations_where(d, 1, |i, l, a, m| (i == 0 || i == l / 2 || i + 3 > l) && edge(a as usize, m as usize), || shuffle(s, &v), |w, drawn, _| { test(w)?; sb.see(&what, drawn) })?;
                b.end(&what)?;
            }
            Ok(())
        }
        #[derive(Clone, Copy)] struct Big([u16; 132]);
        #[derive(Clone, Copy)] struct Page([u16; 2048]);
        match c.pick(7) {
            0 => go(c, |_| (), |_| None),
            1 => go(c, |x| (x % 251) as u8, |_| None),
            2 => go(c, |x| x, |x| Some(*x)),
            3 => go(c, |x| (x as u64, !(x as u64)), |x| if x.0 == !x.1 { Some(x.0 as u16) } else { None }),
            4 => go(c, |x| [x as u64; 5], |x| if x.iter().all(|y| *y == x[0]) { Some(x[0] as u16) } else { None }),
            5 => go(c, |x| Big([x; 132]), |x| if x.0.iter().all(|y| *y == x.0[0]) { Some(x.0[0]) } else { None }),
            _ => go(c, |x| Page([x; 2048]), |x| if x.0.iter().all(|y| *y == x.0[0]) { Some(x.0[0]) } else { None }),
        }
    });
    p.add("repeated-calls", "two calls in a row (sizes <= 4), every outcome of the first: the second is again exactly uniform", |c| {
        let s1 = c.of(&BOTH);
        let n1 = c.range(0, c.tier(3, 4));
        let kind = c.pick(2);
        if kind == 0 { let ids: Vec<u32> = (0..n1 as u32).collect(); shuffle(s1, &ids); }
        else { let pool: Vec<u32> = (0..n1 as u32).collect(); ru::reservoir_sample(&pool, n1 / 2); }
        c.op();
        let s2 = c.of(&BOTH);
        let n2 = c.range(1, 4);
        c.note(format!("{:?} n={} then {:?} n={}", s1, n1, s2, n2));
        uniform_perm(c, s2, n2)
    });
    p
}

fn check_subset(v: &[u32], n: usize, k: usize) -> R {
    ensure!(v.len() == k, "asked for {} of {} and got {} elements", k, n, v.len());
    let mut seen = vec![false; n];
    for &x in v {
        ensure!((x as usize) < n, "sample of {} of {} contains {} which is not in the pool", k, n, x);
        ensure!(!seen[x as usize], "sample of {} of {} takes position {} twice: {:?}", k, n, x, v);
        seen[x as usize] = true;
    }
    Ok(())
}

fn uniform_subsets(c: &Ch, n: usize, k: usize) -> R {
    let pool: Vec<u32> = (0..n as u32).collect();
    let d = c.distribution(|| ru::reservoir_sample(&pool, k));
    let exact = d.iter().all(|x| x.2);
    let mut w: BTreeMap<Vec<u32>, f64> = BTreeMap::new();
    for (mut v, p, _) in d {
        check_subset(&v, n, k)?;
        c.saw(&v);
        v.sort();
        *w.entry(v).or_insert(0.0) += p;
    }
    c.note(format!("pool {} size {}: {} subsets", n, k, w.len()));
    if exact {
        let b = binom(n, k);
        ensure!((w.len() as f64 - b).abs() < 0.5, "sampling {} of {} reaches {} of {} subsets", k, n, w.len(), b);
        for (v, p) in &w {
            ensure!((p - 1.0 / b).abs() < 1e-9, "sampling {} of {} yields {:?} with probability {} instead of 1/{}", k, n, v, p, b);
        }
    }
    c.outcome(&w.len());
    Ok(())
}

/// Samples with few draws off three default answers: every one is sound and none too likely; each element is in
/// some and not in all of them (if all deviations are tried); a draw that alone decides about the last element
/// takes it with the right probability.
fn one_deviation(c: &Ch, n: usize, k: usize, bound: usize, keep: &dyn Fn(usize, usize, u32, u32) -> bool) -> R {
    let pool: Vec<u32> = (0..n as u32).collect();
    let whole = n <= 520 && keep(0, 9, 5, 9) && keep(4, 9, 3, 9);
    let what = || format!("sampling {} of {}", k, n);
    let mut b = Bound::new(choices(n, k));
    let (mut inn, mut counts) = (vec![false; n], (0usize, vec![0usize; n]));
    // does the last element's fate hang on one draw only? then k in n of its alternatives take it
    let (mut fixed, mut takes, mut len) = (true, vec![], 0);
    // is there one draw for each element behind the first k, among as many alternatives as were seen by then?
    let mut each = true;
    for d in [Default_::Zero, Default_::Max, Default_::Half] {
        let (sb, i, o) = (&mut b, &mut inn, &mut counts);
        let mut arity = vec![];
        let mut base = None;
        let mut by = BTreeMap::new();
        c.deviations_where(d, bound, keep, || ru::reservoir_sample(&pool, k), |v, drawn, dev| {
            check_subset(&v, n, k)?;
            if bound == 1 {
                let has = v.contains(&(n as u32 - 1));
                match (dev, drawn) { (None, Some(a)) => { arity = a.to_vec(); len = a.len(); base = Some(has); } (Some((p, _)), Some(a)) => { if a != &arity[..] { fixed = false; } if Some(has) != base { *by.entry(p).or_insert(0u32) += 1; } } _ => fixed = false }
            }
            sb.see(&what, drawn)?;
            // (other ways of drawing a sample need not reach every element within one deviation)
            each &= drawn.map_or(false, |a| a.len() == n - k && a.iter().enumerate().all(|(i, x)| *x as usize == k + 1 + i));
            o.0 += 1;
            for x in v { i[x as usize] = true; o.1[x as usize] += 1; }
            Ok(())
        })?;
        if by.len() > 1 { fixed = false; }
        takes.push(by.iter().next().map(|(p, m)| (*p, if base == Some(true) { arity[*p] - m } else { *m }, arity[*p])));
    }
    b.end(&what)?;
    if bound == 1 && fixed && k > 0 && k < n && takes.iter().all(|t: &Option<(usize, u32, u32)>| t.map(|t| t.0) == takes[0].map(|t| t.0)) {
        for t in takes { if let Some((p, m, a)) = t { if !(0..a).all(|x| keep(p, len, x, a)) { continue; } ensure!(m as usize * n == a as usize * k, "{}: draw {} alone decides about the last element, and takes it in {} of its {} alternatives", what(), p + 1, m, a); } }
    }
    for x in 0..if each { n } else { 0 } {
        ensure!(k == 0 || inn[x] || !whole, "sampling {} of {}: element {} is never sampled", k, n, x);
        ensure!(k == n || counts.1[x] < counts.0 || !whole, "sampling {} of {}: element {} is always sampled", k, n, x);
    }
    Ok(())
}

pub fn reservoir() -> Property {
    let mut p = Property::new("C02");
    p.assume("uniform integer draws from rand 0.4 are uniform (the draw itself is the enumerated choice)");
    p.add("exhaustive", "pool <= 9 (thorough 10), every size (from 2 for pools over 8), every random outcome: distinct pool positions, every subset with equal exact probability", |c| {
        let n = c.range(0, c.tier(9, 10));
        let k = c.range(0, n);
        if n > 8 && k < c.tier(2, 2) { return Ok(()) }
        uniform_subsets(c, n, k)
    });
    p.add("too-large", "size > pool: rejected with a panic for every pool <= 5 and excess <= 3", |c| {
        let n = c.range(0, 5);
        let k = n + c.range(1, 3);
        let pool: Vec<u32> = (0..n as u32).collect();
        c.op();
        let r = guard(|| ru::reservoir_sample(&pool, k));
        ensure!(r.is_err(), "reservoir_sample of {} from a pool of {} returned {:?}", k, n, r);
        Ok(())
    });
    p.add("values", "pools of <= 5 values with duplicates, three element types: the sample is a sub-multiset of the pool", |c| {
        let n = c.range(0, 4);
        let v = c.vec_of(n, &[0u32, 1, 2]);
        let k = c.range(0, n);
        let ty = c.pick(2);
        fn go<T: Copy + PartialEq + std::fmt::Debug>(c: &Ch, v: &[T], k: usize) -> R {
            for (s, _, _) in c.distribution(|| ru::reservoir_sample(v, k)) {
                ensure!(s.len() == k, "size {} instead of {}", s.len(), k);
                let mut left = v.to_vec();
                for x in &s {
                    match left.iter().position(|y| y == x) {
                        Some(i) => { left.remove(i); }
                        None => return Err(format!("sample {:?} is not a sub-multiset of {:?}", s, v)),
                    }
                }
            }
            Ok(())
        }
        if ty == 0 { go(c, &v.iter().map(|&x| x as f64 * 1.5).collect::<Vec<_>>(), k) }
        else { go(c, &v.iter().map(|&x| (x as u8, [x as u64; 3])).collect::<Vec<_>>(), k) }
    });
    p.add("large-one-deviation", "pools of 7..=40 and up to 257 (thorough all up to 260, up to 513), sizes at both ends and middle (every size for pools up to 24, thorough 64): at most one draw (two for pools up to 12, thorough 20) off the defaults 0, max and middle: distinct pool positions; no execution is more likely than a subset and the number of subsets divides that of equally long executions; where there is one draw per further element, every pool element is sampled in some outcome and (if the sample is smaller than the pool) left out of some", |c| {
        let n = c.of(&large_sizes(c).into_iter().filter(|&n| n <= c.tier(260, 520)).collect::<Vec<_>>());
        let ks: Vec<usize> = if n <= c.tier(24, 64) { (0..=n).collect() } else { if n <= c.tier(70, 260) { vec![0, 1, 2, n / 3, n / 2, n - 2, n - 1, n] } else { vec![1, n / 2, n - 1] } };
        let k = c.of(&ks);
        let bound = if n <= c.tier(12, 20) { 2 } else { 1 };
        one_deviation(c, n, k, bound, &|_, _, _, _| true)?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("element-sizes", "elements of 0, 16, 264 and 4096 bytes, pools of up to 4 (every random outcome, equally likely subsets), and of 40, 130, 300 and 1100 with at most one draw off three default answers: distinct intact elements, the conditions on probabilities as below", |c| {
        fn go<T: Copy>(c: &Ch, make: fn(u16) -> T, id: fn(&T) -> Option<u16>) -> R {
            let n = c.of(&[0usize, 1, 2, 3, 4, 40, 130, 300, 1100]);
            let k = if n <= 4 { c.range(0, n) } else { c.of(&[0, 1, n / 2, n - 1, n]) };
            let v: Vec<T> = (0..n as u16).map(make).collect();
            let test = |w: Vec<T>| -> R {
                ensure!(w.len() == k, "{} of {} gave {}", k, n, w.len());
                if std::mem::size_of::<T>() == 0 { return Ok(()); }
                let mut got: Vec<u16> = w.iter().filter_map(id).collect();
                got.sort();
                got.dedup();
                ensure!(got.len() == k && got.iter().all(|x| (*x as usize) < n), "{} of {} elements of {} bytes: torn or repeated elements, {:?} remain", k, n, std::mem::size_of::<T>(), &got[..got.len().min(20)]);
                Ok(())
            };
            c.note(format!("{} of {} elements of {} bytes", k, n, std::mem::size_of::<T>()));
            if n <= 4 {
                let mut p: BTreeMap<Vec<u16>, f64> = BTreeMap::new();
                let mut all = true;
                for (w, q, exact) in c.distribution(|| ru::reservoir_sample(&v, k)) { all &= exact; let mut x: Vec<u16> = w.iter().filter_map(id).collect(); x.sort(); *p.entry(x).or_insert(0.0) += q; test(w)?; }
                if all && std::mem::size_of::<T>() > 0 { for (o, q) in &p { ensure!((q - 1.0 / binom(n, k)).abs() < 1e-9, "{} of {} elements of {} bytes: {:?} has probability {} instead of 1/{}", k, n, std::mem::size_of::<T>(), o, q, binom(n, k)); } }
            }
            else {
                let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
                let what = || format!("sampling {} of {} elements of {} bytes", k, n, std::mem::size_of::<T>());
                let mut b = Bound::new(choices(n, k));
                let sb = &mut b;
                c.deviations_where(d, 1, |i, l, a, m| (i == 0 || i == l / 2 || i + 3 > l) && edge(a as usize, m as usize), || ru::reservoir_sample(&v, k), |w, drawn, _| { test(w)?; sb.see(&what, drawn) })?;
                b.end(&what)?;
            }
            Ok(())
        }
        #[derive(Clone, Copy)] struct Big([u16; 132]);
        #[derive(Clone, Copy)] struct Page([u16; 2048]);
        match c.pick(4) {
            0 => go(c, |_| (), |_| None),
            1 => go(c, |x| (x as u64, !(x as u64)), |x| if x.0 == !x.1 { Some(x.0 as u16) } else { None }),
            2 => go(c, |x| Big([x; 132]), |x| if x.0.iter().all(|y| *y == x.0[0]) { Some(x.0[0]) } else { None }),
            _ => go(c, |x| Page([x; 2048]), |x| if x.0.iter().all(|y| *y == x.0[0]) { Some(x.0[0]) } else { None }),
        }
    });
    p.add("last-element", "pools of 255 to 5000, sizes 1, 2, n / 2, n - 1 (from 700 elements 1 and n / 2, from 2100 only 1): every alternative of the last draw, those at either end and next to powers of two for the draws at such places: as large-one-deviation", |c| {
        let mut sizes = vec![255usize, 256, 257, 400, 500, 512, 513, 700, 1000, 1001, 1025, 2049, 4097];
        if c.thorough() { sizes.extend([300, 600, 800, 900, 1500, 3000, 5000]); }
        let n = c.of(&sizes);
        let k = if n <= 700 { c.of(&[1, 2, n / 2, n - 1]) } else { c.of(&[1, n / 2]) };
        if n > 2100 && k > 1 { return Ok(()); }
        one_deviation(c, n, k, 1, &|i, l, a, m| i + 1 == l || (edge(i, l.max(5001)) && edge(a as usize, (m as usize).max(5001))))?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("coarse-draws", "every sample of 3..=40 elements, at most one draw off the three default answers: if every execution draws the same whole words of up to 24 bits or integers, the number of subsets divides their number of alternatives", |c| {
        let n = c.range(3, 40);
        let k = c.range(0, n);
        let ids: Vec<u32> = (0..n as u32).collect();
        let what = || format!("sampling {} of {}", k, n);
        let mut b = Bound::new(choices(n, k)).coarse();
        let sb = &mut b;
        for d in [Default_::Zero, Default_::Max, Default_::Half] { c.deviations_where(d, 1, |i, l, a, m| n <= 12 || edge(i, l) && edge(a as usize, m as usize), || ru::reservoir_sample(&ids, k), |_, drawn, _| sb.see(&what, drawn))?; }
        b.end(&what)?;
        c.saw(&n);
        Ok(())
    });
    p.add("huge", "every pool of up to 400 and pools around 1024, 4096, 65536 and (default answers only) 131073 to 1048577: at most one draw off the three default answers, at either end, the middle and next to powers of two, to alternatives at such places: distinct pool positions; no execution more likely than a subset, the number of subsets divides that of equally long executions", |c| {
        let mut sizes: Vec<usize> = (0..=400).collect();
        sizes.extend([1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 131073, 262145, 1048577]);
        let n = c.of(&sizes);
        let k = c.of(&[0, 1.min(n), n / 2, n.saturating_sub(1), n]);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let pool: Vec<u32> = (0..n as u32).collect();
        let lazy = n > 20000 && slow(c, d, &mut || { let p: Vec<u32> = (0..65536).collect(); ru::reservoir_sample(&p, (k as u64 * 65536 / n as u64) as usize); })?;
        if lazy && n > 100000 { return Ok(()); }
        let what = || format!("sampling {} of {}", k, n);
        let mut b = Bound::new(choices(n, k));
        let sb = &mut b;
        c.deviations_where(d, (n > 260 && n < 100000 && !lazy) as usize, |i, l, a, m| edge(i, l.max(5001)) && edge(a as usize, (m as usize).max(5001)), || ru::reservoir_sample(&pool, k), |v, drawn, _| { check_subset(&v, n, k)?; sb.see(&what, drawn) })?;
        b.end(&what)?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("repeated-calls", "a call after any outcome of an earlier call is again exactly uniform", |c| {
        let n1 = c.range(0, 4);
        let k1 = c.range(0, n1);
        let pool: Vec<u32> = (0..n1 as u32).collect();
        c.op();
        if c.bool() { ru::reservoir_sample(&pool, k1); } else { ru::fisher_yates(&pool); }
        let n = c.range(1, c.tier(4, 5));
        let k = c.range(0, n);
        uniform_subsets(c, n, k)
    });
    p
}

//! Graphs as matrices, and what is true of them.
use crate::gen::Raw;
use crate::rng::Rng;
use crate::val::Val;

/// The graph number `i` of those with up to `n` nodes, all edges and loops allowed.
pub fn numbered(mut i: u64, n: usize) -> (usize, Vec<(usize, usize)>) {
    for k in 0..=n {
        let c = 1u64 << (k * k);
        if i < c || k == n {
            let mut e = vec![];
            for b in 0..k * k {
                if i >> b & 1 == 1 {
                    e.push((b / k, b % k));
                }
            }
            return (k, e);
        }
        i -= c;
    }
    unreachable!()
}
pub const UP_TO_4: u64 = 1 + 2 + 16 + 512 + 65536;

/// The graph number `i` of those with five nodes and no loops.
pub fn five(i: u64) -> (usize, Vec<(usize, usize)>) {
    let mut e = vec![];
    let mut b = 0;
    for x in 0..5 {
        for y in 0..5 {
            if x != y {
                if i >> b & 1 == 1 {
                    e.push((x, y));
                }
                b += 1;
            }
        }
    }
    (5, e)
}
pub const FIVE: u64 = 1 << 20;

/// A graph of up to `max` nodes with up to `emax` edges.
pub fn random(r: &mut Rng, max: usize, emax: usize, big: bool) -> (usize, Vec<(usize, usize)>) {
    let n = if big {
        *r.pick(&[200, 1000, 1025, 5000, 20_000, 65_536, 70_001])
    } else {
        match r.below(10) {
            0 => r.below(3),
            1..=5 => r.range(2, 12),
            6 | 7 => r.range(5, 40),
            8 => r.range(30, 130),
            _ => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256]),
        }
    }
    .min(max);
    let mut e: Vec<(usize, usize)> = vec![];
    if n == 0 {
        return (0, e);
    }
    let parts = if r.chance(1, 2) { 1 } else { r.range(1, 4) };
    for _ in 0..parts {
        // A structure over a random subset of the nodes.
        let mut v: Vec<usize> = (0..n).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut v);
        }
        if parts > 1 {
            v.truncate(r.range(1, n));
        }
        let k = v.len();
        match r.below(13) {
            0 => (1..k).for_each(|i| e.push((v[i - 1], v[i]))),
            1 => (1..k).for_each(|i| e.push((v[i], v[i - 1]))),
            2 => (0..k).for_each(|i| e.push((v[i], v[(i + 1) % k]))),
            3 => (1..k).for_each(|i| e.push((v[0], v[i]))),
            4 => (1..k).for_each(|i| e.push((v[i], v[0]))),
            5 => (1..k).for_each(|i| e.push((v[(i - 1) / 2], v[i]))),
            6 => (1..k).for_each(|i| {
                let p = v[r.below(i)];
                e.push(if r.chance(1, 2) { (p, v[i]) } else { (v[i], p) })
            }),
            7 => {
                // A chain of cycles.
                let mut i = 0;
                while i < k {
                    let l = r.range(1, 6).min(k - i);
                    for x in 0..l {
                        e.push((v[i + x], v[i + (x + 1) % l]));
                    }
                    if i + l < k && r.chance(2, 3) {
                        let (a, b) = (v[i + r.below(l)], v[i + l]);
                        e.push(if r.chance(3, 4) { (a, b) } else { (b, a) });
                    }
                    i += l;
                }
            }
            8 if k <= 30 => {
                for i in 0..k {
                    for j in 0..k {
                        if i != j {
                            e.push((v[i], v[j]));
                        }
                    }
                }
            }
            9 => {
                // Acyclic.
                for _ in 0..k * r.range(1, 3) {
                    let (a, b) = (r.below(k), r.below(k));
                    if a < b {
                        e.push((v[a], v[b]));
                    }
                }
            }
            10 => (0..k).for_each(|i| {
                if r.chance(1, 2) {
                    e.push((v[i], v[i]))
                }
            }),
            11 => {
                // A ladder with back edges.
                for i in 1..k {
                    e.push((v[i - 1], v[i]));
                    if r.chance(1, 4) {
                        e.push((v[i], v[r.below(i)]));
                    }
                }
            }
            _ => {
                for _ in 0..(k as f64 * (r.unit() * 2.5)) as usize {
                    e.push((v[r.below(k)], v[r.below(k)]));
                }
            }
        }
    }
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let i = r.below(n);
            e.push((i, i));
        }
    }
    e.truncate(emax);
    (n, e)
}

/// Adds every missing opposite edge, within the budget.
pub fn symmetric(e: &mut Vec<(usize, usize)>, emax: usize) {
    e.truncate(emax / 2);
    let rev: Vec<_> = e.iter().filter(|x| x.0 != x.1).map(|x| (x.1, x.0)).collect();
    e.extend(rev);
}

/// The edges as stored entries: sorted or not, merged or repeated, some of them explicit zeros.
pub fn matrix<T: Val>(r: &mut Rng, n: usize, edges: &[(usize, usize)], emax: usize) -> Raw<T> {
    let mut e = edges.to_vec();
    match r.below(4) {
        0 => {
            // Repeat some edges.
            for _ in 0..r.below(1 + e.len().min(12)) {
                if e.len() < emax {
                    let x = e[r.below(e.len())];
                    let at = r.below(e.len() + 1);
                    e.insert(at, x);
                }
            }
        }
        1 | 2 => {
            e.sort_unstable();
            e.dedup();
        }
        _ => {}
    }
    let shuffle = r.chance(1, 3);
    let mut rows: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, j) in e {
        rows[i].push(j);
    }
    let zp = *r.pick(&[0usize, 0, 0, 40, 100]);
    let mut raw = Raw { major: n, minor: n, ptr: vec![0], idx: vec![], val: vec![] };
    for mut row in rows {
        if shuffle {
            r.shuffle(&mut row);
        }
        for j in row {
            raw.idx.push(j);
            raw.val.push(if r.below(100) < zp { T::zero() } else { T::gen(r) });
        }
        raw.ptr.push(raw.idx.len());
    }
    raw
}

pub fn undirected(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut [usize], mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    for &(a, b) in e {
        let (x, y) = (find(&mut p, a), find(&mut p, b));
        p[x] = y;
    }
    (0..n).map(|x| find(&mut p, x)).collect()
}

/// Strong classes by two searches (Kosaraju).
pub fn strong(n: usize, e: &[(usize, usize)]) -> Vec<usize> {
    let mut f = vec![vec![]; n];
    let mut g = vec![vec![]; n];
    for &(a, b) in e {
        f[a].push(b);
        g[b].push(a);
    }
    let mut seen = vec![false; n];
    let mut order = vec![];
    for s in 0..n {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let mut st = vec![(s, 0)];
        while let Some((v, k)) = st.pop() {
            if k < f[v].len() {
                st.push((v, k + 1));
                let w = f[v][k];
                if !seen[w] {
                    seen[w] = true;
                    st.push((w, 0));
                }
            } else {
                order.push(v);
            }
        }
    }
    let mut class = vec![usize::MAX; n];
    for &s in order.iter().rev() {
        if class[s] != usize::MAX {
            continue;
        }
        class[s] = s;
        let mut st = vec![s];
        while let Some(v) = st.pop() {
            for &w in &g[v] {
                if class[w] == usize::MAX {
                    class[w] = s;
                    st.push(w);
                }
            }
        }
    }
    class
}

/// The labels must name the same classes, be contiguous from zero, and be as many as counted.
pub fn partition(class: &[usize], count: usize, labels: &[usize]) -> Result<(), String> {
    let n = class.len();
    if labels.len() != n {
        return Err(format!("{} labels for {} nodes", labels.len(), n));
    }
    let mut name: Vec<Option<usize>> = vec![None; n];
    let mut used: Vec<Option<usize>> = vec![None; n];
    let mut k = 0;
    for v in 0..n {
        if labels[v] >= n {
            return Err(format!("node {} has label {} among {} nodes", v, labels[v], n));
        }
        match (name[class[v]], used[labels[v]]) {
            (None, None) => {
                name[class[v]] = Some(labels[v]);
                used[labels[v]] = Some(class[v]);
                k += 1;
            }
            (Some(l), Some(c)) if l == labels[v] && c == class[v] => {}
            (Some(l), _) if l != labels[v] => return Err(format!("node {} has label {} but belongs with label {}", v, labels[v], l)),
            (_, c) => return Err(format!("node {} has the label {} of the class of node {:?}", v, labels[v], c)),
        }
    }
    if let Some(l) = (0..k).find(|&l| used[l].is_none()) {
        return Err(format!("label {} is skipped with {} classes", l, k));
    }
    if count != k {
        return Err(format!("count {} with {} classes", count, k));
    }
    Ok(())
}

/// Whether the order and the predecessors are those of a depth-first traversal.
pub fn traversal(n: usize, e: &[(usize, usize)], start: usize, order: &[usize], pred: &[Option<usize>]) -> Result<usize, String> {
    if pred.len() != n {
        return Err(format!("{} predecessors for {} nodes", pred.len(), n));
    }
    let mut adj = vec![vec![]; n];
    let mut set = std::collections::HashSet::new();
    for &(a, b) in e {
        if set.insert((a, b)) {
            adj[a].push(b);
        }
    }
    // Reachable nodes.
    let mut reach = vec![false; n];
    reach[start] = true;
    let mut st = vec![start];
    let mut total = 1;
    while let Some(v) = st.pop() {
        for &w in &adj[v] {
            if !reach[w] {
                reach[w] = true;
                total += 1;
                st.push(w);
            }
        }
    }
    if order.first() != Some(&start) {
        return Err(format!("the list starts with {:?}, not {}", order.first(), start));
    }
    let mut pos = vec![usize::MAX; n];
    for (k, &v) in order.iter().enumerate() {
        if v >= n || !reach[v] {
            return Err(format!("node {} is listed but cannot be reached from {}", v, start));
        }
        if pos[v] != usize::MAX {
            return Err(format!("node {} is listed twice", v));
        }
        pos[v] = k;
    }
    if order.len() != total {
        return Err(format!("{} nodes listed, {} reachable", order.len(), total));
    }
    for v in 0..n {
        match pred[v] {
            None if v != start && reach[v] => return Err(format!("reached node {} has no predecessor", v)),
            Some(p) if v == start || !reach[v] => return Err(format!("node {} has predecessor {}", v, p)),
            Some(p) if p >= n || !set.contains(&(p, v)) => return Err(format!("node {} has predecessor {} without an edge", v, p)),
            Some(p) if pos[p] >= pos[v] => return Err(format!("node {} is listed before its predecessor {}", v, p)),
            _ => {}
        }
    }
    // The list is a preorder: each node's parent is on the stack of open ancestors.
    let mut end = vec![0; order.len()];
    let mut open: Vec<usize> = vec![];
    for (k, &v) in order.iter().enumerate() {
        if let Some(p) = pred[v] {
            while open.last() != Some(&p) {
                match open.pop() {
                    Some(x) => end[pos[x]] = k,
                    None => return Err(format!("node {} is listed after the subtree of its predecessor {} was left", v, p)),
                }
            }
        }
        open.push(v);
    }
    for x in open {
        end[pos[x]] = order.len();
    }
    // No edge leads from a node to a later one outside its subtree.
    for (a, l) in adj.iter().enumerate() {
        if pos[a] == usize::MAX {
            continue;
        }
        for &b in l {
            if pos[b] > pos[a] && pos[b] >= end[pos[a]] {
                return Err(format!("the traversal left node {} although {} was not visited yet", a, b));
            }
        }
    }
    Ok(total)
}

//! C23: the different ways of reading a tree agree, and its shape statistics equal their definitions.
use crate::run::{h, Run, Seen};
use crate::treechecks::{name, queries};
use crate::trees::*;
use goko::query_tools::KnnQueryHeap;
use goko::*;
use pointcloud::*;
use std::collections::BTreeSet;

/// Equal up to rounding; both infinite or both undefined counts as equal.
fn close(a: f32, b: f64) -> bool {
    let a = a as f64;
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-3 * b.abs().max(1.0)
}

fn lookups<D: PointCloud>(r: &CoverTreeReader<D>, s: &Snap, p: &Params, n: usize) -> Result<u64, String> {
    let mut count = 0;
    let lo = p.min_res - 1;
    let hi = lo + r.len() as i32;
    if r.is_empty() || r.node_count() != s.nodes.len() || r.scale_range() != (p.min_res..hi) {
        return Err(format!("{} layers, {} nodes, scales {:?}; there are {} nodes", r.len(), r.node_count(), r.scale_range(), s.nodes.len()));
    }
    let order: Vec<i32> = r.layers().map(|(si, _)| si).collect();
    if order != (lo..hi).rev().collect::<Vec<_>>() {
        return Err(format!("layers come as {:?}, expected {} down to {}", order, hi - 1, lo));
    }
    for si in lo..hi {
        let want: BTreeSet<usize> = s.nodes.keys().filter(|a| a.0 == si).map(|a| a.1).collect();
        let layer = r.layer(si);
        for layer in [layer, &layer.reader()].iter() {
            let centers = layer.node_center_indexes();
            let mapped: Vec<NodeAddress> = layer.map_nodes(|_, n| n.address());
            let mut each = vec![];
            layer.for_each_node(|pi, _| each.push(*pi));
            if layer.scale_index() != si || layer.len() != want.len() || layer.is_empty() != want.is_empty() || centers.len() != want.len() || mapped.len() != want.len() || each.len() != want.len() {
                return Err(format!("layer {}: says scale {}, {} nodes, {} centres, {} mapped, {} visited; it has {}", si, layer.scale_index(), layer.len(), centers.len(), mapped.len(), each.len(), want.len()));
            }
            if centers.into_iter().collect::<BTreeSet<_>>() != want || mapped.into_iter().map(|a| a.1).collect::<BTreeSet<_>>() != want || each.into_iter().collect::<BTreeSet<_>>() != want {
                return Err(format!("layer {} lists other nodes than {:?}", si, want));
            }
            for pi in 0..n + 1 {
                count += 1;
                let a = (si, pi);
                let node = s.nodes.get(&a);
                let got = (layer.get_node_and(pi, node_snap), r.get_node_and(a, node_snap));
                if got.0.as_ref() != node || got.1.as_ref() != node {
                    return Err(format!("node {:?} is {:?} in its layer and {:?} in the tree, expected {:?}", a, got.0, got.1, node));
                }
                let kids = node.and_then(|x| x.children.as_ref()).map(|(ns, c)| ((*ns, pi), c.clone()));
                let got = (layer.get_node_children_and(pi, |a, c| (a, c.to_vec())), r.get_node_children_and(a, |a, c| (a, c.to_vec())));
                if got.0 != kids || got.1 != kids {
                    return Err(format!("children of {:?}: {:?} in its layer and {:?} in the tree, expected {:?}", a, got.0, got.1, kids));
                }
                if let Some(x) = node {
                    let own = r.get_node_and(a, |n| (n.address(), *n.center_index(), *n.scale_index())).unwrap();
                    if own != (a, pi, si) {
                        return Err(format!("node {:?} says it is {:?}", a, own));
                    }
                    let up = x.parent;
                    if up.is_none() != (a == s.root) || up.map(|u| !s.child_addrs(u).contains(&a)).unwrap_or(false) {
                        return Err(format!("node {:?} has parent {:?}", a, up));
                    }
                }
            }
        }
        let scale = r.scale(si);
        if !close(scale, (p.base as f64).powi(si)) {
            return Err(format!("scale {} is {}, the base is {}", si, scale, p.base));
        }
        if r.parameters().internal_index(si) != (si - lo) as usize {
            return Err(format!("layer {} is said to be number {}", si, r.parameters().internal_index(si)));
        }
    }
    // from the root down everything is reached once
    let mut seen = BTreeSet::new();
    let mut todo = vec![r.root_address()];
    while let Some(a) = todo.pop() {
        if !seen.insert(a) {
            return Err(format!("node {:?} is reached twice", a));
        }
        r.get_node_children_and(a, |nested, c| {
            todo.push(nested);
            todo.extend(c);
        });
    }
    if seen.len() != s.nodes.len() {
        return Err(format!("{} of {} nodes are reached from the root", seen.len(), s.nodes.len()));
    }
    Ok(count)
}

fn dimensions<D: PointCloud>(r: &CoverTreeReader<D>, s: &Snap, p: &Params) -> Result<u64, String> {
    let log = |x: f64| x.ln() / (p.base as f64).ln();
    let size = |a: NodeAddress| s.covered(a).len() as f64;
    // pieces of a node: its children and its own points, counted, and weighted by their share of the biggest child
    let weigh = |kids: &[f64], singles: f64| {
        let max = kids.iter().cloned().fold(f64::MIN, f64::max);
        let max = if kids.is_empty() { 1.0 } else { max };
        kids.iter().map(|k| k / max).sum::<f64>() + singles / max
    };
    for (a, n) in &s.nodes {
        let kids: Vec<f64> = s.child_addrs(*a).into_iter().map(size).collect();
        let want = log((kids.len() + n.singles.len()) as f64);
        let got = r.node_fractal_dim(*a);
        if !close(got, want) {
            return Err(format!("dimension of {:?} is {}, expected {}", a, got, want));
        }
        let want = log(weigh(&kids, n.singles.len() as f64));
        let got = r.node_weighted_fractal_dim(*a);
        if !close(got, want) {
            return Err(format!("weighted dimension of {:?} is {}, expected {}", a, got, want));
        }
    }
    let lo = p.min_res - 1;
    for si in lo..lo + r.len() as i32 {
        let here: Vec<_> = s.nodes.iter().filter(|(a, _)| a.0 == si).collect();
        if here.is_empty() {
            // the dimension of nothing is not defined
            let _ = (r.layer_fractal_dim(si), r.layer_weighted_fractal_dim(si));
            continue;
        }
        let kids: Vec<f64> = here.iter().flat_map(|(a, _)| s.child_addrs(**a)).map(size).collect();
        let singles: usize = here.iter().map(|(_, n)| n.singles.len()).sum();
        let want = log((kids.len() + singles) as f64) - log(here.len() as f64);
        let got = r.layer_fractal_dim(si);
        if !close(got, want) {
            return Err(format!("dimension of layer {} is {}, expected {}", si, got, want));
        }
        let own: Vec<f64> = here.iter().map(|(a, _)| size(**a)).collect();
        let want = log(weigh(&kids, singles as f64)) - log(weigh(&own, 0.0));
        let got = r.layer_weighted_fractal_dim(si);
        if !close(got, want) {
            return Err(format!("weighted dimension of layer {} is {}, expected {}", si, got, want));
        }
    }
    Ok(s.nodes.len() as u64 * 2 + r.len() as u64 * 2)
}

/// What one node says about its own children and points.
fn at_nodes(r: &CoverTreeReader<Cloud>, s: &Snap, d: &Data, p: &Params, few: bool) -> Result<u64, String> {
    let cloud = r.point_cloud();
    let mut count = 0;
    let qs = queries(d);
    let qs: Vec<_> = if few { qs.into_iter().step_by(3).collect() } else { qs };
    for (a, n) in &s.nodes {
        for q in &qs {
            let dist = |i: usize| l2(&d.pts[i], q);
            let q = &q[..];
            let kids = s.child_addrs(*a);
            let own = dist(a.1);
            let covers = |k: &NodeAddress| dist(k.1) < p.base.powi(k.0);
            let got = r
                .get_node_and(*a, |n| (n.nearest_covering_child(p.base, own, &q, cloud), n.first_covering_child(p.base, own, &q, cloud)))
                .unwrap();
            let (near, first) = (got.0.map_err(|e| format!("{:?}", e))?, got.1.map_err(|e| format!("{:?}", e))?);
            count += 2;
            // the closest child, if it covers the query; of several equally close ones any will do
            let best = kids.iter().map(|k| dist(k.1)).fold(f32::MAX, f32::min);
            let closest: Vec<&NodeAddress> = kids.iter().filter(|k| dist(k.1) == best).collect();
            let ok = match near {
                Some((x, k)) => x == best && closest.contains(&&k) && covers(&k),
                None => closest.is_empty() || closest.iter().any(|k| !covers(k)),
            };
            if !ok {
                return Err(format!("closest covering child of {:?} for {:?}: {:?} out of {:?}", a, q, near, kids));
            }
            let want = kids.iter().find(|k| covers(k)).map(|k| (dist(k.1), *k));
            if first != want {
                return Err(format!("first covering child of {:?} for {:?}: {:?}, expected {:?}", a, q, first, want));
            }
            // brute force over what the node itself holds
            for k in [1usize, 2, 3, 100].iter() {
                for (what, set) in [("own points", n.singles.clone()), ("children", kids.iter().map(|k| k.1).collect()), ("all", {
                    let mut v = n.singles.clone();
                    v.extend(kids.iter().map(|k| k.1));
                    if kids.is_empty() {
                        v.push(a.1);
                    }
                    v
                })]
                .iter()
                {
                    for given in [None, Some(own)].iter() {
                        count += 1;
                        let mut heap = KnnQueryHeap::new(*k, p.base);
                        r.get_node_and(*a, |n| match *what {
                            "own points" => n.singleton_knn(&q, cloud, &mut heap),
                            "children" => n.child_knn(*given, &q, cloud, &mut heap),
                            _ => n.knn(*given, &q, cloud, &mut heap),
                        })
                        .unwrap()
                        .map_err(|e| format!("{:?}", e))?;
                        let got = heap.unpack();
                        let mut want: Vec<f32> = set.iter().map(|i| dist(*i)).collect();
                        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        want.truncate(*k);
                        let ids: BTreeSet<usize> = got.iter().map(|x| x.1).collect();
                        let fine = got.iter().map(|x| x.0).collect::<Vec<_>>() == want && ids.len() == got.len() && got.iter().all(|x| set.contains(&x.1) && dist(x.1) == x.0);
                        if !fine {
                            return Err(format!("the {} closest {} of {:?} to {:?} are {:?}, expected distances {:?}", k, what, a, q, got, want));
                        }
                    }
                }
            }
        }
    }
    Ok(count)
}

pub fn c23(run: &'static Run) {
    let sp = space(run, true);
    run.bound("every address in and just outside the tree, every layer, before and after save/load; node-level searches for the query grid on trees of up to 6 points, a third of it on bigger ones");
    run.par(sp.len(), |i| {
        let (d, p) = &sp[i];
        run.case(|| name(d, p), || {
            let t = build(d, p)?;
            let t2 = CoverTreeWriter::load(&t.save(), d.cloud()).map_err(|e| format!("{:?}", e))?;
            let mut n = 0;
            let s = snap(&t.reader())?;
            for r in [t.reader(), t2.reader(), t.reader().clone()].iter() {
                n += lookups(r, &s, p, d.n())?;
                n += dimensions(r, &s, p)?;
            }
            if d.n() <= 6 || s.nodes.len() < 150 {
                n += at_nodes(&t.reader(), &s, d, p, d.n() > 6 || i % 3 != 0 && !run.thorough)?;
            }
            Ok(Seen { hash: h(&s.hash()), transitions: n })
        });
    });
}

// src/graphtheory.rs against textbook definitions, over every digraph of n nodes (edges are symbolic bits).
//@main
use crate::graphtheory::{blevel_dag, tlevel_dag, transitive_closure_dag};
use petgraph::graph::{DiGraph, NodeIndex};

/// kind 0: every digraph; kind 1: DAGs whose topological order is the index order; 2: its reverse
#[no_mangle]
pub extern "C" fn h_graph(n: u64, kind: u64) {
    let n = n as usize;
    let mut g: DiGraph<usize, ()> = DiGraph::new();
    for i in 0..n {
        g.add_node(i);
    }
    let mut reach = vec![vec![false; n]; n];
    let mut adj = reach.clone();
    for i in 0..n {
        for j in 0..n {
            let on = match kind {
                0 => i != j,
                1 => i < j,
                _ => i > j,
            };
            if on && nd::bool("edge") {
                g.add_edge(NodeIndex::new(i), NodeIndex::new(j), ());
                adj[i][j] = true;
            }
        }
    }
    reach.clone_from(&adj);
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                reach[i][j] |= reach[i][k] && reach[k][j];
            }
        }
    }
    let cyclic = (0..n).any(|i| reach[i][i]);
    let tc = transitive_closure_dag(&g);
    let (tl, bl) = (tlevel_dag(&g), blevel_dag(&g));
    nd::check(tc.is_err() == cyclic, "transitive_closure_dag: error iff cyclic");
    nd::check(tl.is_err() == cyclic && bl.is_err() == cyclic, "tlevel/blevel: error iff cyclic");
    if cyclic {
        nd::cover("cyclic");
        return;
    }
    nd::cover("acyclic");
    let (tc, tl, bl) = (tc.unwrap(), tl.unwrap(), bl.unwrap());
    nd::check(tc.node_count() == n, "the closure has other nodes");
    for i in 0..n {
        nd::check(tc[NodeIndex::new(i)] == i, "the closure renumbers nodes");
        for j in 0..n {
            let e = tc.find_edge(NodeIndex::new(i), NodeIndex::new(j)).is_some();
            nd::check(e == reach[i][j], "the closure has an edge iff there is a path");
        }
    }
    // longest paths by relaxation
    let (mut t, mut b) = (vec![0u32; n], vec![0u32; n]);
    for _ in 0..n {
        for i in 0..n {
            for j in 0..n {
                if adj[i][j] {
                    t[j] = t[j].max(t[i] + 1);
                    b[i] = b[i].max(b[j] + 1);
                }
            }
        }
    }
    nd::log(1, t.iter().sum::<u32>() as u64);
    nd::check(tl == t, "tlevel is not the longest path from an entry node");
    nd::check(bl == b, "blevel is not the longest path to an exit node");
}

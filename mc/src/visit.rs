//! C10: the visitation schedule, as an explicit-state search over all data-dependent choices, bound to
//! the code by running every concrete model trace against the real function.
use crate::engine::Judged;
use crate::exec;
use crate::report::Report;
use std::collections::HashSet;
use vcommon::lyra::{lyra2_traced, Params, Pick, Reduce, Sched, Stats, Visit};
use vcommon::Case;

pub fn covers(rows: u64) -> bool {
    rows.is_power_of_two()
}

/// The invariants on one complete trace of visits (setup rows 2.., then t passes).
pub fn check_trace(rows: u64, t: u64, tr: &[Visit]) -> Result<(), String> {
    let setup = (rows - 2) as usize;
    if tr.len() < setup {
        return Err("setup too short".into());
    }
    let (mut lo, mut win) = (0usize, 2u64);
    for (i, v) in tr[..setup].iter().enumerate() {
        if v.row != i as u64 + 2 || v.prev != v.row - 1 || v.rowa >= v.row || v.rowa >= win {
            return Err(format!("setup step {i}: {v:?} uses a row not computed yet or out of order"));
        }
        if i as u64 + 1 - lo as u64 == win {
            // a whole window was revisited: every row in it exactly once
            let mut seen = HashSet::new();
            if !tr[lo..=i].iter().all(|v| seen.insert(v.rowa)) {
                return Err(format!("setup window ending at step {i} revisits a row twice"));
            }
            lo = i + 1;
            win *= 2;
        }
    }
    let mut passes = 0;
    let mut seen = HashSet::new();
    let mut i = setup;
    while i < tr.len() {
        let v = tr[i];
        if v.row >= rows || v.rowa >= rows || v.prev >= rows {
            return Err(format!("wandering step {i}: {v:?} out of range"));
        }
        if v.row == 0 && !seen.is_empty() {
            if covers(rows) && seen.len() as u64 != rows {
                return Err(format!("pass {} visited {} of {} rows", passes + 1, seen.len(), rows));
            }
            passes += 1;
            seen.clear();
        }
        if !seen.insert(v.row) {
            return Err(format!("pass {} visits row {} twice", passes + 1, v.row));
        }
        i += 1;
    }
    if covers(rows) && seen.len() as u64 != rows {
        return Err(format!("last pass visited {} of {} rows", seen.len(), rows));
    }
    if passes + 1 != t {
        return Err(format!("{} passes instead of {}", passes + 1, t));
    }
    Ok(())
}

pub fn judge(c: &Case, st: &mut Stats) -> Judged {
    let Case::Kdf { k, pwd, salt, t, r, c: cols } = c else { unreachable!() };
    let (p, s) = (pwd.bytes(), salt.bytes());
    let mut tr = Vec::new();
    let exp = lyra2_traced(&Params { k: *k, pwd: &p, salt: &s, t: *t, rows: *r, cols: *cols, reduce: Reduce::Mask, pick: Pick::Plain }, st, Some(&mut tr));
    let got = exec::actual(c);
    let bad = if exp != got {
        Some((format!("{} (the digest of the conforming schedule)", exp.show()), got.show()))
    } else {
        check_trace(*r, *t, &tr).err().map(|e| ("a complete, in-range schedule".into(), e))
    };
    Judged { outcome: got, bad }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Node {
    row: u64,
    prev: u64,
    rowa: u64,
    even: bool,
    visited: u64,
}

/// Explicit-state search, every value of the pseudorandom row at every step, for row counts up to 32
/// with the set of visited rows in the state; two consecutive passes of both parities.
fn search_small(rows: u64, rep: &mut Report, incomplete: &mut Vec<(u64, bool, u32)>) -> Result<(), String> {
    let mut sc = Sched::new(rows, Reduce::Mask);
    let mut computed = 0b11u64;
    while !sc.setup_done() {
        for x in [sc.prev, sc.rowa] {
            if computed >> x & 1 == 0 {
                return Err(format!("rows={rows}: setup reads row {x} before it is computed"));
            }
        }
        if computed >> sc.row & 1 != 0 {
            return Err(format!("rows={rows}: setup computes row {} twice", sc.row));
        }
        computed |= 1 << sc.row;
        rep.states += 1;
        rep.transitions += 1;
        sc.setup_advance();
    }
    if computed.count_ones() as u64 != rows {
        return Err(format!("rows={rows}: setup leaves rows uncomputed"));
    }
    for even in [false, true] {
        let mut seen: HashSet<Node> = HashSet::new();
        let mut todo: Vec<Node> = Vec::new();
        // a pass may start after setup or after a pass of the other parity, with any prev/rowa
        for prev in 0..rows {
            todo.push(Node { row: 0, prev, rowa: 0, even, visited: 0 });
        }
        let mut ends: HashSet<u64> = HashSet::new();
        while let Some(n) = todo.pop() {
            if !seen.insert(n) {
                continue;
            }
            for rowa in 0..rows {
                rep.transitions += 1;
                let mut s = Sched { rows, row: n.row, prev: n.prev, rowa: sc.reduce(rowa), step: 0, window: 0, gap_up: false, reduce_mod: false };
                if s.rowa >= rows || s.row >= rows || s.prev >= rows {
                    return Err(format!("rows={rows}: index out of range"));
                }
                if n.visited >> n.row & 1 != 0 {
                    return Err(format!("rows={rows} even={even}: row {} updated twice in one pass (the pass may never end)", n.row));
                }
                let visited = n.visited | 1 << n.row;
                if s.wander_advance(if even { 2 } else { 1 }) {
                    ends.insert(visited);
                } else {
                    todo.push(Node { row: s.row, prev: s.prev, rowa: s.rowa, even, visited });
                }
            }
        }
        rep.states += seen.len() as u64;
        let full = if rows == 64 { u64::MAX } else { (1 << rows) - 1 };
        for e in &ends {
            if *e != full {
                if covers(rows) {
                    return Err(format!("rows={rows} even={even}: a pass ends with rows {e:#x} visited only"));
                }
                incomplete.push((rows, even, e.count_ones()));
            }
        }
        if ends.is_empty() {
            return Err(format!("rows={rows}: a pass never ends"));
        }
    }
    Ok(())
}

/// For large row counts the row sequence is followed alone: it never reads rowa, so this is the
/// projection of the same state graph.
fn search_large(rows: u64, rep: &mut Report, incomplete: &mut u64) -> Result<(), String> {
    let mut sc = Sched::new(rows, Reduce::Mask);
    let (mut win_seen, mut win) = (vec![false; rows as usize], 2u64);
    let mut count = 0;
    while !sc.setup_done() {
        if sc.rowa >= sc.row || sc.prev + 1 != sc.row {
            return Err(format!("rows={rows}: setup reads a row before it is computed"));
        }
        if std::mem::replace(&mut win_seen[sc.rowa as usize], true) {
            return Err(format!("rows={rows}: setup revisits row {} twice in one window", sc.rowa));
        }
        count += 1;
        if count == win {
            count = 0;
            win *= 2;
            win_seen.iter_mut().for_each(|x| *x = false);
        }
        rep.states += 1;
        rep.transitions += 1;
        sc.setup_advance();
    }
    for tau in [1, 2] {
        let mut seen = vec![false; rows as usize];
        let mut n = 0u64;
        sc.row = 0;
        loop {
            if sc.row >= rows || std::mem::replace(&mut seen[sc.row as usize], true) {
                return Err(format!("rows={rows} tau={tau}: row {} updated twice in one pass or out of range", sc.row));
            }
            n += 1;
            rep.states += 1;
            rep.transitions += 1;
            if sc.wander_advance(tau) {
                break;
            }
        }
        if n != rows {
            if covers(rows) {
                return Err(format!("rows={rows} tau={tau}: only {n} rows updated"));
            }
            *incomplete += 1;
        }
    }
    Ok(())
}

pub fn abstract_search(rep: &mut Report) -> Result<(), String> {
    let mut inc = Vec::new();
    let mut large = 0;
    let (small_max, large_max) = if rep.thorough { (40, 8200) } else { (24, 2100) };
    for rows in 3..=small_max {
        search_small(rows, rep, &mut inc)?;
    }
    for rows in 3..=large_max {
        search_large(rows, rep, &mut large)?;
    }
    for n in 12..=if rep.thorough { 22 } else { 18 } {
        for rows in [(1u64 << n) - 1, 1 << n, (1 << n) + 1] {
            search_large(rows, rep, &mut large)?;
        }
    }
    rep.num("abstract_search_row_counts_all_choices", small_max - 2);
    rep.num("abstract_search_row_counts_row_sequence", large_max - 2);
    rep.num("row_count_and_parity_combinations_with_incomplete_pass", large);
    inc.sort_unstable();
    inc.dedup();
    let ex: Vec<String> = inc.iter().take(3).map(|(r, e, n)| format!("rows={r} {} pass updates {n} of {r} rows", if *e { "even" } else { "odd" })).collect();
    rep.known.push(format!("lyra2::lyra2::lyra2 with a row count that is not a power of two leaves rows out of wandering passes ({large} combinations in this run, e.g. {})", ex.join("; ")));
    Ok(())
}

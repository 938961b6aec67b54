//! C03: every edit history of a matrix against a list of rows.
use mc::engine::*;
use mc::ensure;
use rayon_free::par_rows;
use renplex::math::matrix::Matrix;
use std::collections::{HashMap, VecDeque};

mod rayon_free {
  use rayon::iter::ParallelIterator;
  use renplex::math::matrix::Matrix;
  use rayon::iter::IndexedParallelIterator;
  /// Rows through the parallel iterator, in order.
  pub fn par_rows(m: &Matrix<u32>) -> Vec<Vec<u32>> {
    m.rows_as_par_chunks().map(|r| r.to_vec()).with_max_len(1).collect()
  }
}

/// Reference model: a list of equal-length rows and the allowed shape.
#[derive(Clone, Debug, PartialEq)]
struct Model { rows: Vec<Vec<u32>>, cap: [usize; 2] }

impl Model {
  fn shape(&self) -> [usize; 2] { [self.rows.len(), self.rows.first().map_or(0, |r| r.len())] }
  fn flat(&self) -> Vec<u32> { self.rows.concat() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { AddRow(usize), AddMutRow(usize), AddCol(usize), DelRow(usize), Release, Write(usize, usize), WriteRow(usize), WriteBody, WriteRows }

/// Applies one edit to both; `fresh` labels new values.
fn step(m: &mut Matrix<u32>, model: &mut Model, op: Op, fresh: &mut u32) -> Case {
  let mut vals = |n: usize| -> Vec<u32> { (0..n).map(|_| { *fresh += 1; *fresh }).collect() };
  let sh = model.shape();
  let fits_row = |l: usize| (sh == [0, 0] || l == sh[1]) && sh[0] + 1 <= model.cap[0] && l <= model.cap[1];
  match op {
    Op::AddRow(l) => {
      let v = vals(l);
      let ok = fits_row(l);
      let got = m.add_row(v.clone()).is_ok();
      ensure!(got == ok, "add_row of length {} on shape {:?} capacity {:?}: ok={}, expected ok={}", l, sh, model.cap, got, ok);
      if ok { model.rows.push(v); }
    }
    Op::AddMutRow(l) => {
      let v = vals(l);
      let mut arg = v.clone();
      let ok = fits_row(l);
      let got = m.add_mut_row(&mut arg).is_ok();
      ensure!(got == ok, "add_mut_row of length {} on shape {:?} capacity {:?}: ok={}, expected ok={}", l, sh, model.cap, got, ok);
      if ok { model.rows.push(v); ensure!(arg.is_empty(), "add_mut_row left {:?} in its argument", arg); }
      else { ensure!(arg == v, "a refused add_mut_row changed its argument from {:?} to {:?}", v, arg); }
    }
    Op::AddCol(l) => {
      let v = vals(l);
      let mut arg = v.clone();
      let ok = sh[0] > 0 && l == sh[0] && sh[1] + 1 <= model.cap[1];
      let got = m.add_col(&mut arg).is_ok();
      ensure!(got == ok, "add_col of length {} on shape {:?} capacity {:?}: ok={}, expected ok={}", l, sh, model.cap, got, ok);
      if ok { for (r, x) in model.rows.iter_mut().zip(v) { r.push(x); } ensure!(arg.is_empty(), "add_col left {:?} in its argument", arg); }
      else { ensure!(arg == v, "a refused add_col changed its argument from {:?} to {:?}", v, arg); }
    }
    Op::DelRow(i) => {
      match m.del_row(i) {
        Ok(row) => {
          ensure!(i < sh[0], "del_row({}) on shape {:?} succeeded", i, sh);
          let want = model.rows.remove(i);
          ensure!(row == want, "del_row({}) returned {:?}, expected {:?}", i, row, want);
          model.cap = model.shape();
        }
        Err(_) => ensure!(i >= sh[0], "del_row({}) on shape {:?} failed", i, sh),
      }
    }
    Op::Release => { m.dealloc(); model.cap = sh; }
    Op::Write(i, j) => {
      let v = vals(1)[0];
      let ok = i < sh[0] && j < sh[1];
      match m.elm_mut(i, j) {
        Ok(e) => { ensure!(ok, "elm_mut({},{}) on shape {:?} succeeded", i, j, sh); *e = v; model.rows[i][j] = v; }
        Err(_) => ensure!(!ok, "elm_mut({},{}) on shape {:?} failed", i, j, sh),
      }
    }
    Op::WriteRow(i) => {
      let v = vals(sh[1]);
      match m.row_as_mut(i) {
        Ok(r) => {
          ensure!(i < sh[0] && r.len() == sh[1], "row_as_mut({}) on shape {:?} gave {} elements", i, sh, r.len());
          r.copy_from_slice(&v);
          model.rows[i] = v;
        }
        Err(_) => ensure!(i >= sh[0], "row_as_mut({}) on shape {:?} failed", i, sh),
      }
    }
    Op::WriteBody => {
      let v = vals(sh[0] * sh[1]);
      let b = m.get_body_as_mut();
      ensure!(b.len() == v.len(), "get_body_as_mut on shape {:?} has {} elements", sh, b.len());
      b.copy_from_slice(&v);
      for (k, x) in v.into_iter().enumerate() { model.rows[k / sh[1]][k % sh[1]] = x; }
    }
    Op::WriteRows => {
      let v = vals(sh[0] * sh[1]);
      let mut n = 0;
      for (i, r) in m.rows_as_iter_mut().enumerate() {
        ensure!(i < sh[0] && r.len() == sh[1], "rows_as_iter_mut on shape {:?}: row {} of {}", sh, i, r.len());
        r.copy_from_slice(&v[i * sh[1]..(i + 1) * sh[1]]);
        n += 1;
      }
      ensure!(n == sh[0], "rows_as_iter_mut on shape {:?} gave {} rows", sh, n);
      for (k, x) in v.into_iter().enumerate() { model.rows[k / sh[1]][k % sh[1]] = x; }
    }
  }
  Ok(())
}

/// Every way of reading the matrix back.
fn observe(m: &Matrix<u32>, model: &Model, deep: bool) -> Case {
  let sh = model.shape();
  ensure!(m.get_shape() == sh, "shape {:?}, expected {:?}", m.get_shape(), sh);
  ensure!(m.get_capacity() == model.cap, "capacity {:?}, expected {:?}", m.get_capacity(), model.cap);
  ensure!(sh[0] <= m.get_capacity()[0] && sh[1] <= m.get_capacity()[1], "shape {:?} exceeds capacity {:?}", sh, m.get_capacity());
  let flat = model.flat();
  ensure!(m.get_body() == flat, "body {:?}, expected {:?}", m.get_body(), flat);
  ensure!(m.is_empty() == (sh == [0, 0] && model.cap == [0, 0]), "is_empty() = {} for shape {:?} capacity {:?}", m.is_empty(), sh, model.cap);
  for i in 0..sh[0] + 2 {
    match m.row(i) {
      Ok(r) => ensure!(i < sh[0] && r == model.rows[i], "row({}) = {:?} in {:?}", i, r, model.rows),
      Err(_) => ensure!(i >= sh[0], "row({}) failed on shape {:?}", i, sh),
    }
    for j in 0..sh[1] + 2 {
      match m.elm(i, j) {
        Ok(e) => ensure!(i < sh[0] && j < sh[1] && *e == model.rows[i][j], "elm({},{}) = {} in {:?}", i, j, e, model.rows),
        Err(_) => ensure!(i >= sh[0] || j >= sh[1], "elm({},{}) failed on shape {:?}", i, j, sh),
      }
    }
  }
  let rows: Vec<Vec<u32>> = m.rows_as_iter().map(|r| r.to_vec()).collect();
  ensure!(rows == model.rows, "rows_as_iter gives {:?}, expected {:?}", rows, model.rows);
  if !deep { return Ok(()) }
  for i in 0..sh[0] + 2 {
    for l in [sh[1], sh[1] + 1, sh[1].wrapping_sub(1)] {
      if l == usize::MAX { continue }
      let mut buf = vec![777; l];
      let ok = i < sh[0] && l == sh[1];
      let got = m.row_into_slice(i, &mut buf).is_ok();
      ensure!(got == ok, "row_into_slice({}) into length {} on shape {:?}: ok={}", i, l, sh, got);
      ensure!(if ok { buf == model.rows[i] } else { buf.iter().all(|x| *x == 777) }, "row_into_slice({}) wrote {:?}", i, buf);
    }
  }
  for j in 0..sh[1] + 2 {
    let col: Vec<u32> = if j < sh[1] { model.rows.iter().map(|r| r[j]).collect() } else { vec![] };
    for l in [sh[0], sh[0] + 1, sh[0].wrapping_sub(1)] {
      if l == usize::MAX { continue }
      let mut buf = vec![777; l];
      let ok = j < sh[1] && l == sh[0];
      let got = m.col_into_slice(j, &mut buf).is_ok();
      ensure!(got == ok, "col_into_slice({}) into length {} on shape {:?}: ok={}", j, l, sh, got);
      ensure!(if ok { buf == col } else { buf.iter().all(|x| *x == 777) }, "col_into_slice({}) wrote {:?}, expected {:?}", j, buf, col);
    }
    match m.copy_col_into_vec(j) {
      Ok(v) => ensure!(j < sh[1] && v == col, "copy_col_into_vec({}) = {:?}, expected {:?}", j, v, col),
      Err(_) => ensure!(j >= sh[1], "copy_col_into_vec({}) failed on shape {:?}", j, sh),
    }
  }
  let par = par_rows(m);
  ensure!(par == model.rows, "rows_as_par_chunks gives {:?}, expected {:?}", par, model.rows);
  let text = format!("{}", m);
  for v in &flat { ensure!(text.contains(&v.to_string()), "printing {:?} does not show {}", model.rows, v); }
  ensure!(m.clone().export_body() == flat, "export_body differs from the body");
  ensure!(m.clone().body_into_iter().collect::<Vec<_>>() == flat, "body_into_iter differs from the body");
  Ok(())
}

fn starts(max: usize) -> Vec<(Matrix<u32>, Model, String)> {
  let mut v = vec![(Matrix::new(), Model { rows: vec![], cap: [0, 0] }, "new()".to_string())];
  for r in 0..=max {
    for c in 0..=max {
      v.push((Matrix::with_capacity([r, c]), Model { rows: vec![], cap: [r, c] }, format!("with_capacity([{},{}])", r, c)));
    }
  }
  for r in 1..=max {
    for c in 1..=max {
      let rows: Vec<Vec<u32>> = (0..r).map(|i| (0..c).map(|j| 1000 + (i * c + j) as u32).collect()).collect();
      v.push((Matrix::from_body(rows.concat(), [r, c]), Model { rows, cap: [r, c] }, format!("from_body({}x{})", r, c)));
    }
  }
  v
}

fn ops(max: usize) -> Vec<Op> {
  let mut o = vec![];
  for l in 1..=max { o.push(Op::AddRow(l)); o.push(Op::AddMutRow(l)); o.push(Op::AddCol(l)); }
  for i in 0..max { o.push(Op::DelRow(i)); }
  o.push(Op::Release);
  o
}

fn dfs(m: &Matrix<u32>, model: &Model, fresh: u32, depth: usize, ops: &[Op], path: &mut Vec<Op>, st: &mut Local) -> Case {
  for op in ops {
    let (mut m2, mut model2, mut f2) = (m.clone(), model.clone(), fresh);
    path.push(*op);
    let r = guard(|| step(&mut m2, &mut model2, *op, &mut f2).and_then(|_| observe(&m2, &model2, false)))
      .unwrap_or_else(|p| Err(format!("panic: {}", p)));
    r.map_err(|e| format!("after {:?}: {}", path, e))?;
    st.step(1); st.state();
    if depth > 1 { dfs(&m2, &model2, f2, depth - 1, ops, path, st)?; } else { st.trace(); }
    path.pop();
  }
  Ok(())
}

fn main() {
  run("C03", &["rows and columns have at least one element", "element values are opaque to the container, so states are merged up to renaming of values in the closure search"], |r| {
    // 1. complete reachable graph of (shape, capacity), any history length
    let max = if r.thorough { 6 } else { 4 };
    let mut alphabet = ops(max + 1);
    for i in 0..=max { alphabet.push(Op::WriteRow(i)); for j in 0..=max { alphabet.push(Op::Write(i, j)); } }
    alphabet.push(Op::WriteBody); alphabet.push(Op::WriteRows);
    r.serial("closure", 1, |_, st| {
      let mut seen: HashMap<([usize; 2], [usize; 2]), ()> = HashMap::new();
      let mut todo: VecDeque<(Matrix<u32>, Model, String)> = VecDeque::new();
      for (m, model, name) in starts(max) {
        guard(|| observe(&m, &model, true)).unwrap_or_else(|p| Err(format!("panic: {}", p))).map_err(|e| format!("{}: {}", name, e))?;
        if seen.insert((model.shape(), model.cap), ()).is_none() { st.state(); todo.push_back((m, model, name)); }
        else {
          // same abstract state through another constructor: still expand it once
          todo.push_back((m, model, name));
        }
      }
      while let Some((m, model, name)) = todo.pop_front() {
        for op in &alphabet {
          let (mut m2, mut model2, mut f) = (m.clone(), model.clone(), 5000);
          let res = guard(|| step(&mut m2, &mut model2, *op, &mut f).and_then(|_| observe(&m2, &model2, true)))
            .unwrap_or_else(|p| Err(format!("panic: {}", p)));
          res.map_err(|e| format!("{} then {:?}: {}", name, op, e))?;
          st.step(1); st.trace();
          st.outcome(format!("{:?}{:?}", model2.shape(), model2.cap));
          if seen.insert((model2.shape(), model2.cap), ()).is_none() {
            st.state();
            todo.push_back((m2, model2, format!("{} {:?}", name, op)));
          }
          st.tick();
        }
      }
      Ok(())
    });
    // 2. every operation sequence without merging
    let (smax, depth) = if r.thorough { (3, 7) } else { (3, 6) };
    let starts3 = starts(3);
    let al = ops(smax);
    let n = starts3.len() as u64 * al.len() as u64;
    r.group("sequences", n, |i, st| {
      let mut p = Pick(i);
      let (m, model, name) = p.from(&starts3);
      let op = *p.from(&al);
      let (mut m, mut model, mut f) = (m.clone(), model.clone(), 0);
      st.sample(|| format!("{} {:?} ...", name, op));
      step(&mut m, &mut model, op, &mut f).and_then(|_| observe(&m, &model, false)).map_err(|e| format!("{} {:?}: {}", name, op, e))?;
      let mut path = vec![op];
      dfs(&m, &model, f, depth - 1, &al, &mut path, st).map_err(|e| format!("{}: {}", name, e))
    });
    // 3. matrices with room to spare
    let roomy: Vec<[usize; 2]> = vec![[5, 5], [8, 2], [2, 8], [9, 3], [3, 9], [16, 16], [17, 4], [4, 33], [64, 64], [100, 1], [1, 100], [257, 3]];
    let al: Vec<Op> = vec![Op::AddRow(1), Op::AddRow(2), Op::AddRow(3), Op::AddMutRow(2), Op::AddCol(1), Op::AddCol(2), Op::AddCol(3), Op::DelRow(0), Op::DelRow(1), Op::DelRow(2), Op::Release];
    r.group("roomy", (roomy.len() * al.len() * al.len()) as u64, |i, st| {
      let mut p = Pick(i);
      let cap = *p.from(&roomy);
      let (mut m, mut model, mut f) = (Matrix::with_capacity(cap), Model { rows: vec![], cap }, 0);
      let mut path = vec![];
      for _ in 0..2 {
        let op = *p.from(&al);
        path.push(op);
        step(&mut m, &mut model, op, &mut f).and_then(|_| observe(&m, &model, false)).map_err(|e| format!("with_capacity({:?}) {:?}: {}", cap, path, e))?;
      }
      st.sample(|| format!("with_capacity({:?}) {:?} ...", cap, path));
      dfs(&m, &model, f, if r.thorough { 4 } else { 3 }, &al, &mut path, st).map_err(|e| format!("with_capacity({:?}): {}", cap, e))
    });
    // 4. the same matrix all the way, never copied in between
    let starting = |k: usize| -> (Matrix<u32>, Model, String) { if k < roomy.len() { (Matrix::with_capacity(roomy[k]), Model { rows: vec![], cap: roomy[k] }, format!("with_capacity({:?})", roomy[k])) } else { starts(3).swap_remove(k - roomy.len()) } };
    let al: Vec<Op> = al.iter().copied().chain([Op::AddMutRow(1), Op::WriteRows]).collect();
    let len: u32 = if r.thorough { 5 } else { 4 };
    let (ns, na) = (roomy.len() + starts3.len(), al.len());
    r.group("one-matrix", (ns * na.pow(len)) as u64, |i, st| {
      let mut p = Pick(i);
      let (mut m, mut model, name) = starting(p.of(ns));
      let (mut f, mut path) = (0, vec![]);
      for k in 0..len + 4 {
        let [rows, cols] = model.shape();
        let op = match k - k.min(len) {
          _ if k < len => *p.from(&al),
          0 => Op::WriteRows,
          1 => Op::WriteRow(rows.saturating_sub(1)),
          2 => Op::Write(rows.saturating_sub(1), cols.saturating_sub(1)),
          _ => Op::WriteBody,
        };
        path.push(op);
        step(&mut m, &mut model, op, &mut f).map_err(|e| format!("{} {:?}: {}", name, path, e))?;
        st.step(1);
      }
      st.state(); st.trace();
      observe(&m, &model, false).map_err(|e| format!("{} {:?}: {}", name, path, e))
    });
    // 5. long rows and columns around the sizes where containers and vector units change behaviour
    let sizes = mc::num::edges(if r.thorough { 4097 } else { 1025 });
    r.group("sizes", (sizes.len() * 4 * 3) as u64, |i, st| {
      let mut p = Pick(i);
      let n = *p.from(&sizes);
      let k = p.range(1, 4);
      let mode = p.of(3);
      let (cap, ops): ([usize; 2], Vec<Op>) = match mode {
        0 => ([n, k], (0..n + 1).map(|_| Op::AddRow(k)).collect()),
        1 => ([k, n], std::iter::once(Op::AddMutRow(1)).chain((1..k).map(|_| Op::AddMutRow(1))).chain((0..n).map(|_| Op::AddCol(k))).collect()),
        _ => ([k, n], (0..k + 1).map(|_| Op::AddMutRow(n)).chain([Op::DelRow(k - 1), Op::DelRow(0)]).collect()),
      };
      let mut m = Matrix::with_capacity(cap);
      let mut model = Model { rows: vec![], cap };
      let mut f = 0;
      for op in ops {
        step(&mut m, &mut model, op, &mut f)?;
        st.step(1);
      }
      st.state(); st.trace();
      observe(&m, &model, true)
    });
  });
}
